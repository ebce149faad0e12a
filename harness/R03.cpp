// Selection criteria of basic GWR: leave-one-out CV and corrected AIC of a bandwidth, AICc of a set of variables.
#include "common.h"
using namespace hx;
static double refCV(const mat& x, const vec& y, const std::function<vec(uword)>& w, bool& ok)
{
    double s = 0; ok = true;
    for (uword i = 0; i < x.n_rows; i++)
    {
        vec wi = w(i), b; wi(i) = 0;
        if (!refWls(x, y, wi, b)) { ok = false; return 0; }
        double f = 0; for (uword a = 0; a < x.n_cols; a++) f += x(i, a) * b(a);
        s += (y(i) - f) * (y(i) - f);
    }
    return s;
}
static void model(GWRBasic& g, const Data& d, int th)
{
    g.setBandwidthSelectionCriterion(B() ? GWRBasic::CV : GWRBasic::AIC);
    par(g, th);
    SpatialWeight s = d.sw();
    CRSDistance dist(d.geo); dist.makeParameter({d.coords, d.coords});
    BandwidthWeight b = d.weight(); SpatialWeight p(&b, &dist);
    g.setSpatialWeight(p);
}
static void bandwidth(long it)
{
    Data d = gen(); at("bandwidth " + d.text); sample(d.text);
    for (int th : {0, 3})
    {
        GWRBasic g(d.x, d.y, d.coords, d.sw(), true, true); model(g, d, th);
        for (int rep_ = 0; rep_ < 2; rep_++)
        {
            double bw = rep_ ? d.bw * U(0.9, 1.3) : d.bw;
            if (d.adaptive) bw = std::max(bw, 4.0 * d.k + 3);
            BandwidthWeight q = d.weight(bw);
            auto w = [&](uword i) { return d.w(i, bw); };
            double c; bool ok; at("bandwidth threads=" + std::to_string(th) + " trial=" + num(bw) + " " + d.text);
            double cv = refCV(d.x, d.y, w, ok);
            if (ok) { g.setBandwidthSelectionCriterion(GWRBasic::CV); g.getCriterion(&q, c); expectNear("CV", c, cv, "CV score", 1e-6, 1e-6); }
            Fit f = refFit(d.x, d.y, w);
            if (f.ok) { g.setBandwidthSelectionCriterion(GWRBasic::AIC); g.getCriterion(&q, c); expectNear("AICc", c, refDiag(d.y, f.rss, f.trS, f.trStS).AICc, "AICc", 1e-6); }
        }
    }
}
// a score that is not a number or not finite is no score
static void nonfinite(long it)
{
    uword n = I(6, 20); mat x(n, 1, arma::fill::ones), c(n, 2, arma::fill::zeros); c.col(0) = arma::linspace(0, 100, n);
    vec y(n); for (double& v : y) v = N01();
    bool huge = it % 2; if (huge) y *= 1e200;
    at(std::string("nonfinite ") + (huge ? "huge" : "interpolating") + " n=" + std::to_string(n));
    BandwidthWeight b(40, false, BandwidthWeight::Gaussian); CRSDistance dist(false); dist.makeParameter({c, c}); SpatialWeight sw(&b, &dist);
    for (int th : {0, 3})
    {
        GWRBasic g(x, y, c, sw, true, true); par(g, th); g.setSpatialWeight(sw);
        double v = 0;
        if (huge)
        {
            BandwidthWeight q(200, false, BandwidthWeight::Gaussian);
            g.setBandwidthSelectionCriterion(GWRBasic::CV); g.getCriterion(&q, v); expect("nonfinite", v == DBL_MAX, "an infinite CV score is the worst");
            g.setBandwidthSelectionCriterion(GWRBasic::AIC); v = 0; g.getCriterion(&q, v); expect("nonfinite", v == DBL_MAX, "an infinite AICc is the worst");
        }
        else
        {
            BandwidthWeight q(100.0 / n / 2, false, it % 4 ? BandwidthWeight::Boxcar : BandwidthWeight::Bisquare);   // only the observation itself
            g.setBandwidthSelectionCriterion(GWRBasic::AIC); g.getCriterion(&q, v); expect("nonfinite", v == DBL_MAX, "AICc of an interpolating fit is the worst, got " + num(v));
            g.setBandwidthSelectionCriterion(GWRBasic::CV); v = 0; g.getCriterion(&q, v); expect("nonfinite", v == DBL_MAX, "CV without any neighbour is the worst, got " + num(v));
        }
    }
}
static void variables(long it)
{
    Data d = gen(16, 30, 2, 5); at("variables " + d.text);
    std::vector<size_t> v; for (size_t j = 1; j < d.k; j++) if (B(0.6)) v.push_back(j);
    std::shuffle(v.begin(), v.end(), rng());
    mat x(d.n, v.size() + 1); x.col(0) = d.x.col(0); for (size_t j = 0; j < v.size(); j++) x.col(j + 1) = d.x.col(v[j]);
    for (int th : {0, 2})
    {
        GWRBasic g(d.x, d.y, d.coords, d.sw(), true, true); model(g, d, th);
        vec one(d.n, arma::fill::ones);
        auto w = [&](uword i) { return d.adaptive ? d.w(i, DBL_MAX) : refWeight(d.dist(d.coords, i), DBL_MAX, false, d.kernel); };
        if (d.adaptive) continue;    // an adaptive bandwidth of DBL_MAX neighbours: same weights up to rounding, covered by the proof
        Fit f = refFit(x, d.y, w);
        if (!f.ok) continue;
        double c; g.getCriterion(v, c);
        expectNear("variables", c, refDiag(d.y, f.rss, f.trS, f.trStS).AICc, "AICc of the chosen columns", 1e-6);
    }
}
// a local system that cannot be inverted is the worst criterion, never a number from a partial fit
static void singular(long it)
{
    Data d = gen(14, 24, 2, 3, B() ? BISQ : BOX); d.geo = false;
    uword lone = I(0, d.n - 1);
    d.coords(lone, 0) = 1e6; d.coords(lone, 1) = 1e6;            // no neighbour within a fixed bandwidth
    d.adaptive = false; d.bw = 400;
    at("singular lone=" + std::to_string(lone) + " " + d.text);
    for (int th : {0, 1, 3})
    {
        GWRBasic g(d.x, d.y, d.coords, d.sw(), true, true); model(g, d, th);
        BandwidthWeight q(d.bw, false, (BandwidthWeight::KernelFunctionType)d.kernel);
        double c = 0; g.setBandwidthSelectionCriterion(GWRBasic::CV); g.getCriterion(&q, c);
        expectNear("singular", c, DBL_MAX, "CV with a singular local system, threads=" + std::to_string(th));
        c = 0; g.setBandwidthSelectionCriterion(GWRBasic::AIC); g.getCriterion(&q, c);
        expectNear("singular", c, DBL_MAX, "AICc with a singular local system, threads=" + std::to_string(th));
    }
}
int main(int argc, char** argv) { return run(argc, argv, {{"bandwidth", bandwidth}, {"variables", variables}, {"singular", singular}, {"nonfinite", nonfinite}}); }
