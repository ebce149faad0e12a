// Bandwidth selection: what is evaluated, recorded and chosen.
#include "common.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/BandwidthSelector.h"
using namespace hx;
struct Recorder : public IBandwidthSelectable
{
    std::function<double(double)> f; long stopAt = -1; bool adaptive; int kernel;
    std::vector<std::pair<double, double>> evals; bool wrongKind = false;
    Status getCriterion(BandwidthWeight* w, double& c) override
    {
        if (w->adaptive() != adaptive || (int)w->kernel() != kernel) wrongKind = true;
        if (stopAt >= 0 && (long)evals.size() >= stopAt) { c = DBL_MAX; evals.push_back({w->bandwidth(), DBL_MAX}); return Status::Terminated; }
        c = f(w->bandwidth()); evals.push_back({w->bandwidth(), c});
        return Status::Success;
    }
};
static void search(long it)
{
    Recorder r; r.adaptive = B(); r.kernel = I(0, 4);
    double lo = r.adaptive ? (double)I(1, 30) : U(0, 100), up = lo + (r.adaptive ? (double)I(0, 200) : U(0, 1000));
    double opt = U(lo - 10, up + 10), a = U(0.01, 3), cut = U(lo, up); int kind = I(0, 5);
    r.f = [=](double b) {
        double v = a * (b - opt) * (b - opt) / (1 + up - lo) + 5;
        if (kind == 1) v = 3.0;                                  // flat
        if (kind == 2 && b < cut) v = DBL_MAX;                   // failing below a limit
        if (kind == 3) v += 2 * std::sin(b * 0.7);               // several minima
        if (kind == 4) v = std::floor(v);                        // plateaus
        if (kind == 5) v = -1e3 - v;                             // maximum inside
        return v; };
    double bw0 = B() ? U(lo, up) : U(-5, 2000);
    std::string text = std::string(r.adaptive ? "adaptive" : "fixed") + " kind=" + std::to_string(kind) + " lower=" + num(lo) + " upper=" + num(up) + " optimum=" + num(opt) + " initial=" + num(bw0);
    at("search " + text); sample(text);
    BandwidthWeight w0(bw0, r.adaptive, (BandwidthWeight::KernelFunctionType)r.kernel);
    BandwidthSelector s(&w0, lo, up);
    BandwidthWeight* w = nullptr; bool threw = false;
    try { w = s.optimize(&r); } catch (const std::exception&) { threw = true; }
    bool bothWorst = r.evals.size() >= 2 && r.evals[0].second == DBL_MAX && r.evals[1].second == DBL_MAX;
    expect("search", threw == bothWorst, "fails exactly when neither initial bandwidth can be fitted");
    expect("search", !r.wrongKind, "every candidate has the kernel and kind of the initial bandwidth");
    expect("search", r.evals.size() <= 102, "at most 102 evaluations");
    if (threw) { expect("search", r.evals.size() == 2, "nothing is evaluated after the failure"); return; }
    double best = DBL_MAX; std::map<double, double> want;
    for (auto& e : r.evals)
    {
        expect("search", e.first >= lo && e.first <= up, "candidate " + num(e.first) + " within the bounds");
        best = std::min(best, e.second);
        if (e.second < DBL_MAX) want[e.first] = e.second;
    }
    expect("search", w->bandwidth() >= lo && w->bandwidth() <= up, "chosen bandwidth within the bounds");
    expect("search", w->adaptive() == r.adaptive && (int)w->kernel() == r.kernel, "kernel and kind preserved");
    expectNear("search", r.f(w->bandwidth()), best, "criterion of the chosen bandwidth is the smallest evaluated", 0, 0);
    BandwidthCriterionList l = s.bandwidthCriterion();
    expect("search", l.size() == want.size(), "one entry per evaluated bandwidth that could be fitted");
    size_t i = 0;
    for (auto& e : want) { if (i < l.size()) expect("search", l[i].first == e.first && l[i].second == e.second, "entry " + std::to_string(i) + " is the criterion of its bandwidth, in ascending order of bandwidth"); i++; }
    if (w != &w0) delete w;
    // the same search stopped at every evaluation
    size_t total = r.evals.size();
    for (size_t k = 0; k < total; k += 1 + k / 6)
    {
        Recorder q = r; q.evals.clear(); q.stopAt = k;
        BandwidthSelector z(&w0, lo, up);
        at("search stopped at evaluation " + std::to_string(k) + " " + text);
        BandwidthWeight* v = z.optimize(&q);
        expect("stopped", v->bandwidth() == bw0 && v->adaptive() == r.adaptive && (int)v->kernel() == r.kernel, "the initial bandwidth stays in force");
        expect("stopped", q.evals.size() <= k + 2, "no more than the pending evaluation after the cancellation");
        for (auto& e : z.bandwidthCriterion()) { bool known = false; for (auto& g : q.evals) known = known || g == e; expect("stopped", known && e.second < DBL_MAX, "recorded criteria are those evaluated"); }
    }
}
static double refAicc(const mat& x, const vec& y, const std::function<vec(uword)>& w, bool& ok) { Fit f = refFit(x, y, w); ok = f.ok; return f.ok ? refDiag(y, f.rss, f.trS, f.trStS).AICc : 0; }
static double refCv(const mat& x, const vec& y, const std::function<vec(uword)>& w, bool& ok)
{
    double s = 0; ok = true;
    for (uword i = 0; i < x.n_rows; i++)
    {
        vec wi = w(i), b; wi(i) = 0;
        if (!refWls(x, y, wi, b)) { ok = false; return 0; }
        double f = 0; for (uword a = 0; a < x.n_cols; a++) f += x(i, a) * b(a);
        s += (y(i) - f) * (y(i) - f);
    }
    return s;
}
static void chosen(const std::string& g, const BandwidthCriterionList& l, double bw)
{
    double best = DBL_MAX, at_ = 0;
    for (auto& e : l) { if (e.second < best) best = e.second, at_ = e.first; }
    bool ok = false; for (auto& e : l) ok = ok || (e.first == bw && e.second == best);
    expect(g, ok, "the bandwidth in force (" + num(bw) + ") has the smallest recorded criterion (at " + num(at_) + ")");
    for (size_t i = 1; i < l.size(); i++) expect(g, l[i - 1].first < l[i].first, "ascending order of bandwidth");
}
static void gwr(long it)
{
    if (it % 2) return;
    Data d = gen(24, 40, 2, 3, I(0, 4)); at("gwr " + d.text);
    bool cv = B(), bounds = B(0.7), dflt = B(0.3);
    double md = 0; for (uword i = 0; i < d.n; i++) md = std::max(md, d.dist(d.coords, i).max());
    double lo = d.adaptive ? 14 : 0.5 * md, up = d.adaptive ? d.n : 2 * md;
    for (int th : {0, 3})
    {
        GWRBasic g(d.x, d.y, d.coords, d.sw(), true, true); par(g, th);
        g.setIsAutoselectBandwidth(true);
        if (!dflt) g.setBandwidthSelectionCriterion(cv ? GWRBasic::CV : GWRBasic::AIC);
        cv = g.bandwidthSelectionCriterion() == GWRBasic::CV;
        bool b = bounds || !d.adaptive;
        if (b) { g.setGoldenLowerBounds(lo); g.setGoldenUpperBounds(up); }
        at("gwr threads=" + std::to_string(th) + " cv=" + std::to_string(cv) + " default=" + std::to_string(dflt) + " bounds=" + std::to_string(b) + " " + d.text);
        mat betas = g.fit();
        BandwidthCriterionList l = g.bandwidthSelectionCriterionList();
        double bw = g.spatialWeight().weight<BandwidthWeight>()->bandwidth();
        double L = b ? lo : 20, Up = b ? up : d.n;
        for (auto& e : l)
        {
            bool ok; double c = (cv ? refCv : refAicc)(d.x, d.y, [&](uword i) { return d.w(i, e.first); }, ok);
            expect("gwr", e.first >= L && e.first <= Up, "candidate within the bounds");
            if (ok) expectNear("gwr", e.second, c, cv ? "recorded CV score" : "recorded AICc", 1e-6, 1e-6);
        }
        chosen("gwr", l, bw);
        Fit f = refFit(d.x, d.y, [&](uword i) { return d.w(i, bw); });
        if (f.ok) expectMat("gwr", betas, f.betas, "coefficients of the selected bandwidth", 1e-6);
        expect("gwr", g.spatialWeight().weight<BandwidthWeight>()->adaptive() == d.adaptive && (int)g.spatialWeight().weight<BandwidthWeight>()->kernel() == d.kernel, "kernel and kind preserved");
    }
}
static void gtwr(long it)
{
    if (it % 4) return;
    Data d = gen(30, 40, 2, 3, B() ? GAU : EXPO); if (d.geo) return;
    d.adaptive = B();
    vec t(d.n); for (uword i = 0; i < d.n; i++) t(i) = 3.0;      // equal times: no observation is infinitely far
    if (!d.adaptive) d.bw = 60;
    double la = U(0.3, 0.9);
    for (bool cv : {true, false})
    {
        at("gtwr cv=" + std::to_string(cv) + " lambda=" + num(la) + " " + d.text);
        CRSDistance s(false); OneDimDistance o; CRSSTDistance dist(&s, &o, la);
        BandwidthWeight w = d.weight(); SpatialWeight sw(&w, &dist);
        GTWR g(d.x, d.y, d.coords, sw, true, true); g.setCoords(d.coords, t);
        g.setIsAutoselectBandwidth(true);
        if (B(0.7)) g.setBandwidthSelectionCriterion(cv ? GTWR::CV : GTWR::AIC);
        bool isCv = g.bandwidthSelectionCriterion() == GTWR::CV;
        mat betas;
        try { betas = g.fit(); } catch (const std::exception&) { continue; }
        BandwidthCriterionList l = g.bandwidthSelectionCriterionList();
        double bw = g.spatialWeight().weight<BandwidthWeight>()->bandwidth();
        auto w2 = [&](double b) { return [&, b](uword i) { return refWeight(refST(d.coords, t, i, la), b, d.adaptive, d.kernel); }; };
        for (auto& e : l)
        {
            bool ok; double c = (isCv ? refCv : refAicc)(d.x, d.y, w2(e.first), ok);
            if (ok && c < 1e6 && (d.adaptive || e.first > 20)) expectNear("gtwr", e.second, c, isCv ? "recorded CV score" : "recorded AICc", 1e-5, 1e-6);
        }
        chosen("gtwr", l, bw);
        Fit f = refFit(d.x, d.y, w2(bw));
        if (f.ok) expectMat("gtwr", betas, f.betas, "coefficients of the selected bandwidth", 1e-5);
    }
}
int main(int argc, char** argv) { return run(argc, argv, {{"search", search}, {"gwr", gwr}, {"gtwr", gtwr}}); }
