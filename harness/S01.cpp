// Geographically weighted summary statistics.
#include "common.h"
#include "gwmodelpp/GWSS.h"
using namespace hx;
struct SData { mat x, coords; Data d; };
static mat vars(uword n, uword p) { mat x(n, p); for (uword j = 0; j < p; j++) for (uword i = 0; i < n; i++) x(i, j) = 3 + 2 * N01() + U(); return x; }
static vec normed(const vec& w) { double s = 0; for (double v : w) s += v; return w / s; }
static double wsum(const vec& w, const std::function<double(uword)>& f) { double s = 0; for (uword t = 0; t < w.n_elem; t++) s += w(t) * f(t); return s; }
static bool exactTies = false;     // equal weights that are powers of two: cumulative weights are exact
static bool refQ(const vec& x, const vec& w, double k, double& out)
{
    std::vector<std::pair<double, double>> v; for (uword t = 0; t < x.n_elem; t++) v.push_back({x(t), w(t)});
    std::sort(v.begin(), v.end());
    double c = 0; out = v.back().first;
    for (size_t t = 0; t < v.size(); t++) { c += v[t].second; if (std::fabs(c - k) < 1e-9 && !exactTies) return false; if (c > k) { out = v[t ? t - 1 : 0].first; break; } }
    return true;
}
static void average(long it)
{
    exactTies = it % 7 == 0; uword n2 = 4 << I(0, 2);
    Data d = exactTies ? gen(n2, n2, 2, 3, BOX) : gen(6, 30); if (exactTies) { d.adaptive = false; d.bw = 1e9; } sample(d.text);
    uword p = I(1, 4); mat x = vars(d.n, p); if (B(0.2)) d.bw = d.adaptive ? d.bw : d.bw * 0.4;
    bool q = exactTies || B(0.6);
    mat mean(d.n, p), var(d.n, p), sk(d.n, p), med(d.n, p), iqr(d.n, p), qi(d.n, p);
    for (uword i = 0; i < d.n; i++)
    {
        vec w = normed(d.w(i));
        for (uword j = 0; j < p; j++)
        {
            double m = wsum(w, [&](uword t) { return x(t, j); }); mean(i, j) = m;
            var(i, j) = wsum(w, [&](uword t) { return std::pow(x(t, j) - m, 2); });
            if (!(var(i, j) > 1e-6)) return;
            sk(i, j) = wsum(w, [&](uword t) { return std::pow(x(t, j) - m, 3); }) / std::pow(var(i, j), 1.5);
            double a = 0, b = 0, c = 0;
            if (q && !(refQ(x.col(j), w, 0.25, a) && refQ(x.col(j), w, 0.5, b) && refQ(x.col(j), w, 0.75, c))) q = false;
            med(i, j) = b; iqr(i, j) = c - a; qi(i, j) = (2 * b - c - a) / (c - a);
            if (q && !(iqr(i, j) > 1e-9)) q = false;
        }
    }
    for (int th : {0, 1, 3})
    {
        at("average p=" + std::to_string(p) + " threads=" + std::to_string(th) + " quantile=" + std::to_string(q) + " " + d.text);
        GWSS g(x, d.coords, d.sw());
        if (B(0.3)) { Data o = gen(6, 20); mat x0 = vars(o.n, I(2, 3)); g.setVariables(x0); g.setCoords(o.coords); g.setSpatialWeight(o.sw()); g.setGWSSMode(B() ? GWSS::GWSSMode::Correlation : GWSS::GWSSMode::Average); g.run(); g.setVariables(x); g.setCoords(d.coords); g.setSpatialWeight(d.sw()); }
        par(g, th); g.setGWSSMode(GWSS::GWSSMode::Average); g.setQuantile(q);
        if (B()) par(g, th);
        g.run();
        expectMat("average", g.localMean(), mean, "local mean"); expectMat("average", g.localVar(), var, "local variance");
        expectMat("average", g.localSDev(), sqrt(var), "local standard deviation"); expectMat("average", g.localSkewness(), sk, "local skewness", 1e-6);
        expectMat("average", g.localCV(), sqrt(var) / mean, "local coefficient of variation", 1e-6);
        if (q) { expectMat("quantile", g.localMedian(), med, "local median"); expectMat("quantile", g.iqr(), iqr, "interquartile range"); expectMat("quantile", g.qi(), qi, "quantile imbalance"); }
    }
}
static void correlation(long it)
{
    Data d = gen(6, 30);
    uword p = I(2, 5); mat x = vars(d.n, p), rk(d.n, p); bool first = B();
    for (uword j = 0; j < p; j++) for (uword i = 0; i < d.n; i++) { double r = 1; for (uword t = 0; t < d.n; t++) r += x(t, j) < x(i, j); rk(i, j) = r; }
    std::vector<std::pair<uword, uword>> prs;
    for (uword a = 0; a < (first ? 1 : p); a++) for (uword b = a + 1; b < p; b++) prs.push_back({a, b});
    mat cov(d.n, prs.size()), cor(d.n, prs.size()), sc(d.n, prs.size()), mean(d.n, p), var(d.n, p);
    for (uword i = 0; i < d.n; i++)
    {
        vec w = normed(d.w(i));
        auto cv = [&](const mat& m, uword a, uword b) {
            double ma = wsum(w, [&](uword t) { return m(t, a); }), mb = wsum(w, [&](uword t) { return m(t, b); });
            return wsum(w, [&](uword t) { return (m(t, a) - ma) * (m(t, b) - mb); }) / (1 - wsum(w, [&](uword t) { return w(t); })); };
        for (uword j = 0; j < p; j++) { mean(i, j) = wsum(w, [&](uword t) { return x(t, j); }); var(i, j) = wsum(w, [&](uword t) { return std::pow(x(t, j) - mean(i, j), 2); }); if (!(var(i, j) > 1e-6)) return; }
        for (size_t s = 0; s < prs.size(); s++)
        {
            auto [a, b] = prs[s];
            cov(i, s) = cv(x, a, b); cor(i, s) = cov(i, s) / std::sqrt(cv(x, a, a) * cv(x, b, b)); sc(i, s) = cv(rk, a, b) / std::sqrt(cv(rk, a, a) * cv(rk, b, b));
        }
    }
    for (int th : {0, 1, 3})
    {
        at("correlation p=" + std::to_string(p) + " first=" + std::to_string(first) + " threads=" + std::to_string(th) + " " + d.text);
        GWSS g(x, d.coords, d.sw()); if (B()) par(g, th);
        g.setGWSSMode(GWSS::GWSSMode::Correlation); g.setIsCorrWithFirstOnly(first); par(g, th);
        g.run();
        expectMat("correlation", g.localMean(), mean, "local mean"); expectMat("correlation", g.localVar(), var, "local variance");
        expectMat("correlation", g.localCov(), cov, "local covariance", 1e-6); expectMat("correlation", g.localCorr(), cor, "local correlation", 1e-6);
        expectMat("correlation", g.localSCorr(), sc, "local rank correlation", 1e-6);
        if (B(0.2)) { GWSS one(x.cols(0, 0), d.coords, d.sw()); par(one, th); one.setGWSSMode(GWSS::GWSSMode::Correlation); expect("single", throwsAny([&] { one.run(); }), "correlation of a single variable is rejected"); }
    }
}
int main(int argc, char** argv) { return run(argc, argv, {{"average", average}, {"correlation", correlation}}); }
