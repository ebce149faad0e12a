// Local collinearity (locally compensated ridge) GWR.
#include "common.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
using namespace hx;
struct R { double lambda; bool adjust; double thr; };
static double sdev(const vec& v) { double m = 0; for (double q : v) m += q; m /= v.n_elem; double s = 0; for (double q : v) s += (q - m) * (q - m); return std::sqrt(s / (v.n_elem - 1)); }
// condition number and the locally compensated lambda; false when the decision is too near the threshold
static bool lambdaOf(const mat& x, const vec& w, const R& r, double& lam)
{
    uword k = x.n_cols; mat g(k, k); vec nrm(k);
    for (uword a = 0; a < k; a++) { double s = 0; for (uword j = 0; j < x.n_rows; j++) s += std::pow(x(j, a) * w(j), 2); nrm(a) = std::sqrt(s); if (s < 1e-20) return false; }
    for (uword a = 0; a < k; a++) for (uword b = 0; b < k; b++) { double s = 0; for (uword j = 0; j < x.n_rows; j++) s += x(j, a) * x(j, b) * w(j) * w(j); g(a, b) = s / nrm(a) / nrm(b); }
    vec e = arma::eig_sym(arma::symmatu(g)); double s0 = std::sqrt(e(k - 1)), sl = std::sqrt(std::max(e(0), 0.0));
    lam = r.lambda; if (!r.adjust) return true;
    if (sl < 1e-6 || std::fabs(s0 / sl - r.thr) < 1e-3) return false;
    if (s0 / sl > r.thr) lam = (s0 - r.thr * sl) / (r.thr - 1);
    return true;
}
static bool ridge(const Data& d, const vec& w, const R& r, vec& b)
{
    double lam; if (!lambdaOf(d.x, w, r, lam)) return false;
    uword k = d.k, n = d.n; vec sd(k, arma::fill::ones); for (uword a = 1; a < k; a++) sd(a) = sdev(d.x.col(a));
    mat xs(n, k); vec ys(n), yw(n); for (uword j = 0; j < n; j++) { yw(j) = d.y(j) * std::sqrt(w(j)); for (uword a = 0; a < k; a++) xs(j, a) = d.x(j, a) * std::sqrt(w(j)) / sd(a); }
    double ysd = sdev(yw); if (ysd < 1e-9) return false; for (uword j = 0; j < n; j++) ys(j) = yw(j) / ysd;
    mat A = gram(xs, vec(n, arma::fill::ones), xs); for (uword a = 0; a < k; a++) A(a, a) += lam;
    mat s; if (!refSolve(A, gram(xs, vec(n, arma::fill::ones), mat(ys)), s)) return false;
    b = vec(k); for (uword a = 0; a < k; a++) b(a) = s(a, 0) * ysd / sd(a);
    return b.is_finite();
}
struct LC { bool ok = true; mat betas; double trS = 0, trStS = 0; };
static LC ref(const Data& d, const std::function<vec(uword)>& wf, const R& r)
{
    LC o; o.betas = mat(d.n, d.k);
    for (uword i = 0; i < d.n; i++)
    {
        vec w = wf(i), b; if (!ridge(d, w, r, b)) { o.ok = false; return o; }
        o.betas.row(i) = b.t();
        mat c; if (!refC(d.x, w, c)) { o.ok = false; return o; }       // c = (X'WX)^-1 X'W
        for (uword j = 0; j < d.n; j++) { double h = 0; for (uword a = 0; a < d.k; a++) h += w(i) * d.x(i, a) * c(a, j); if (j == i) o.trS += h; o.trStS += h * h; }
    }
    return o;
}
static R genR() { R r; r.adjust = B(); r.lambda = B(0.4) ? 0 : U(0.01, 0.6); r.thr = B(0.3) ? 30 : U(1.2, 8); return r; }
static std::string txt(const R& r) { return " lambda=" + num(r.lambda) + " adjust=" + std::to_string(r.adjust) + " threshold=" + num(r.thr); }
static void setup(GWRLocalCollinearity& g, const Data& d, const R& r, int th)
{
    g.setCoords(d.coords); g.setDependentVariable(d.y); g.setIndependentVariables(d.x); g.setSpatialWeight(d.sw());
    g.setLambda(r.lambda); g.setLambdaAdjust(r.adjust); g.setCnThresh(r.thr); par(g, th);
}
static void check(GWRLocalCollinearity& g, const mat& b, const Data& d, const LC& f, const std::string& what)
{
    if (!expectMat("betas", b, f.betas, what + " returned coefficients", 1e-5)) return;
    expectMat("betas", g.betas(), f.betas, what + " stored coefficients", 1e-5);
    double n = d.n, rss = 0, m = arma::mean(d.y), yss = 0;
    for (uword i = 0; i < d.n; i++) { double v = 0; for (uword a = 0; a < d.k; a++) v += d.x(i, a) * f.betas(i, a); rss += std::pow(d.y(i) - v, 2); yss += std::pow(d.y(i) - m, 2); }
    double enp = 2 * f.trS - f.trStS, edf = n - enp, s2 = rss / edf, r2 = 1 - rss / yss;
    RegressionDiagnostic q = g.diagnostic();
    expectNear("diagnostic", q.RSS, rss, what + " RSS", 1e-5); expectNear("diagnostic", q.ENP, enp, what + " ENP", 1e-5); expectNear("diagnostic", q.EDF, edf, what + " EDF", 1e-5);
    if (edf > 0.1) { expectNear("diagnostic", q.AIC, n * (std::log(2 * M_PI * s2) + 1) + 2 * (enp + 1), what + " AIC", 1e-5);
        if (std::fabs(1 - (enp + 2) / n) > 1e-2) expectNear("diagnostic", q.AICc, n * std::log(2 * M_PI * s2) + n * ((1 + enp / n) / (1 - (enp + 2) / n)), what + " AICc", 1e-5);
        expectNear("diagnostic", q.RSquareAdjust, 1 - (1 - r2) * (n - 1) / edf, what + " adjusted R2", 1e-5); }
    expectNear("diagnostic", q.RSquare, r2, what + " R2", 1e-5);
}
static void collinear(Data& d) { if (d.k > 2 && B(0.6)) { double e = B() ? 0.3 : 0.05; for (uword j = 0; j < d.n; j++) d.x(j, 2) = d.x(j, 1) + e * N01(); } }
static void fit(long it)
{
    Data d = gen(16, 34, 2, 4); collinear(d); R r = genR(); at("fit " + d.text + txt(r)); sample(d.text + txt(r));
    LC f = ref(d, [&](uword i) { return d.w(i); }, r); if (!f.ok) return;
    Data d0 = gen(16, 30, 2, 3); R r0 = genR(); bool ok0 = ref(d0, [&](uword i) { return d0.w(i); }, r0).ok;
    for (int th : {0, 1, 3})
    {
        at("fit threads=" + std::to_string(th) + " " + d.text + txt(r));
        GWRLocalCollinearity g; if (B() && ok0) { setup(g, d0, r0, B() ? 0 : 2); try { g.fit(); } catch (...) {} }
        setup(g, d, r, th);
        check(g, g.fit(), d, f, "fit"); check(g, g.fit(), d, f, "refit");
        mat loc(I(1, 2 * d.n), 2); for (uword i = 0; i < loc.n_rows; i++) { uword q = I(0, d.n - 1); loc.row(i) = d.coords.row(q); loc(i, 0) += U(-2, 2); }
        mat w(loc.n_rows, d.k); bool ok = true;
        for (uword i = 0; i < loc.n_rows && ok; i++) { vec b; ok = ridge(d, d.wAt(loc, i), r, b); if (ok) w.row(i) = b.t(); }
        if (ok) expectMat("predict", g.predict(loc), w, "prediction", 1e-5);
    }
}
static void criterion(long it)
{
    Data d = gen(16, 34, 2, 4); collinear(d); R r = genR(); double bw = d.bw * U(0.95, 1.2); at("criterion trial=" + num(bw) + " " + d.text + txt(r));
    double cv = 0; for (uword i = 0; i < d.n; i++) { vec w = d.w(i, bw), b; w(i) = 0; if (!ridge(d, w, r, b)) return; double v = 0; for (uword a = 0; a < d.k; a++) v += d.x(i, a) * b(a); cv += std::pow(d.y(i) - v, 2); }
    for (int th : {0, 1, 3})
    {
        GWRLocalCollinearity g; setup(g, d, r, th); SpatialWeight sw = d.sw(); sw.distance()->makeParameter({d.coords, d.coords}); g.setSpatialWeight(sw);
        BandwidthWeight q = d.weight(bw); double c = 0; g.setBandwidthSelectionCriterion(GWRLocalCollinearity::CV); g.getCriterion(&q, c);
        expectNear("CV", c, cv, "cross-validation score, threads=" + std::to_string(th), 1e-5, 1e-5);
    }
}
static void nonfinite(long it)
{
    Data d = gen(16, 34, 2, 3); R r = genR(); d.y *= 1e200; at("nonfinite " + d.text + txt(r));
    for (int th : {0, 1, 3})
    {
        GWRLocalCollinearity g; setup(g, d, r, th); SpatialWeight sw = d.sw(); sw.distance()->makeParameter({d.coords, d.coords}); g.setSpatialWeight(sw);
        BandwidthWeight q = d.weight(d.bw); double c = 0; g.setBandwidthSelectionCriterion(GWRLocalCollinearity::CV); g.getCriterion(&q, c);
        expect("nonfinite", c == DBL_MAX, "an infinite cross-validation score is the worst, threads=" + std::to_string(th));
    }
}
static void select(long it)
{
    if (it % 4) return;
    Data d = gen(24, 40, 2, 3); d.adaptive = true; d.kernel = B() ? GAU : EXPO; R r = genR(); at("select " + d.text + txt(r));
    GWRLocalCollinearity g; setup(g, d, r, it % 3); g.setIsAutoselectBandwidth(true);
    mat b = g.fit(); SpatialWeight sw = g.spatialWeight();
    double chosen = sw.weight<BandwidthWeight>()->bandwidth(); expect("select", chosen >= 20 && chosen <= (double)d.n, "selected bandwidth " + num(chosen) + " within 20 and n");
    expect("select", g.bandwidthSelectionCriterionList().size() > 0, "the evaluated bandwidths are recorded");
    double best = DBL_MAX; for (auto& p : g.bandwidthSelectionCriterionList()) best = std::min(best, p.second);
    double cv = 0; g.getCriterion(sw.weight<BandwidthWeight>(), cv); expectNear("select", cv, best, "criterion of the selected bandwidth is the smallest recorded", 1e-9);
    LC f = ref(d, [&](uword i) { return sw.weightVector(i); }, r); if (f.ok) check(g, b, d, f, "selected bandwidth");
}
int main(int argc, char** argv) { return run(argc, argv, {{"fit", fit}, {"criterion", criterion}, {"nonfinite", nonfinite}, {"select", select}}); }
