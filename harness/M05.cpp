// Multiscale GWR: back-fitting with one weighting per variable.
// Reference: the sweeps written out plainly; bandwidths come from the library's golden-section search (property R04) applied to a plain criterion.
#include "common.h"
#include "gwmodelpp/GWRMultiscale.h"
#include "gwmodelpp/BandwidthSelector.h"
using namespace hx;
typedef GWRMultiscale M;
struct Var { int kernel; bool adaptive; double bw; M::BandwidthInitilizeType init; M::BandwidthSelectionCriterionType crit; bool centered; double thr; };
struct MD { mat coords, x; vec y; uword n, k; bool geo, intercept, hat; std::vector<Var> v; size_t maxit, retry; double eps; bool dcvr; int lower; bool bounds; double lo, up; std::string text;
    vec dist(uword i) const { return geo ? refGeo(coords, i, coords) : refEuclid(coords, i, coords); }
    double maxd() const { double m = 0; for (uword i = 0; i < n; i++) m = std::max(m, dist(i).max()); return m; }
    double mind() const { double m = DBL_MAX; for (uword i = 0; i < n; i++) m = std::min(m, dist(i).min()); return m; } };
static MD genM(bool dummy = false)
{
    Data b = gen(20, 34, 2, 4); MD d; d.coords = b.coords; d.x = b.x; d.y = b.y; d.n = b.n; d.k = b.k; d.geo = b.geo; d.intercept = B(0.8); d.hat = B(0.7);
    if (!d.intercept) for (uword i = 0; i < d.n; i++) d.x(i, 0) = N01() + 2;
    if (dummy) for (uword i = 0; i < d.n; i++) d.x(i, 1) = i % 5 == 0 ? 1 : 0;
    double md = d.maxd(); std::ostringstream o; o << "n=" << d.n << " k=" << d.k << " geographic=" << d.geo;
    bool ad = B();
    for (uword i = 0; i < d.k; i++)
    {
        Var v; v.kernel = I(0, 4); v.adaptive = B(0.8) ? ad : !ad; v.bw = v.adaptive ? (double)I(d.n / 2, d.n + 3) : md * U(0.5, 1.4);
        v.init = (M::BandwidthInitilizeType)I(0, 2); v.crit = B() ? M::CV : M::AIC; v.centered = !dummy && B(0.3); v.thr = B() ? 1e-5 : v.adaptive ? 2 : md / 8; d.v.push_back(v);
        o << " [kernel=" << v.kernel << " adaptive=" << v.adaptive << " bw=" << v.bw << " init=" << v.init << " crit=" << v.crit << " centred=" << v.centered << "]";
    }
    d.maxit = I(0, 9); d.retry = I(1, 3); d.eps = std::pow(10, -U(2, 6)); d.dcvr = B(0.7); if (!d.dcvr) d.eps *= 100; d.lower = I(8, 12); 
    d.bounds = B(0.25); d.lo = ad ? d.n / 2.0 : md * 0.4; d.up = ad ? d.n - 1.0 : md; if (d.bounds) for (auto& v : d.v) v.adaptive = ad, v.bw = ad ? d.n - 4.0 : md * 1.01;
    o << " maxit=" << d.maxit << " retry=" << d.retry << " dcvr=" << d.dcvr << " bounds=" << d.bounds << " hat=" << d.hat; d.text = o.str(); return d;
}
static vec wv(const MD& d, const Var& v, uword i, double b) { return refWeight(d.dist(i), b, v.adaptive, v.kernel); }
static std::vector<SpatialWeight> sws(const MD& d) { std::vector<SpatialWeight> r; for (auto& v : d.v) { CRSDistance q(d.geo); BandwidthWeight b(v.bw, v.adaptive, (BandwidthWeight::KernelFunctionType)v.kernel); r.push_back(SpatialWeight(&b, &q)); } return r; }
// one variable: coefficients and hat matrix; false when a local system is singular
static bool one(const MD& d, const Var& v, double bw, const vec& x, const vec& y, bool loo, vec& b, mat& S)
{
    b = vec(d.n); S = mat(d.n, d.n);
    for (uword i = 0; i < d.n; i++)
    {
        vec w = wv(d, v, i, bw); if (loo) w(i) = 0; double a = 0, c = 0;
        for (uword j = 0; j < d.n; j++) { a += x(j) * w(j) * x(j); c += x(j) * w(j) * y(j); }
        if (!(a > 0)) return false;
        b(i) = c / a; for (uword j = 0; j < d.n; j++) S(i, j) = x(i) * (x(j) * w(j) / a);
    }
    return true;
}
static double rssOf(const mat& x, const vec& y, const mat& b) { double s = 0; for (uword i = 0; i < x.n_rows; i++) { double f = 0; for (uword a = 0; a < x.n_cols; a++) f += x(i, a) * b(i, a); s += (y(i) - f) * (y(i) - f); } return s; }
struct Crit : public IBandwidthSelectable
{
    const MD& d; const Var& v; vec x, y; Crit(const MD& d, const Var& v, const vec& x, const vec& y) : d(d), v(v), x(x), y(y) {}
    Status getCriterion(BandwidthWeight* w, double& c) override
    {
        vec b; mat S; c = DBL_MAX; if (!one(d, v, w->bandwidth(), x, y, v.crit == M::CV, b, S)) return Status::Success;
        double r = rssOf(mat(x), y, mat(b)), n = (double)d.n; if (v.crit == M::AIC) { double t = 0; for (uword i = 0; i < d.n; i++) t += S(i, i); r = n * std::log(r / n) + n * std::log(2 * M_PI) + n * ((n + t) / (n - 2 - t)); }
        if (std::isfinite(r)) c = r; return Status::Success;
    }
};
static double selected(const MD& d, uword i, double bw, const vec& x, const vec& y)
{
    const Var& v = d.v[i]; Crit c(d, v, x, y); BandwidthWeight w0(bw, v.adaptive, (BandwidthWeight::KernelFunctionType)v.kernel); BandwidthSelector s; s.setBandwidth(&w0);
    s.setLower(d.bounds ? d.lo : v.adaptive ? d.lower : d.mind()); s.setUpper(d.bounds ? d.up : v.adaptive ? (double)d.n : d.maxd()); BandwidthWeight* w = s.optimize(&c); double r = w->bandwidth(); if (w != &w0) delete w; return r;
}
// initial bandwidth: basic GWR criterion of all variables with the weighting of the first; nearly singular candidates (poor) decide nothing
struct Crit0 : public IBandwidthSelectable
{
    const MD& d; const mat& X; bool poor = false; Crit0(const MD& d, const mat& X) : d(d), X(X) {}
    Status getCriterion(BandwidthWeight* bw, double& c) override
    {
        double s = 0, t = 0, n = (double)d.n; bool cv = d.v[0].crit == M::CV; c = DBL_MAX;
        for (uword i = 0; i < d.n; i++)
        {
            vec w = wv(d, d.v[0], i, bw->bandwidth()); if (cv) w(i) = 0; mat G = gram(X, w, X); double rc = arma::rcond(G); if (!(rc > 1e-9)) { poor = true; return Status::Success; }
            mat C; if (!refC(X, w, C)) { poor = true; return Status::Success; }
            double f = 0; for (uword j = 0; j < d.n; j++) { double q = 0; for (uword a = 0; a < d.k; a++) q += X(i, a) * C(a, j); f += q * d.y(j); if (i == j) t += q; } s += (d.y(i) - f) * (d.y(i) - f);
        }
        double r = cv ? s : n * std::log(s / n) + n * std::log(2 * M_PI) + n * ((n + t) / (n - 2 - t)); if (!cv && n - 2 - t < 0.5) poor = true; if (std::isfinite(r)) c = r; return Status::Success;
    }
};
static double initial(const MD& d, const mat& X, bool& poor)
{
    const Var& v = d.v[0]; Crit0 c(d, X); BandwidthWeight w0(v.bw, v.adaptive, (BandwidthWeight::KernelFunctionType)v.kernel); BandwidthSelector s; s.setBandwidth(&w0);
    s.setLower(d.bounds ? d.lo : v.adaptive ? 20 : 0.0); s.setUpper(d.bounds ? d.up : v.adaptive ? (double)d.n : d.maxd()); BandwidthWeight* w; try { w = s.optimize(&c); } catch (...) { poor = c.poor; if (poor) return 0; throw; } poor = c.poor; double r = w->bandwidth(); if (w != &w0) delete w; return r;
}
struct Ref { bool ok = true; std::string why; mat betas, S, X; std::vector<double> bw; double rss; size_t sweeps = 0; };
static Ref refM(const MD& d)
{
    Ref r; r.X = d.x; uword n = d.n, k = d.k;
    for (uword a = d.intercept ? 1 : 0; a < k; a++) if (d.v[a].centered) { double m = 0; for (uword i = 0; i < n; i++) m += d.x(i, a); m /= n; for (uword i = 0; i < n; i++) r.X(i, a) -= m; }
    // initial fit: basic GWR with its own bandwidth selection, weighting of the first variable
    double bw0; bool poor = false;
    try { bw0 = initial(d, r.X, poor); } catch (const std::exception& e) { r.ok = false; r.why = "initial"; return r; }
    if (poor) { r.ok = false; r.why = "conditioning"; return r; }
    r.betas = mat(n, k); r.S = mat(n, n); cube SA(n, n, k);
    for (uword i = 0; i < n; i++)
    {
        mat c; if (!refC(r.X, wv(d, d.v[0], i, bw0), c)) { r.ok = false; r.why = "conditioning"; return r; }
        for (uword a = 0; a < k; a++) { double b = 0; for (uword j = 0; j < n; j++) { b += c(a, j) * d.y(j); SA(i, j, a) = r.X(i, a) * c(a, j); } r.betas(i, a) = b; }
        for (uword j = 0; j < n; j++) { double s = 0; for (uword a = 0; a < k; a++) s += SA(i, j, a); r.S(i, j) = s; }
    }
    std::vector<int> kind, same(k, 0);
    try
    {
        for (uword a = 0; a < k; a++) { r.bw.push_back(d.v[a].bw); kind.push_back(d.v[a].init); if (kind[a] == M::Null) r.bw[a] = selected(d, a, r.bw[a], r.X.col(a), d.y); }
        double rss = rssOf(r.X, d.y, r.betas), change = DBL_MAX;
        while (r.sweeps < d.maxit && change > d.eps)
        {
            for (uword a = 0; a < k; a++)
            {
                vec part(n); for (uword i = 0; i < n; i++) { part(i) = d.y(i); for (uword q = 0; q < k; q++) if (q != a) part(i) -= r.X(i, q) * r.betas(i, q); }
                if (kind[a] != M::Specified) { double b = selected(d, a, r.bw[a], r.X.col(a), part); if (std::fabs(b - r.bw[a]) > d.v[a].thr) same[a] = 0; else if (++same[a] >= (int)d.retry) kind[a] = M::Specified; r.bw[a] = b; }
                vec b; mat S; if (!one(d, d.v[a], r.bw[a], r.X.col(a), part, false, b, S)) { r.ok = false; r.why = "singular"; return r; }
                r.betas.col(a) = b;
                mat D(n, n), N(n, n); for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) D(i, j) = SA(i, j, a) - r.S(i, j);
                for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) { double s = S(i, j); for (uword q = 0; q < n; q++) s += S(i, q) * D(q, j); N(i, j) = s; }
                for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) { SA(i, j, a) = N(i, j); r.S(i, j) = N(i, j) - D(i, j); }
            }
            double now = rssOf(r.X, d.y, r.betas); change = std::fabs(now - rss); if (d.dcvr) change = std::sqrt(change / now); rss = now; r.sweeps++;
        }
        r.rss = rss;
    }
    catch (const std::exception&) { r.ok = false; r.why = "search"; }
    return r;
}
// the same on minimally disturbed data: a search that depends on rounding (nearly singular candidates, jumps of compact kernels) decides nothing
static bool stable(const MD& d, const Ref& r)
{
    MD e = d; for (uword i = 0; i < d.n; i++) { e.y(i) += 1e-10 * N01(); e.coords(i, 0) += 1e-9 * N01(); e.coords(i, 1) += 1e-9 * N01(); for (uword a = 0; a < d.k; a++) if (d.x(i, a) != 0 && d.x(i, a) != 1) e.x(i, a) += 1e-10 * N01(); }
    Ref q = refM(e); if (q.ok != r.ok || q.why != r.why || q.sweeps != r.sweeps) return false;
    for (size_t a = 0; r.ok && a < r.bw.size(); a++) if (!near(q.bw[a], r.bw[a], 1e-8)) return false;
    if (r.ok) for (uword i = 0; i < d.n; i++) for (uword a = 0; a < d.k; a++) if (!near(q.betas(i, a), r.betas(i, a), 1e-6)) return false;
    return true;
}
static void setup(M& g, const MD& d, int th)
{
    g.setCoords(d.coords); g.setDependentVariable(d.y); g.setIndependentVariables(d.x); g.setSpatialWeights(sws(d)); g.setHasIntercept(d.intercept); g.setHasHatMatrix(d.hat);
    std::vector<M::BandwidthInitilizeType> in; std::vector<M::BandwidthSelectionCriterionType> cr; std::vector<bool> ce; std::vector<double> thr; for (auto& v : d.v) { in.push_back(v.init); cr.push_back(v.crit); ce.push_back(v.centered); thr.push_back(v.thr); }
    g.setBandwidthInitilize(in); g.setBandwidthSelectionApproach(cr); g.setPreditorCentered(ce); g.setBandwidthSelectThreshold(thr); g.setBandwidthSelectRetryTimes(d.retry); g.setMaxIteration(d.maxit); g.setCriterionType(d.dcvr ? M::dCVR : M::CVR); g.setCriterionThreshold(d.eps); g.setAdaptiveLower(d.lower);
    if (d.bounds) { g.setGoldenLowerBounds(d.lo); g.setGoldenUpperBounds(d.up); } par(g, th);
}
static void check(M& g, const mat& b, const MD& d, const Ref& r, const std::string& what)
{
    bool ok = true; for (uword a = 0; a < d.k; a++) { double w = g.spatialWeights()[a].weight<BandwidthWeight>()->bandwidth(); ok = expectNear("bandwidths", w, r.bw[a], what + " bandwidth of variable " + std::to_string(a), 1e-6, 1e-3) && ok; }
    if (!ok || !expectMat("betas", b, r.betas, what + " returned coefficients", 1e-5)) return;
    expectMat("betas", g.betas(), r.betas, what + " stored coefficients", 1e-5);
    double t = 0, tt = 0; if (d.hat) for (uword i = 0; i < d.n; i++) { t += r.S(i, i); for (uword j = 0; j < d.n; j++) tt += r.S(i, j) * r.S(i, j); }
    if (std::fabs(d.n - 2 * t + tt - 1) > 0.05 && std::fabs(d.n - 2 - t) > 0.05) expectDiag("diagnostic", g.diagnostic(), refDiag(d.y, r.rss, t, tt), 1e-5);
}
static void fitOne(const MD& d, const Ref& r)
{
    for (int th : {0, 1, 4})
    {
        at("fit threads=" + std::to_string(th) + " " + d.text); M g;
        if (B(0.3) && !d.bounds) { MD d0 = genM(); d0.bounds = false; d0.maxit = 2; setup(g, d0, B() ? 0 : 2); try { g.fit(); } catch (...) {} }
        setup(g, d, th); mat b;
        if (!r.ok) { expect("failure", throwsAny([&] { g.fit(); }), "fit fails when a search or a local system does (" + r.why + ")"); continue; }
        b = g.fit(); check(g, b, d, r, "fit");
        // again: bandwidths that settled are kept, so only a fully specified model repeats itself; centring again changes roundings, which the initial search may amplify
        bool spec = true; for (auto& v : d.v) spec = spec && v.init == M::Specified && !v.centered; if (spec) { b = g.fit(); check(g, b, d, r, "refit"); }
    }
}
static void fit(long it)
{
    MD d = genM(); if (it % 3 == 0) for (auto& v : d.v) v.init = M::Specified; sample(d.text); at("fit " + d.text);
    Ref r = refM(d); if (r.why == "initial" || r.why == "conditioning" || !stable(d, r)) { count("skipped_unstable"); return; } fitOne(d, r);
}
// a variable that is zero at most observations: many candidate bandwidths leave a singular local system
static void sparse(long it)
{
    MD d = genM(true); d.bounds = false; d.v[1].kernel = BISQ; d.v[1].adaptive = B(); d.v[1].bw = d.v[1].adaptive ? (double)d.n : d.maxd() * 1.01; d.v[1].init = B() ? M::Null : M::Initial; d.v[0].kernel = GAU; at("sparse " + d.text); Ref r = refM(d); if (r.why == "initial" || r.why == "conditioning" || !stable(d, r)) { count("skipped_unstable"); return; } fitOne(d, r);
}
int main(int argc, char** argv) { return run(argc, argv, {{"fit", fit}, {"sparse", sparse}}); }
