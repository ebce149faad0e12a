// Geographically weighted discriminant analysis: scores, groups, probabilities and entropy by plain loops.
#include "common.h"
#include "gwmodelpp/GWDA.h"
using namespace hx;
struct Ref { mat score, probs; std::vector<std::string> group; vec pmax, entropy; double rate = 0; bool ok = true; };
static Ref ref(const mat& x, const std::vector<std::string>& y, const std::function<vec(uword)>& w, bool quad, bool lc, bool lm, bool lp)
{
    Ref r; uword n = x.n_rows, p = x.n_cols;
    std::vector<std::string> lev; for (auto& s : y) if (std::find(lev.begin(), lev.end(), s) == lev.end()) lev.push_back(s);
    uword m = lev.size(); r.score = mat(n, m); r.probs = mat(n, m); r.group.resize(n); r.pmax = vec(n); r.entropy = vec(n);
    std::vector<vec> W(n); for (uword i = 0; i < n; i++) { W[i] = w(i); W[i](i) = 0; }
    double all = 0; for (uword i = 0; i < n; i++) for (uword j = 0; j < n; j++) all += lp ? W[i](j) : 1.0;
    for (uword i = 0; i < n; i++)
    {
        std::vector<mat> cov(m); std::vector<vec> mean(m); vec prior(m); vec cnt(m, arma::fill::zeros);
        for (uword g = 0; g < m; g++)
        {
            auto wt = [&](bool local, uword j) { return y[j] != lev[g] ? 0.0 : local ? W[i](j) : 1.0; };
            double sm = 0, sc = 0, sp = 0, s2 = 0; for (uword j = 0; j < n; j++) { sm += wt(lm, j); sc += wt(lc, j); sp += wt(lp, j); cnt(g) += y[j] == lev[g]; }
            if (sm < 1e-6 || sc < 1e-6 || sp < 1e-9) { r.ok = false; return r; }
            mean[g] = vec(p, arma::fill::zeros); vec mc(p, arma::fill::zeros);
            for (uword j = 0; j < n; j++) { s2 += std::pow(wt(lc, j) / sc, 2); for (uword a = 0; a < p; a++) { mean[g](a) += wt(lm, j) * x(j, a) / sm; mc(a) += wt(lc, j) * x(j, a) / sc; } }
            if (1 - s2 < 0.05) { r.ok = false; return r; }
            cov[g] = mat(p, p, arma::fill::zeros);
            for (uword a = 0; a < p; a++) for (uword b = 0; b < p; b++) { for (uword j = 0; j < n; j++) cov[g](a, b) += wt(lc, j) / sc * (x(j, a) - mc(a)) * (x(j, b) - mc(b)); cov[g](a, b) /= 1 - s2; }
            prior(g) = sp / all;
        }
        mat pool(p, p, arma::fill::zeros); double nn = 0; for (uword g = 0; g < m; g++) { pool += cnt(g) * cov[g]; nn += cnt(g); } pool /= nn;
        double tot = 0;
        for (uword g = 0; g < m; g++)
        {
            mat S = quad ? cov[g] : pool; vec ev; if (!arma::eig_sym(ev, S) || ev.min() < 1e-4 * ev.max()) { r.ok = false; return r; }
            mat d(p, 1), z; for (uword a = 0; a < p; a++) d(a, 0) = x(i, a) - mean[g](a);
            if (!refSolve(S, d, z)) { r.ok = false; return r; }
            double q = 0; for (uword a = 0; a < p; a++) q += d(a, 0) * z(a, 0);
            r.score(i, g) = m / 2.0 * std::log(ev.max()) + 0.5 * q - std::log(prior(g));
            tot += std::exp(-r.score(i, g));
        }
        uword best = 0; for (uword g = 1; g < m; g++) if (r.score(i, g) < r.score(i, best)) best = g;
        r.group[i] = lev[best]; r.rate += (r.group[i] == y[i]) / (double)n; r.pmax(i) = 0; r.entropy(i) = 0;
        for (uword g = 0; g < m; g++) { double q = std::exp(-r.score(i, g)) / tot; r.probs(i, g) = q; r.pmax(i) = std::max(r.pmax(i), q); if (q > 0) r.entropy(i) -= q * std::log2(q) / std::log2((double)m); }
        for (uword g = 0; g < m; g++) if (g != best && std::fabs(r.score(i, g) - r.score(i, best)) < 1e-7) { r.ok = false; return r; }
        if (!std::isfinite(tot) || tot < 1e-200) { r.ok = false; return r; }
    }
    return r;
}
static void makeGroups(const Data& d, uword m, mat& x, uword p, std::vector<std::string>& y)
{
    static const char* names[] = { "west", "east", "north", "south" };
    x = mat(d.n, p); y.resize(d.n); uword shift = I(0, 3);
    for (uword i = 0; i < d.n; i++) { uword g = i < 2 * m ? i % m : I(0, m - 1); y[i] = names[(g + shift) % 4]; for (uword a = 0; a < p; a++) x(i, a) = N01() * (1 + 0.3 * g) + 0.9 * g * (a % 2 ? 1 : -1) + 0.3 * (a ? x(i, 0) : 0); }
}
static void da(long it)
{
    Data d = gen(24, 48); sample(d.text); uword m = I(2, 4), p = I(2, 3); mat x; std::vector<std::string> y; makeGroups(d, m, x, p, y);
    if (d.adaptive) d.bw = std::max(d.bw, 0.8 * d.n); else d.bw *= 1.3;
    bool quad = B(), lc = B(0.75), lm = B(0.75), lp = B(0.75);
    Ref r = ref(x, y, [&](uword i) { return d.w(i); }, quad, lc, lm, lp);
    if (!r.ok) return;
    bool reuse = B(0.3), omp = B(); int th = B(0.3) ? 1 : I(2, 4);
    at("gwda groups=" + std::to_string(m) + " p=" + std::to_string(p) + (quad ? " quadratic" : " linear") + " cov=" + std::to_string(lc) + " mean=" + std::to_string(lm) + " prior=" + std::to_string(lp) + (omp ? " omp" : " serial") + (reuse ? " reused" : "") + " " + d.text);
    GWDA g;
    if (reuse) { Data o = gen(24, 40); uword q = I(2, 3); mat x0; std::vector<std::string> y0; makeGroups(o, 2, x0, q, y0); g.setVariables(x0); g.setGroup(y0); g.setCoords(o.coords); BandwidthWeight b(1e4, false, BandwidthWeight::Gaussian); CRSDistance c(false); g.setSpatialWeight(SpatialWeight(&b, &c)); try { g.run(); } catch (const std::exception&) {} }
    g.setVariables(x); g.setGroup(y); g.setCoords(d.coords); g.setSpatialWeight(d.sw());
    g.setIsWqda(quad); g.setHascov(lc); g.setHasmean(lm); g.setHasprior(lp);
    g.setParallelType(omp ? ParallelType::OpenMP : ParallelType::SerialOnly); g.setOmpThreadNum(th);
    if (!expect("run", !throwsAny([&] { g.run(); }), "the analysis failed")) return;
    expectMat("score", g.res(), r.score, "discriminant scores", 1e-6);
    expect("group", g.group() == r.group, "group of the smallest score");
    expectNear("rate", g.correctRate(), r.rate, "rate of correct groups");
    expectMat("probs", g.probs(), r.probs, "probabilities", 1e-6);
    expectMat("pmax", g.pmax(), mat(r.pmax), "largest probability", 1e-6);
    expectMat("entropy", g.entropy(), mat(r.entropy), "entropy", 1e-6);
}
static void moments(long)
{
    uword n = I(4, 20), p = I(2, 4); mat x(n, p, arma::fill::zeros); for (double& v : x) v = N01(); vec w(n); for (double& v : w) v = U(0.05, 1);
    bool norm = B(); double s = 0; for (double v : w) s += v; if (norm) { w /= s; s = 1; }
    at("moments n=" + std::to_string(n) + " p=" + std::to_string(p));
    double s2 = 0; for (double v : w) s2 += v * v;
    mat C(p, p, arma::fill::zeros); vec mu(p, arma::fill::zeros), raw(p, arma::fill::zeros);
    for (uword a = 0; a < p; a++) for (uword j = 0; j < n; j++) { mu(a) += w(j) * x(j, a) / s; raw(a) += w(j) * x(j, a); }
    auto cv = [&](const vec& m, uword a, uword b) { double q = 0; for (uword j = 0; j < n; j++) q += w(j) * (x(j, a) - m(a)) * (x(j, b) - m(b)); return q; };
    for (uword a = 0; a < p; a++) for (uword b = 0; b < p; b++) C(a, b) = s / (s * s - s2) * cv(mu, a, b);
    expectMat("covwtmat", GWDA::covwtmat(x, w), C, "weighted covariance matrix");
    if (norm)
    {
        expectNear("covwt", GWDA::covwt(x.col(0), x.col(1), w), cv(raw, 0, 1) / (1 - s2), "weighted covariance");
        expectNear("corwt", GWDA::corwt(x.col(0), x.col(1), w), cv(raw, 0, 1) / std::sqrt(cv(raw, 0, 0) * cv(raw, 1, 1)), "weighted correlation");
    }
    vec q(n); for (double& v : q) v = B(0.2) ? 0.0 : U(0, 1); q(0) = 0.5; if (B(0.1)) q(1) = -0.1;
    double tot = 0, h = 0; for (double v : q) tot += v; for (double v : q) if (v > 0) h -= v / tot * std::log2(v / tot);
    for (double v : q) if (v < 0) h = 0;
    GWDA g; expectNear("entropyOf", g.shannonEntropy(q), h, "Shannon entropy");
    std::vector<std::string> y; for (uword j = 0; j < n; j++) y.push_back(std::string(1, 'a' + I(0, 3)));
    std::vector<std::string> lev; for (auto& v : y) if (std::find(lev.begin(), lev.end(), v) == lev.end()) lev.push_back(v);
    expect("levels", g.levels(y) == lev, "levels in order of appearance");
    auto tab = g.ytable(y); bool ok = tab.size() == lev.size(); for (auto& v : lev) ok = ok && (long)tab[v] == std::count(y.begin(), y.end(), v);
    expect("ytable", ok, "counts of the levels");
}
int main(int argc, char** argv) { return run(argc, argv, {{"da", da}, {"moments", moments}}); }
