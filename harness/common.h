// Executable contracts: shared reference definitions, data generators, reporting.
// The references below are written from the properties' statements (plain loops), not from the library.
#pragma once
#include "gwmodel.h"
#include <armadillo>
#include <random>
#include <functional>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <map>
#include <csignal>
#include <cmath>
#include <cfloat>
#include <unistd.h>
using namespace gwm;
using arma::mat; using arma::vec; using arma::rowvec; using arma::uword; using arma::uvec; using arma::cube;

namespace hx {
struct Opt { unsigned long seed = 1; long iters = 20; std::string tier = "quick"; };
inline Opt& opt() { static Opt o; return o; }
inline std::mt19937_64& rng() { static std::mt19937_64 r(1); return r; }
inline double U(double a = 0, double b = 1) { return std::uniform_real_distribution<double>(a, b)(rng()); }
inline long I(long a, long b) { return std::uniform_int_distribution<long>(a, b)(rng()); }
inline double N01() { return std::normal_distribution<double>(0, 1)(rng()); }
inline bool B(double p = 0.5) { return U() < p; }

struct Report {
    std::map<std::string, long> cases; long fails = 0; std::map<std::string, long> failgroup; long samples = 0;
    std::string at;
};
inline Report& rep() { static Report r; return r; }
inline void at(const std::string& what) { rep().at = what; std::cout << "AT " << what << "\n"; }
inline void fail(const std::string& group, const std::string& what)
{
    rep().fails++;
    if (rep().failgroup[group]++ < 3) std::cout << "FAIL " << group << ": " << what << " | case " << rep().at << std::endl;
}
inline void count(const std::string& group) { rep().cases[group]++; }
inline void sample(const std::string& s) { if (rep().samples++ < 4) std::cout << "SAMPLE " << s << std::endl; }
inline std::string num(double v) { std::ostringstream o; o << std::setprecision(10) << v; return o.str(); }
inline bool near(double a, double b, double tol = 1e-7, double scale = 1.0)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= tol * (scale + std::fabs(a) + std::fabs(b));
}
inline bool expect(const std::string& g, bool ok, const std::string& what) { count(g); if (!ok) fail(g, what); return ok; }
inline bool expectNear(const std::string& g, double actual, double want, const std::string& what, double tol = 1e-7, double scale = 1.0)
{
    count(g);
    if (!near(actual, want, tol, scale)) { fail(g, what + ": got " + num(actual) + ", specified " + num(want)); return false; }
    return true;
}
// element-wise comparison, relative to the largest entry of the specification
inline bool expectMat(const std::string& g, const mat& actual, const mat& want, const std::string& what, double tol = 1e-7)
{
    count(g);
    if (actual.n_rows != want.n_rows || actual.n_cols != want.n_cols)
    {
        fail(g, what + ": size " + std::to_string(actual.n_rows) + "x" + std::to_string(actual.n_cols) + ", specified " + std::to_string(want.n_rows) + "x" + std::to_string(want.n_cols));
        return false;
    }
    double sc = want.n_elem ? arma::abs(want).max() : 0; if (!std::isfinite(sc)) sc = 1; sc = std::max(sc, 1e-3);
    for (uword j = 0; j < want.n_cols; j++) for (uword i = 0; i < want.n_rows; i++)
        if (!near(actual(i, j), want(i, j), tol, sc))
        {
            fail(g, what + "(" + std::to_string(i) + "," + std::to_string(j) + "): got " + num(actual(i, j)) + ", specified " + num(want(i, j)));
            return false;
        }
    return true;
}
template <class F> bool throwsAny(F f) { try { f(); } catch (const std::exception&) { return true; } catch (...) { return true; } return false; }

// -------------------------------------------------------------------------------- references
enum K { GAU, EXPO, BISQ, TRI, BOX };
inline double kern(int k, double d, double b)
{
    double q = d / b;
    switch (k) {
    case GAU: return std::exp(-0.5 * q * q);
    case EXPO: return std::exp(-q);
    case BISQ: return d < b ? (1 - q * q) * (1 - q * q) : 0.0;
    case TRI: return d < b ? std::pow(1 - q * q * q, 3) : 0.0;
    default: return d < b ? 1.0 : 0.0;
    }
}
inline double effBandwidth(const vec& d, double bw, bool adaptive)
{
    if (!adaptive) return bw;
    std::vector<double> s(d.begin(), d.end()); std::sort(s.begin(), s.end());
    double n = (double)s.size();
    if (bw < n) { long b0 = (long)std::floor(bw); double f = bw - b0; return s[b0 - 1] + (s[b0] - s[b0 - 1]) * f; }
    return bw / n * s.back();
}
inline vec refWeight(const vec& d, double bw, bool adaptive, int k)
{
    double b = effBandwidth(d, bw, adaptive);
    vec w(d.n_elem);
    for (uword i = 0; i < d.n_elem; i++) w(i) = kern(k, d(i), b);
    return w;
}
inline vec refEuclid(const mat& fp, uword i, const mat& dp)
{
    vec d(dp.n_rows);
    for (uword j = 0; j < dp.n_rows; j++) d(j) = std::sqrt(std::pow(dp(j, 0) - fp(i, 0), 2) + std::pow(dp(j, 1) - fp(i, 1), 2));
    return d;
}
// Andoyer-Lambert great-circle distance on WGS84 in km
inline double refGc(double lon1, double lat1, double lon2, double lat2)
{
    if (std::fabs(lat1 - lat2) < 1e-8 && (std::fabs(lon1 - lon2) < 1e-8 || std::fabs(std::fabs(lon1) + std::fabs(lon2) - 360) < 1e-8)) return 0;
    double r = M_PI / 180, F = (lat1 + lat2) / 2 * r, G = (lat1 - lat2) / 2 * r, L = (lon1 - lon2) / 2 * r;
    double sG = std::pow(std::sin(G), 2), cG = std::pow(std::cos(G), 2), sF = std::pow(std::sin(F), 2), cF = std::pow(std::cos(F), 2), sL = std::pow(std::sin(L), 2), cL = std::pow(std::cos(L), 2);
    double S = sG * cL + cF * sL, C = cG * cL + sF * sL, w = std::atan(std::sqrt(S / C)), R = std::sqrt(S * C) / w, D = 2 * w * 6378.137, f = 1 / 298.257223563;
    return D * (1 + f * (3 * R - 1) / (2 * C) * sF * cG - f * (3 * R + 1) / (2 * S) * cF * sG);
}
inline vec refGeo(const mat& fp, uword i, const mat& dp)
{
    vec d(dp.n_rows);
    for (uword j = 0; j < dp.n_rows; j++) d(j) = refGc(dp(j, 0), dp(j, 1), fp(i, 0), fp(i, 1));
    return d;
}
// space-time distance from observation i (angle of the two axes: ca = its cosine, 1 for the plain combination)
inline vec refST(const mat& c, const vec& t, uword i, double la, double ca = 1.0)
{
    vec sd = refEuclid(c, i, c), w(c.n_rows);
    for (uword j = 0; j < c.n_rows; j++)
    {
        double dt = t(i) - t(j);
        if (std::fabs(la - 1) < 1e-9) w(j) = sd(j);
        else if (dt < 0) w(j) = 1e13;
        else w(j) = la * sd(j) + (1 - la) * dt + 2 * std::sqrt(la * (1 - la) * sd(j) * dt) * ca;
    }
    return w;
}
// weighted least squares by normal equations, plain loops + elimination with pivoting; false when singular
inline bool refSolve(mat A, mat Bm, mat& X)
{
    uword n = A.n_rows;
    for (uword c = 0; c < n; c++)
    {
        uword p = c;
        for (uword r = c; r < n; r++) if (std::fabs(A(r, c)) > std::fabs(A(p, c))) p = r;
        if (std::fabs(A(p, c)) < 1e-11) return false;
        A.swap_rows(c, p); Bm.swap_rows(c, p);
        for (uword r = 0; r < n; r++) if (r != c)
        {
            double m = A(r, c) / A(c, c);
            if (m == 0) continue;
            for (uword q = c; q < n; q++) A(r, q) -= m * A(c, q);
            for (uword q = 0; q < Bm.n_cols; q++) Bm(r, q) -= m * Bm(c, q);
        }
    }
    X = Bm;
    for (uword r = 0; r < n; r++) for (uword q = 0; q < Bm.n_cols; q++) X(r, q) /= A(r, r);
    return true;
}
inline mat gram(const mat& x, const vec& w, const mat& z)
{
    mat A(x.n_cols, z.n_cols, arma::fill::zeros);
    for (uword a = 0; a < x.n_cols; a++) for (uword b = 0; b < z.n_cols; b++) for (uword j = 0; j < x.n_rows; j++) A(a, b) += x(j, a) * w(j) * z(j, b);
    return A;
}
inline bool refWls(const mat& x, const vec& y, const vec& w, vec& b) { mat r; if (!refSolve(gram(x, w, x), gram(x, w, mat(y)), r)) return false; b = r.col(0); return true; }
inline bool refC(const mat& x, const vec& w, mat& c)
{
    mat xtw(x.n_cols, x.n_rows);
    for (uword a = 0; a < x.n_cols; a++) for (uword j = 0; j < x.n_rows; j++) xtw(a, j) = x(j, a) * w(j);
    return refSolve(gram(x, w, x), xtw, c);
}

// -------------------------------------------------------------------------------- data
struct Data
{
    mat coords, x; vec y; int kernel; bool adaptive, geo; double bw; uword n, k;
    std::string text;
    vec dist(const mat& fp, uword i) const { return geo ? refGeo(fp, i, coords) : refEuclid(fp, i, coords); }
    vec w(uword i, double b) const { return refWeight(dist(coords, i), b, adaptive, kernel); }
    vec w(uword i) const { return w(i, bw); }
    vec wAt(const mat& fp, uword i) const { return refWeight(dist(fp, i), bw, adaptive, kernel); }
    CRSDistance distance() const { return CRSDistance(geo); }
    BandwidthWeight weight() const { return BandwidthWeight(bw, adaptive, (BandwidthWeight::KernelFunctionType)kernel); }
    BandwidthWeight weight(double b) const { return BandwidthWeight(b, adaptive, (BandwidthWeight::KernelFunctionType)kernel); }
    SpatialWeight sw() const { BandwidthWeight b = weight(); CRSDistance d = distance(); return SpatialWeight(&b, &d); }
};
inline Data gen(uword nlo = 14, uword nhi = 36, uword klo = 2, uword khi = 4, int kernelForce = -1)
{
    Data d;
    d.n = I(nlo, nhi); d.k = I(klo, khi);
    d.geo = B(0.25); d.adaptive = B(0.5); d.kernel = kernelForce >= 0 ? kernelForce : I(0, 4);
    d.coords = mat(d.n, 2);
    for (uword i = 0; i < d.n; i++) { d.coords(i, 0) = d.geo ? U(100, 110) : U(-50, 50); d.coords(i, 1) = d.geo ? U(-20, 40) : U(-50, 50); }
    d.x = mat(d.n, d.k); d.x.col(0).ones();
    for (uword j = 1; j < d.k; j++) for (uword i = 0; i < d.n; i++) d.x(i, j) = 2 * N01() + U(-1, 1);
    d.y = vec(d.n);
    for (uword i = 0; i < d.n; i++)
    {
        double s = U(1, 2) + 0.02 * d.coords(i, 0);
        for (uword j = 1; j < d.k; j++) s += d.x(i, j) * (1.0 + 0.03 * d.coords(i, 1) * (j % 2 ? 1 : -1));
        d.y(i) = s + 0.5 * N01();
    }
    // a bandwidth that leaves every local system well conditioned
    double md = 0; for (uword i = 0; i < d.n; i++) { vec q = d.dist(d.coords, i); md = std::max(md, q.max()); }
    if (d.adaptive) d.bw = B(0.15) ? d.n * U(1.0, 1.6) : (B(0.5) ? (double)I(std::min<long>(d.n - 1, 4 * d.k + 3), d.n - 1) : U(std::min<double>(d.n - 1.5, 4.0 * d.k + 3), d.n - 1.01));
    else d.bw = md * ((d.kernel == GAU || d.kernel == EXPO) ? U(0.25, 1.2) : U(0.75, 1.5));
    std::ostringstream o;
    o << "n=" << d.n << " k=" << d.k << " kernel=" << d.kernel << " adaptive=" << d.adaptive << " geographic=" << d.geo << " bw=" << d.bw;
    d.text = o.str();
    return d;
}
// everything the local model specifies at the observations
struct Fit { bool ok = true; mat betas, c2, S; double trS = 0, trStS = 0; vec q, fitted; double rss = 0; };
inline Fit refFit(const mat& x, const vec& y, const std::function<vec(uword)>& w)
{
    Fit f; uword n = x.n_rows, k = x.n_cols;
    f.betas = mat(n, k); f.c2 = mat(n, k, arma::fill::zeros); f.S = mat(n, n); f.q = vec(n, arma::fill::zeros); f.fitted = vec(n);
    for (uword i = 0; i < n; i++)
    {
        mat c; vec wi = w(i);
        if (!refC(x, wi, c)) { f.ok = false; return f; }
        for (uword a = 0; a < k; a++) { double b = 0, s = 0; for (uword j = 0; j < n; j++) { b += c(a, j) * y(j); s += c(a, j) * c(a, j); } f.betas(i, a) = b; f.c2(i, a) = s; }
        for (uword j = 0; j < n; j++) { double s = 0; for (uword a = 0; a < k; a++) s += x(i, a) * c(a, j); f.S(i, j) = s; }
        double fv = 0; for (uword a = 0; a < k; a++) fv += x(i, a) * f.betas(i, a);
        f.fitted(i) = fv; f.rss += (y(i) - fv) * (y(i) - fv);
    }
    for (uword i = 0; i < n; i++) { f.trS += f.S(i, i); for (uword j = 0; j < n; j++) { f.trStS += f.S(i, j) * f.S(i, j); f.q(j) += std::pow((i == j) - f.S(i, j), 2); } }
    return f;
}
struct Diag { double RSS, AIC, AICc, ENP, EDF, R2, R2a; };
inline Diag refDiag(const vec& y, double rss, double trS, double trStS)
{
    double n = y.n_elem, m = 0, yss = 0;
    for (double v : y) m += v; m /= n;
    for (double v : y) yss += (v - m) * (v - m);
    Diag d; d.RSS = rss; double ll = n * std::log(rss / n) + n * std::log(2 * M_PI);
    d.AIC = ll + n + trS; d.AICc = ll + n * (n + trS) / (n - 2 - trS); d.ENP = 2 * trS - trStS; d.EDF = n - 2 * trS + trStS;
    d.R2 = 1 - rss / yss; d.R2a = 1 - (1 - d.R2) * (n - 1) / (d.EDF - 1);
    return d;
}
inline void expectDiag(const std::string& g, const RegressionDiagnostic& a, const Diag& d, double tol = 1e-6)
{
    expectNear(g, a.RSS, d.RSS, "RSS", tol, 1e-3); expectNear(g, a.AIC, d.AIC, "AIC", tol); expectNear(g, a.AICc, d.AICc, "AICc", tol);
    expectNear(g, a.ENP, d.ENP, "ENP", tol); expectNear(g, a.EDF, d.EDF, "EDF", tol); expectNear(g, a.RSquare, d.R2, "RSquare", tol); expectNear(g, a.RSquareAdjust, d.R2a, "RSquareAdjust", tol);
}
template <class A> void par(A& a, int threads) { if (threads > 0) { a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(threads); } else a.setParallelType(ParallelType::SerialOnly); }

// a telegram that requests cancellation at the n-th poll (never when n < 0)
class StopAt : public Logger
{
public:
    long limit, polls = 0; std::vector<std::string> errors;
    explicit StopAt(long n) : limit(n) {}
    bool stop() override { bool r = false;
#pragma omp critical(hxstop)
        { polls++; r = limit >= 0 && polls > limit; }
        return r; }
};
typedef void (*Test)(long iter);
inline int run(int argc, char** argv, std::initializer_list<std::pair<const char*, Test>> tests)
{
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i];
        if (a == "--seed") opt().seed = std::stoul(argv[i + 1]);
        if (a == "--iters") opt().iters = std::stol(argv[i + 1]);
        if (a == "--tier") opt().tier = argv[i + 1];
    }
    arma::arma_rng::set_seed(opt().seed);
    for (auto& t : tests) for (long it = 0; it < opt().iters; it++)
    {
        rng().seed(opt().seed * 1000003ull + it * 7919ull + std::hash<std::string>()(t.first));
        at(std::string(t.first) + " iteration " + std::to_string(it));
        try { t.second(it); }
        catch (const std::exception& e) { fail(t.first, std::string("unexpected exception: ") + e.what()); }
        catch (...) { fail(t.first, "unexpected exception"); }
    }
    for (auto& c : rep().cases) std::cout << "CASES " << c.first << " " << c.second << std::endl;
    return rep().fails ? 1 : 0;
}
}
