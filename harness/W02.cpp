// Distances: every metric, every focus, extremes, rejection of bad use.
#include "common.h"
using namespace hx;
static mat pts(uword n, bool geo) { mat m(n, 2); for (uword i = 0; i < n; i++) { m(i, 0) = geo ? U(-180, 180) : U(-100, 100); m(i, 1) = geo ? U(-85, 85) : U(-100, 100); } return m; }
static double mk(double p, double th, double dx, double dy)
{
    double c = std::cos(th), s = std::sin(th), a = std::fabs(dx * c - dy * s), b = std::fabs(dx * s + dy * c);
    if (p == -1) return std::max(a, b);
    return p == 1 ? a + b : std::pow(std::pow(a, p) + std::pow(b, p), 1 / p);
}
template <class D> static void extremes(D& d, uword f, const std::string& name)
{
    double mx = 0, mn = DBL_MAX;
    for (uword i = 0; i < f; i++) { vec v = d.distance(i); mx = std::max(mx, v.max()); mn = std::min(mn, v.min()); }
    expectNear("extremes", d.maxDistance(), mx, name + " maxDistance", 1e-9); expectNear("extremes", d.minDistance(), mn, name + " minDistance", 1e-9);
    expect("reject", throwsAny([&] { d.distance(f); }), name + ": focus index equal to the number of focus points accepted");
    expect("reject", throwsAny([&] { d.distance(f + 7); }), name + ": focus index beyond the number of focus points accepted");
}
static void crs(long it)
{
    bool geo = it % 2; uword f = I(1, 8), n = I(1, 12); mat fp = pts(f, geo), dp = pts(n, geo);
    if (B()) { uword q = I(0, n - 1); dp.row(q) = fp.row(0); }
    if (geo && B(0.4)) { double l = B() ? 180 : U(0, 180); fp(0, 0) = l; dp(0, 0) = B() ? l : B() ? -l : l - 360; fp(0, 1) = B() ? dp(0, 1) : B() ? -dp(0, 1) : U(-85, 85); }
    if (geo && n > 1 && B(0.3)) { dp(1, 0) = dp(0, 0) + (B() ? 0 : 1e-9); dp(1, 1) = B() ? 0 : dp(0, 1) + (B() ? 1e-9 : 1e-7); }
    if (geo && B(0.4)) { uword q = I(0, n - 1); dp(q, 0) = fp(f - 1, 0) + (B() ? 0 : std::pow(10, -U(1, 5))); dp(q, 1) = fp(f - 1, 1) + (B() ? 0 : std::pow(10, -U(1, 5))); }
    if (!geo && B(0.2)) { fp(0, 0) = dp(0, 0); }
    if (!geo && B(0.3)) { double sc = std::pow(10, U(-6, 9)); fp *= sc; dp *= sc; }
    at("crs geo=" + std::to_string(geo) + " f=" + std::to_string(f) + " n=" + std::to_string(n)); sample(rep().at);
    CRSDistance d(geo);
    expect("reject", throwsAny([&] { d.distance(0); }), "unprepared distance accepted");
    mat fp2 = pts(3, geo), dp2 = pts(4, geo);
    if (B()) d.makeParameter({fp2, dp2});
    d.makeParameter({fp, dp});
    for (uword i = 0; i < f; i++) expectMat("crs", d.distance(i), geo ? refGeo(fp, i, dp) : refEuclid(fp, i, dp), "distance", 1e-9);
    extremes(d, f, "CRS");
    CRSDistance e(d); extremes(e, f, "CRS copy");
    for (uword i = 0; i < f; i++) expectMat("crs", e.distance(i), geo ? refGeo(fp, i, dp) : refEuclid(fp, i, dp), "distance of a copy", 1e-9);
    e.setGeographic(!geo);
    for (uword i = 0; i < f; i++) { vec w = geo ? refEuclid(fp, i, dp) : vec(); if (geo) expectMat("crs", e.distance(i), w, "distance after switching to planar", 1e-9); }
}
static void mink(long it)
{
    uword f = I(1, 8), n = I(1, 12); mat fp = pts(f, false), dp = pts(n, false);
    double p = it % 5 == 0 ? 1 : it % 5 == 1 ? -1 : it % 5 == 2 ? 2 : it % 5 == 3 ? 3 : U(1.1, 6), th = B() ? 0 : U(0, 3.1);
    at("minkowski p=" + num(p) + " theta=" + num(th)); sample(rep().at);
    bool viaSetters = B(); MinkwoskiDistance d(viaSetters ? 2.0 : p, viaSetters ? 0.0 : th);
    if (viaSetters) { d.setPoly(p); d.setTheta(th); }
    d.makeParameter({fp, dp});
    std::unique_ptr<Distance> c(d.clone());
    for (uword i = 0; i < f; i++)
    {
        vec w(n); for (uword j = 0; j < n; j++) w(j) = mk(p, th, dp(j, 0) - fp(i, 0), dp(j, 1) - fp(i, 1));
        expectMat("minkowski", d.distance(i), w, "distance", 1e-9); expectMat("minkowski", c->distance(i), w, "distance of a clone", 1e-9);
    }
    extremes(d, f, "Minkowski");
}
static void oned(long it)
{
    uword f = I(1, 8), n = I(1, 12); vec fp(f), dp(n); for (auto& v : fp) v = U(-5, 5); for (auto& v : dp) v = U(-5, 5);
    at("one-dimensional");
    if (B(0.3)) { double sc = std::pow(10, U(-6, 9)); fp *= sc; dp *= sc; }
    OneDimDistance d; expect("reject", throwsAny([&] { d.distance(0); }), "unprepared distance accepted");
    d.makeParameter({fp, dp}); OneDimDistance e(d);
    for (uword i = 0; i < f; i++) { vec w(n); for (uword j = 0; j < n; j++) w(j) = std::fabs(dp(j) - fp(i)); expectMat("oned", d.distance(i), w, "distance", 1e-12); expectMat("oned", e.distance(i), w, "distance of a copy", 1e-12); }
    extremes(d, f, "one-dimensional"); extremes(e, f, "one-dimensional copy");
}
static void st(long it)
{
    uword n = I(1, 12); mat s = pts(n, false); vec t(n); for (auto& v : t) v = (double)I(0, 5);
    double la = it % 4 == 0 ? 0 : it % 4 == 1 ? 1 : U(0.01, 0.998); double ang = B(0.3) ? M_PI / 2 - std::pow(10, -U(1, 6)) : U(0.1, 1.5); bool obl = B();
    at("space-time lambda=" + num(la) + " angle=" + (obl ? num(ang) : "right")); sample(rep().at);
    CRSDistance cs(false); OneDimDistance ct;
    CRSSTDistance d = obl ? CRSSTDistance(&cs, &ct, la, ang) : CRSSTDistance(&cs, &ct, la);
    d.makeParameter({s, s, t, t});
    CRSSTDistance e(d);
    for (uword i = 0; i < n; i++)
    {
        vec sd = refEuclid(s, i, s), w(n);
        for (uword j = 0; j < n; j++)
        {
            double dt = t(i) - t(j);
            if (std::fabs(la - 1) < 1e-9) w(j) = sd(j);
            else if (dt < 0) w(j) = 1e13;
            else w(j) = la * sd(j) + (1 - la) * dt + 2 * std::sqrt(la * (1 - la) * sd(j) * dt) * (obl ? std::cos(ang) : 1.0);
        }
        expectMat("spacetime", d.distance(i), w, "distance", 1e-9); expectMat("spacetime", e.distance(i), w, "distance of a copy", 1e-9);
    }
    double mx = 0, mn = DBL_MAX; for (uword i = 0; i < n; i++) { vec v = d.distance(i); mx = std::max(mx, v.max()); mn = std::min(mn, v.min()); }
    expectNear("extremes", d.maxDistance(), mx, "space-time maxDistance", 1e-9); expectNear("extremes", d.minDistance(), mn, "space-time minDistance", 1e-9);
    expectNear("extremes", e.maxDistance(), mx, "maxDistance of a space-time copy", 1e-9); expectNear("extremes", e.minDistance(), mn, "minDistance of a space-time copy", 1e-9);
    expect("reject", throwsAny([&] { d.distance(n); }), "space-time: focus index out of range accepted");
}
int main(int argc, char** argv) { return run(argc, argv, {{"crs", crs}, {"minkowski", mink}, {"oned", oned}, {"spacetime", st}}); }
