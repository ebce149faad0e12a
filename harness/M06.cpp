// GTWR: local coefficients, standard errors, hat matrix, diagnostics and criteria under the space-time weights.
#include "common.h"
#include "gwmodelpp/GTWR.h"
using namespace hx;
struct ST { Data d; vec t; double la, ang; bool obl; std::string text;
    vec dist(uword i) const { return refST(d.coords, t, i, la, obl ? std::cos(ang) : 1.0); }
    vec w(uword i, double bw) const { return refWeight(dist(i), bw, d.adaptive, d.kernel); }
    vec w(uword i) const { return w(i, d.bw); }
    CRSSTDistance dst() const { static CRSDistance cs(false); static OneDimDistance ct; return obl ? CRSSTDistance(&cs, &ct, la, ang) : CRSSTDistance(&cs, &ct, la); } };
static ST genST()
{
    ST s; s.d = gen(16, 34, 2, 4); Data& d = s.d;
    if (d.geo) { d.geo = false; for (auto& c : d.coords) c = U(-50, 50); }
    s.la = B(0.2) ? 1.0 : B(0.1) ? 0.0 : U(0.05, 0.95); s.obl = B(0.4); s.ang = U(0.2, 1.4);
    s.t = vec(d.n); for (uword i = 0; i < d.n; i++) s.t(i) = B(0.6) ? 0.0 : (double)I(1, 6);
    d.kernel = B(0.7) ? (B() ? GAU : EXPO) : d.kernel;
    d.adaptive = B(0.3);
    double md = 0; for (uword i = 0; i < d.n; i++) { vec q = s.dist(i); for (double v : q) if (v < 1e12) md = std::max(md, v); }
    d.bw = d.adaptive ? (double)I(std::min<long>(4 * d.k + 2, d.n), d.n) : md * U(0.4, 1.4);
    std::ostringstream o; o << d.text << " now adaptive=" << d.adaptive << " kernel=" << d.kernel << " bw=" << d.bw << " lambda=" << s.la << " angle=" << (s.obl ? s.ang : 0); s.text = o.str();
    return s;
}
static void fit(long it)
{
    ST s = genST(); Data& d = s.d; at("fit " + s.text); sample(s.text);
    Fit f = refFit(d.x, d.y, [&](uword i) { return s.w(i); });
    if (!f.ok || !std::isfinite(f.rss)) return;
    for (int th : {0, 1, 3})
    {
        bool hat = B(0.6); at("fit threads=" + std::to_string(th) + " hat=" + std::to_string(hat) + " " + s.text);
        BandwidthWeight b = d.weight(); CRSSTDistance ds = s.dst(); SpatialWeight sw(&b, &ds);
        GTWR g(d.x, d.y, d.coords, sw, hat, true); g.setCoords(d.coords, s.t); par(g, th);
        mat r; try { r = g.fit(); } catch (const std::exception& e) { fail("fit", std::string("throws ") + e.what()); continue; }
        for (int again = 0; again < 2; again++)
        {
            if (!expectMat("betas", r, f.betas, "returned coefficients", 1e-6)) break;
            expectMat("betas", g.betas(), f.betas, "stored coefficients", 1e-6);
            expectNear("trace", g.sHat()(0), f.trS, "tr(S)", 1e-6); expectNear("trace", g.sHat()(1), f.trStS, "tr(S'S)", 1e-6);
            expectMat("qdiag", mat(g.qDiag()), mat(f.q), "diag((I-S)'(I-S))", 1e-6);
            double s2 = f.rss / (d.n - 2 * f.trS + f.trStS);
            if (s2 > 0) expectMat("se", g.betasSE(), arma::sqrt(s2 * f.c2), "standard errors", 1e-5);
            if (hat) expectMat("hat", g.s(), f.S, "hat matrix", 1e-6);
            expectDiag("diagnostic", g.diagnostic(), refDiag(d.y, f.rss, f.trS, f.trStS));
            if (!again) r = g.fit();
        }
        mat p = g.predict(d.coords); expectMat("predict", p, f.betas, "prediction at the observations", 1e-6);
    }
}
static void criterion(long it)
{
    ST s = genST(); Data& d = s.d; at("criterion " + s.text);
    for (int th : {0, 2})
    {
        CRSSTDistance ds = s.dst(); ds.makeParameter({d.coords, d.coords, s.t, s.t});
        BandwidthWeight b = d.weight(); SpatialWeight sw(&b, &ds);
        GTWR g(d.x, d.y, d.coords, sw, true, true); g.setCoords(d.coords, s.t); par(g, th);
        double bw = d.bw * U(0.9, 1.3); BandwidthWeight q = d.weight(bw);
        at("criterion threads=" + std::to_string(th) + " trial=" + num(bw) + " " + s.text);
        bool ok = true; double cv = 0, c;
        for (uword i = 0; i < d.n && ok; i++) { vec w = s.w(i, bw), be; w(i) = 0; if (!refWls(d.x, d.y, w, be)) ok = false; else { double fv = 0; for (uword a = 0; a < d.k; a++) fv += d.x(i, a) * be(a); cv += (d.y(i) - fv) * (d.y(i) - fv); } }
        if (ok) { g.setBandwidthSelectionCriterion(GTWR::CV); g.getCriterion(&q, c); expectNear("CV", c, cv, "CV score", 1e-5, 1e-5); }
        Fit f = refFit(d.x, d.y, [&](uword i) { return s.w(i, bw); });
        if (f.ok) { g.setBandwidthSelectionCriterion(GTWR::AIC); g.getCriterion(&q, c); expectNear("AICc", c, refDiag(d.y, f.rss, f.trS, f.trStS).AICc, "AICc", 1e-6); }
    }
}
static void singular(long it)
{
    ST s = genST(); Data& d = s.d; d.adaptive = false; d.kernel = B() ? BISQ : BOX; s.la = 0.5; s.obl = false; s.t.fill(1); d.bw = 400;
    uword lone = I(0, d.n - 1); d.coords(lone, 0) = 1e6;
    at("singular " + s.text);
    for (int th : {0, 1, 3})
    {
        CRSSTDistance ds = s.dst(); ds.makeParameter({d.coords, d.coords, s.t, s.t});
        BandwidthWeight b = d.weight(); SpatialWeight sw(&b, &ds);
        GTWR g(d.x, d.y, d.coords, sw, true, true); g.setCoords(d.coords, s.t); par(g, th);
        double c = 0; g.setBandwidthSelectionCriterion(GTWR::CV); g.getCriterion(&b, c); expectNear("singular", c, DBL_MAX, "CV with a singular local system");
        c = 0; g.setBandwidthSelectionCriterion(GTWR::AIC); g.getCriterion(&b, c); expectNear("singular", c, DBL_MAX, "AICc with a singular local system");
        expect("singular", throwsAny([&] { g.fit(); }), "fit with a singular local system must throw, threads=" + std::to_string(th));
    }
}
// the space-time ratio found automatically is the one the reported model uses
static void lambda(long it)
{
    if (it % 4) return;
    ST s = genST(); Data& d = s.d; d.adaptive = false; d.kernel = GAU; d.bw = 200; s.la = U(0.1, 0.9); at("lambda " + s.text);
    BandwidthWeight b = d.weight(); CRSSTDistance ds = s.dst(); SpatialWeight sw(&b, &ds);
    GTWR g(d.x, d.y, d.coords, sw, true, true); g.setCoords(d.coords, s.t); g.setIsAutoselectLambda(true);
    mat r; try { r = g.fit(); } catch (const std::exception& e) { count("lambda singular"); return; }
    Fit f = refFit(d.x, d.y, [&](uword i) { return g.spatialWeight().weightVector(i); });
    if (f.ok) { expectMat("lambda", r, f.betas, "coefficients under the selected space-time ratio", 1e-6); expectDiag("lambda", g.diagnostic(), refDiag(d.y, f.rss, f.trS, f.trStS)); }
}
static void predict(long it)
{
    if (it) return;
    ST s = genST(); Data& d = s.d; d.adaptive = false; d.kernel = GAU; d.bw = 60; s.la = 1.0; s.obl = false; at("predict " + s.text);
    BandwidthWeight b = d.weight(); CRSSTDistance ds = s.dst(); SpatialWeight sw(&b, &ds);
    GTWR g(d.x, d.y, d.coords, sw, true, true); g.setCoords(d.coords, s.t);
    mat loc(3, 2); for (auto& c : loc) c = U(-50, 50);
    mat p = g.predict(loc), w(3, d.k);
    for (uword i = 0; i < 3; i++) { vec be; if (!refWls(d.x, d.y, refWeight(refEuclid(loc, i, d.coords), d.bw, false, GAU), be)) return; w.row(i) = be.t(); }
    expectMat("predict", p, w, "prediction at locations other than the observations", 1e-6);
}
int main(int argc, char** argv) { return run(argc, argv, {{"fit", fit}, {"criterion", criterion}, {"singular", singular}, {"lambda", lambda}, {"predict", predict}}); }
