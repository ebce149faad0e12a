// Diagnostics and standard errors of basic GWR, and the shared diagnostic formulas.
#include "common.h"
using namespace hx;
static void fitdiag(long it)
{
    Data d = gen(); at("fitdiag " + d.text); sample(d.text);
    // unit response scale, tiny and huge responses
    double sc = std::pow(10.0, (double)I(-3, 3)); d.y *= sc;
    Fit f = refFit(d.x, d.y, [&](uword i) { return d.w(i); });
    if (!f.ok) return;
    for (int th : {0, 2})
    {
        GWRBasic g(d.x, d.y, d.coords, d.sw(), B(0.7), B(0.7)); par(g, th);
        if (B(0.3)) g.setHasHatMatrix(true);
        g.fit();
        Diag e = refDiag(d.y, f.rss, f.trS, f.trStS);
        expectDiag("diagnostic", g.diagnostic(), e);
        double s2 = f.rss / (d.n - 2 * f.trS + f.trStS);
        expectMat("se", g.betasSE(), arma::sqrt(s2 * f.c2), "standard errors", 1e-6);
        expectMat("fitted", mat(GWRBase::Fitted(d.x, g.betas())), mat(f.fitted), "fitted values", 1e-6);
        expectNear("rss", GWRBase::RSS(d.x, d.y, g.betas()), f.rss, "RSS", 1e-6, 1e-9 * sc * sc);
        vec sh = {f.trS, f.trStS};
        expectNear("aicc", GWRBase::AICc(d.x, d.y, g.betas(), sh), e.AICc, "AICc", 1e-6);
    }
}
// the formulas on arbitrary coefficients and traces
static void formulas(long it)
{
    uword n = I(3, 60), k = I(1, 5);
    mat x(n, k), b(n, k); vec y(n);
    for (auto& v : x) v = N01(); for (auto& v : b) v = N01(); for (auto& v : y) v = 3 * N01() + U(-5, 5);
    vec sh = {U(0.5, n - 2.5), U(0.2, 3)};
    double rss = 0; vec fit(n);
    for (uword i = 0; i < n; i++) { double s = 0; for (uword j = 0; j < k; j++) s += x(i, j) * b(i, j); fit(i) = s; rss += (y(i) - s) * (y(i) - s); }
    at("formulas n=" + std::to_string(n) + " k=" + std::to_string(k));
    Diag e = refDiag(y, rss, sh(0), sh(1));
    expectMat("Fitted", mat(GWRBase::Fitted(x, b)), mat(fit), "fitted values");
    expectNear("RSS", GWRBase::RSS(x, y, b), rss, "RSS");
    expectNear("AICc", GWRBase::AICc(x, y, b, sh), e.AICc, "AICc");
}
int main(int argc, char** argv) { return run(argc, argv, {{"fitdiag", fitdiag}, {"formulas", formulas}}); }
