// Basic GWR: local coefficients, hat matrix traces, standard errors at every observation.
#include "common.h"
using namespace hx;
static void core(long it)
{
    Data d = gen(); at("core " + d.text); sample(d.text);
    Fit f = refFit(d.x, d.y, [&](uword i) { return d.w(i); });
    if (!f.ok) return;
    for (int th : {0, 1, 3, B(0.1) ? omp_get_num_procs() + (int)I(1, 4) : 2})
    {
        at("core threads=" + std::to_string(th) + " " + d.text);
        bool hat = B(0.7);
        GWRBasic g(d.x, d.y, d.coords, d.sw(), hat, true);
        par(g, th);
        mat r;
        try { r = g.fit(); } catch (const std::exception& e) { fail("fit", std::string("throws ") + e.what()); continue; }
        if (!expectMat("betas", r, f.betas, "returned coefficients", 1e-6)) continue;
        expectMat("betas", g.betas(), f.betas, "stored coefficients", 1e-6);
        expectNear("trace", g.sHat()(0), f.trS, "tr(S)", 1e-6); expectNear("trace", g.sHat()(1), f.trStS, "tr(S'S)", 1e-6);
        expectMat("qdiag", mat(g.qDiag()), mat(f.q), "diag((I-S)'(I-S))", 1e-6);
        double s2 = f.rss / (d.n - 2 * f.trS + f.trStS);
        expectMat("se", g.betasSE(), arma::sqrt(s2 * f.c2), "standard errors", 1e-6);
        if (hat) expectMat("hat", g.s(), f.S, "hat matrix", 1e-6);
        expectDiag("diagnostic", g.diagnostic(), refDiag(d.y, f.rss, f.trS, f.trStS));
        vec fit = arma::sum(g.betas() % d.x, 1);
        expectMat("fitted", mat(fit), mat(f.fitted), "fitted values", 1e-6);
        // fitting again gives the same answer (no state carried over)
        mat r2 = g.fit();
        expectMat("refit", r2, f.betas, "coefficients of a second fit", 1e-6);
        expectNear("refit", g.sHat()(0), f.trS, "tr(S) of a second fit", 1e-6);
    }
}
int main(int argc, char** argv) { return run(argc, argv, {{"core", core}}); }
