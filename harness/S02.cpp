// Geographically weighted principal components: eigen-decomposition of the locally weighted covariance.
#include "common.h"
#include "gwmodelpp/GWPCA.h"
using namespace hx;
static void pca(long it)
{
    Data d = gen(10, 30); sample(d.text);
    uword p = I(1, 5); mat x(d.n, p);
    for (uword j = 0; j < p; j++) for (uword i = 0; i < d.n; i++) x(i, j) = (1.0 + 1.5 * j) * N01() + (j ? 0.5 * x(i, 0) : 0) + U(0, 5);
    if (d.adaptive) d.bw = std::max(d.bw, std::min<double>(d.n, p + 6.0)); else if (d.kernel > 1) d.bw *= 1.3;
    // a remote observation with a tiny weight and a large value still counts
    if (it % 6 == 5 && !d.geo) { d.adaptive = false; d.kernel = GAU; d.bw = 15; uword far = I(0, d.n - 1); d.coords(far, 0) = U(60, 75) * (B() ? 1 : -1); d.coords(far, 1) = U(-20, 20); x(far, I(0, p - 1)) = (B() ? 1 : -1) * U(0.5, 2) * 1e5; d.text += " remote=" + std::to_string(far); }
    int keep = I(1, p);
    mat sd(d.n, p), pv(d.n, keep); std::vector<mat> load; std::vector<vec> gap;
    for (uword i = 0; i < d.n; i++)
    {
        vec w = d.w(i); double s = 0; for (double v : w) s += v;
        vec m(p, arma::fill::zeros); for (uword j = 0; j < p; j++) for (uword t = 0; t < d.n; t++) m(j) += w(t) * x(t, j) / s;
        mat C(p, p, arma::fill::zeros);
        for (uword a = 0; a < p; a++) for (uword b = 0; b < p; b++) for (uword t = 0; t < d.n; t++) C(a, b) += w(t) * (x(t, a) - m(a)) * (x(t, b) - m(b)) / s;
        vec ev; mat vv; if (!arma::eig_sym(ev, vv, C)) return;
        if (ev.min() < 1e-6) return;
        ev = arma::reverse(ev); vv = arma::fliplr(vv);
        double tot = 0; for (double v : ev) tot += v;
        for (uword j = 0; j < p; j++) sd(i, j) = std::sqrt(ev(j));
        for (int j = 0; j < keep; j++) pv(i, j) = 100 * ev(j) / tot;
        vec g(p, arma::fill::value(1)); for (uword j = 0; j < p; j++) { if (j) g(j) = std::min(g(j), (ev(j - 1) - ev(j)) / ev(j - 1)); if (j + 1 < p) g(j) = std::min(g(j), (ev(j) - ev(j + 1)) / ev(j)); }
        load.push_back(vv); gap.push_back(g);
    }
    at("pca p=" + std::to_string(p) + " keep=" + std::to_string(keep) + " " + d.text);
    GWPCA g(x, d.coords, d.sw());
    if (B(0.3)) { Data o = gen(8, 20); mat x0(o.n, 2, arma::fill::randn); g.setVariables(x0); g.setCoords(o.coords); g.setSpatialWeight(o.sw()); g.setKeepComponents(1); g.run(); g.setVariables(x); g.setCoords(d.coords); g.setSpatialWeight(d.sw()); }
    g.setKeepComponents(keep); g.run();
    expectMat("sdev", g.sdev(), sd, "local standard deviations", 1e-6);
    expectMat("pv", g.localPV(), pv, "local percentages of variance", 1e-6);
    const cube& L = g.loadings();
    if (!expect("loadings", L.n_rows == d.n && L.n_cols == p && L.n_slices == (uword)keep, "size of the loadings")) return;
    for (uword i = 0; i < d.n; i++) for (int q = 0; q < keep; q++)
    {
        if (gap[i](q) < 1e-3) continue;
        double dot = 0, nn = 0; for (uword j = 0; j < p; j++) { dot += L(i, j, q) * load[i](j, q); nn += L(i, j, q) * L(i, j, q); }
        if (!expectNear("loadings", std::fabs(dot), 1, "loading vector of component " + std::to_string(q) + " at " + std::to_string(i), 1e-5) || !expectNear("loadings", nn, 1, "length of the loading vector", 1e-6)) return;
    }
}
int main(int argc, char** argv) { return run(argc, argv, {{"pca", pca}}); }
