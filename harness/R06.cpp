// Basic GWR prediction at new locations.
#include "common.h"
using namespace hx;
static void predict(long it)
{
    Data d = gen(); sample(d.text);
    uword m = B(0.2) ? d.n : I(1, 50);
    mat loc(m, 2);
    for (uword i = 0; i < m; i++)
    {
        if (B(0.3)) loc.row(i) = d.coords.row(I(0, d.n - 1));
        else { loc(i, 0) = d.geo ? U(100, 110) : U(-50, 50); loc(i, 1) = d.geo ? U(-20, 40) : U(-50, 50); }
    }
    if (m == d.n && B()) loc = d.coords;
    mat e(m, d.k); vec ok(m, arma::fill::ones);
    for (uword i = 0; i < m; i++) { vec b; if (!refWls(d.x, d.y, d.wAt(loc, i), b)) return; e.row(i) = b.t(); }
    for (int th : {0, 1, 3})
    {
        at("predict m=" + std::to_string(m) + " threads=" + std::to_string(th) + " " + d.text);
        GWRBasic g(d.x, d.y, d.coords, d.sw(), true, true); par(g, th);
        bool after = B();
        if (after && B()) { vec y2 = d.y * 3 - 1; g.setDependentVariable(y2); g.fit(); g.setDependentVariable(d.y); }     // fitted to other data first
        else if (after) g.fit();
        expectMat("predict", g.predict(loc), e, "coefficients at the locations", 1e-6);
        expectMat("predict", g.betas(), e, "stored coefficients after predicting", 1e-6);
        if (B()) { mat l2 = loc.rows(0, m / 2); expectMat("again", g.predict(l2), e.rows(0, m / 2), "second prediction", 1e-6); }
        // fitting after predicting is not disturbed
        if (B(0.3)) { Fit f = refFit(d.x, d.y, [&](uword i) { return d.w(i); }); if (f.ok) expectMat("fitafter", g.fit(), f.betas, "fit after predict", 1e-6); }
    }
}
// a location without enough neighbours: the prediction must fail, wherever it stands in the list
static void singular(long it)
{
    Data d = gen(14, 24, 2, 3, B() ? BISQ : BOX); d.geo = false; d.adaptive = false; d.bw = 400;
    uword m = I(1, 12), lone = I(0, m - 1); mat loc(m, 2); for (uword i = 0; i < m; i++) { loc(i, 0) = U(-50, 50); loc(i, 1) = U(-50, 50); } loc.row(lone).fill(1e6);
    int kind = I(0, 1); if (kind) { loc.row(lone).fill(0); for (uword i = 0; i < d.n; i++) d.x(i, 1) = 0; }      // no neighbour, or a column of zeros
    at("singular " + std::string(kind ? "columns" : "location") + " lone=" + std::to_string(lone) + " of " + std::to_string(m) + " " + d.text);
    for (int th : {0, 1, 3})
    {
        GWRBasic g(d.x, d.y, d.coords, d.sw(), true, true); par(g, th);
        bool threw = false; try { g.predict(loc); } catch (const std::exception&) { threw = true; }
        expect("singular", threw, "prediction with a singular local system fails, threads=" + std::to_string(th));
    }
}
int main(int argc, char** argv) { return run(argc, argv, {{"predict", predict}, {"singular", singular}}); }
