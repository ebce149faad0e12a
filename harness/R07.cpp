// Serial and multi-threaded runs of basic GWR agree on values, on failure and on which data they use.
#include "common.h"
using namespace hx;
struct Res { bool thrown = false; mat b, se; vec sh, q; double c1 = 0, c2 = 0, c3 = 0; mat p; bool pthrown = false; };
static Res go(const Data& d, const mat& loc, int th, bool hat, const std::vector<size_t>& v)
{
    Res r;
    CRSDistance dist(d.geo); dist.makeParameter({d.coords, d.coords});
    BandwidthWeight b = d.weight(); SpatialWeight s(&b, &dist);
    GWRBasic g(d.x, d.y, d.coords, s, hat, true);
    par(g, th);
    g.setBandwidthSelectionCriterion(GWRBasic::CV); g.getCriterion(&b, r.c1);
    g.setBandwidthSelectionCriterion(GWRBasic::AIC); g.getCriterion(&b, r.c2);
    g.getCriterion(v, r.c3);
    try { g.fit(); r.b = g.betas(); r.se = g.betasSE(); r.sh = g.sHat(); r.q = g.qDiag(); } catch (const std::exception&) { r.thrown = true; }
    try { r.p = g.predict(loc); } catch (const std::exception&) { r.pthrown = true; }
    return r;
}
static void agree(long it)
{
    Data d = gen(12, 40, 2, 4);
    int mode = I(0, 3);
    if (mode == 1) { d.geo = false; d.adaptive = false; d.kernel = BOX; uword q = I(0, d.n - 1); d.coords(q, 0) = 1e6; d.bw = 400; }   // one isolated point
    if (mode == 2) d.x.col(d.k - 1) = d.x.col(0);                                                                             // collinear columns
    mat loc(I(1, 20), 2); for (auto& c : loc) c = U(-50, 50);
    if (d.geo) for (uword i = 0; i < loc.n_rows; i++) { loc(i, 0) = U(100, 110); loc(i, 1) = U(-20, 40); }
    if (mode == 3) { d.geo = false; d.adaptive = false; d.kernel = BISQ; d.bw = 150; loc(loc.n_rows - 1, 0) = 1e5; }
    std::vector<size_t> v; for (size_t j = 1; j < d.k; j++) if (B(0.6)) v.push_back(j);
    bool hat = B(0.5);
    std::string t = "agree mode=" + std::to_string(mode) + " " + d.text; at(t); sample(t);
    Res s = go(d, loc, 0, hat, v);
    if (mode == 1) { expect("failure", s.thrown, "serial fit with a singular local system must fail"); expectNear("failure", s.c1, DBL_MAX, "CV of a failed fit"); expectNear("failure", s.c2, DBL_MAX, "AICc of a failed fit"); }
    if (mode == 3) expect("failure", s.pthrown, "serial prediction with a singular local system must fail");
    for (int th : {1, 2, 5, omp_get_num_procs() + 3})
    {
        at("threads=" + std::to_string(th) + " " + t);
        Res o = go(d, loc, th, hat, v);
        if (mode == 2) { count("collinear"); continue; }       // numerically on the edge: only absence of crashes
        expect("failure", s.thrown == o.thrown, "fit: serial " + std::string(s.thrown ? "throws" : "returns") + ", multi-threaded " + (o.thrown ? "throws" : "returns"));
        expect("failure", s.pthrown == o.pthrown, "predict: serial " + std::string(s.pthrown ? "throws" : "returns") + ", multi-threaded " + (o.pthrown ? "throws" : "returns"));
        if (s.b.has_nan()) continue;
        expectNear("criteria", o.c1, s.c1, "CV", 1e-6); expectNear("criteria", o.c2, s.c2, "AICc", 1e-6); expectNear("criteria", o.c3, s.c3, "AICc of variables", 1e-6);
        if (!s.thrown && !o.thrown)
        {
            expectMat("fit", o.b, s.b, "coefficients", 1e-6); expectMat("fit", o.se, s.se, "standard errors", 1e-5);
            expectMat("fit", mat(o.sh), mat(s.sh), "traces", 1e-6); expectMat("fit", mat(o.q), mat(s.q), "residual variance diagonal", 1e-6);
        }
        if (!s.pthrown && !o.pthrown) expectMat("predict", o.p, s.p, "predicted coefficients", 1e-6);
    }
}
int main(int argc, char** argv) { return run(argc, argv, {{"agree", agree}}); }
