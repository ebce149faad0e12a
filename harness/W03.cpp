// Spatial weights are values: copies, assignments, moves and setters keep their own kernel, bandwidth and prepared points.
#include "common.h"
using namespace hx;
struct S { int kernel; bool ad, geo; double bw; mat fp, dp; int metric; double p; vec t; };
static S make()
{
    S s; s.kernel = I(0, 4); s.ad = B(); s.metric = I(0, 3); s.geo = s.metric == 1; uword n = I(3, 12), f = s.metric == 3 ? n : I(1, 6);
    s.fp = mat(f, 2); s.dp = mat(n, 2); s.p = B() ? 1 : U(1.5, 4); s.t = vec(n);
    for (auto& v : s.fp) v = U(-40, 40); for (auto& v : s.dp) v = U(-40, 40); for (auto& v : s.t) v = (double)I(0, 4);
    s.bw = s.ad ? U(2, n * 1.3) : (s.geo ? U(500, 9000) : U(5, 90));
    return s;
}
static std::unique_ptr<Distance> dist(const S& s)
{
    if (s.metric == 2) return std::unique_ptr<Distance>(new MinkwoskiDistance(s.p, 0.3));
    if (s.metric == 3) { CRSDistance c(false); OneDimDistance o; return std::unique_ptr<Distance>(new CRSSTDistance(&c, &o, 0.4)); }
    return std::unique_ptr<Distance>(new CRSDistance(s.geo));
}
static void prep(const S& s, Distance* d) { if (s.metric == 3) d->makeParameter({s.dp, s.dp, s.t, s.t}); else d->makeParameter({s.fp, s.dp}); }
static mat want(const S& s)
{
    auto d = dist(s); prep(s, d.get()); uword f = s.metric == 3 ? s.dp.n_rows : s.fp.n_rows; mat w(s.dp.n_rows, f);
    for (uword i = 0; i < f; i++) w.col(i) = refWeight(d->distance(i), s.bw, s.ad, s.kernel);
    return w;
}
static void check(const std::string& g, SpatialWeight& sw, const mat& w, const std::string& what)
{
    mat got(w.n_rows, w.n_cols);
    for (uword i = 0; i < w.n_cols; i++) { vec v = sw.weightVector(i); if (v.n_elem != w.n_rows) { expect(g, false, what + ": weight vector has the wrong length"); return; } got.col(i) = v; }
    expectMat(g, got, w, what, 1e-9);
}
static void values(long it)
{
    S a = make(), b = make(); mat wa = want(a), wb = want(b);
    at("values kernel=" + std::to_string(a.kernel) + " adaptive=" + std::to_string(a.ad) + " metric=" + std::to_string(a.metric) + " other metric=" + std::to_string(b.metric)); sample(rep().at);
    auto mkw = [](const S& s) { return BandwidthWeight(s.bw, s.ad, (BandwidthWeight::KernelFunctionType)s.kernel); };
    BandwidthWeight ka = mkw(a), kb = mkw(b); auto da = dist(a), db = dist(b);
    SpatialWeight A(&ka, da.get()), Bw(kb, *db);
    prep(a, A.distance()); prep(b, Bw.distance());
    check("construct", A, wa, "constructed from pointers"); check("construct", Bw, wb, "constructed from references");
    ka.setBandwidth(1e-9); da.reset();
    check("independent", A, wa, "after the weight and distance it was built from changed");
    SpatialWeight C(A); check("copy", C, wa, "copy");
    C.weight<BandwidthWeight>()->setBandwidth(1e-7); prep(b, (C.setDistance(db.get()), C.distance()));
    check("independent", A, wa, "after its copy was changed");
    SpatialWeight D(Bw); D = A; check("assign", D, wa, "assigned"); D = A; check("assign", D, wa, "assigned twice");
    SpatialWeight& Dr = D; D = Dr; check("assign", D, wa, "assigned to itself");
    { SpatialWeight E(A); Bw = E; } check("assign", Bw, wa, "assigned from an object that no longer exists");
    SpatialWeight M(std::move(D)); check("move", M, wa, "moved to");
    SpatialWeight N; N = std::move(M); check("move", N, wa, "move assigned");
    SpatialWeight P(A); ka = mkw(b);
    P.setWeight(ka); P.setDistance(*db); prep(b, P.distance()); check("set", P, wb, "after setting both parts");
    P.setWeight(P.weight()); P.setDistance(P.distance()); check("set", P, wb, "after setting its own parts");
    P.setWeight(*P.weight()); P.setDistance(*P.distance()); check("set", P, wb, "after setting its own parts by reference");
    check("independent", A, wa, "original after all of it");
    SpatialWeight e1, e2(e1); e1 = e2; expect("empty", !e2.isValid(), "a copy of an unset weight is unset");
    expect("valid", A.isValid() && P.isValid(), "a configured weight is valid");
}
int main(int argc, char** argv) { return run(argc, argv, {{"values", values}}); }
