// Kernel weights: value at every distance, fixed and adaptive bandwidths.
#include "common.h"
using namespace hx;
static void weights(long it)
{
    uword n = I(1, 40); vec d(n);
    int mode = I(0, 3);
    for (uword i = 0; i < n; i++) d(i) = mode == 0 ? U(0, 10) : mode == 1 ? (double)I(0, 6) : mode == 2 ? U(0, 1e-6) : U(0, 1e6);
    if (B(0.4)) d(I(0, n - 1)) = 0;
    for (int k = 0; k < 5; k++) for (int a = 0; a < 2; a++)
    {
        double bw = a ? (B(0.3) ? (double)I(1, n + 3) : U(1, 1.7 * n + 1)) : (B(0.4) ? d(I(0, n - 1)) + (B() ? 0 : 1e-3) : d.max() * U(0.05, 2));
        if (bw <= 0) bw = 1;
        if (effBandwidth(d, bw, a) <= 0) continue;
        std::ostringstream o; o << "kernel=" << k << " adaptive=" << a << " bw=" << std::setprecision(17) << bw << " n=" << n << " dist=" << d.t();
        std::string s = o.str(); for (char& c : s) if (c == '\n') c = ' ';
        at("weights " + s); if (it == 0) sample(s);
        vec want = refWeight(d, bw, a, k);
        BandwidthWeight w(bw, a, (BandwidthWeight::KernelFunctionType)k);
        vec got = w.weight(d);
        expectMat("value", got, want, "weight", 1e-9);
        BandwidthWeight v; v.setBandwidth(bw); v.setAdaptive(a); v.setKernel((BandwidthWeight::KernelFunctionType)k);
        std::unique_ptr<Weight> c(v.clone());
        expectMat("clone", c->weight(d), want, "weight of a configured and cloned kernel", 1e-9);
        // laws
        bool law = got.min() >= 0 && got.max() <= 1 + 1e-12;
        for (uword i = 0; i < n; i++) { if (d(i) == 0 && std::fabs(got(i) - 1) > 1e-12) law = false;
            for (uword j = 0; j < n; j++) if (d(i) <= d(j) && got(i) < got(j) - 1e-12) law = false; }
        expect("laws", law, "weight in [0,1], 1 at distance 0, non-increasing in the distance");
    }
}
int main(int argc, char** argv) { return run(argc, argv, {{"weights", weights}}); }
