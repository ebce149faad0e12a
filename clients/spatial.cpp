// Client functions ("lemma methods"): the public API used the way a user does.  The verifier executes them
// symbolically with the real bodies from /repo; the postconditions are in dv/specs/spatial.py.
#include "gwmodel.h"
namespace gwm { namespace client {
arma::vec kernelWeight(double bw, bool adaptive, BandwidthWeight::KernelFunctionType k, arma::vec dist)
{
    BandwidthWeight w(bw, adaptive, k);
    return w.weight(dist);
}
arma::vec kernelWeightSetters(double bw, bool adaptive, BandwidthWeight::KernelFunctionType k, arma::vec dist)
{
    BandwidthWeight w;
    w.setBandwidth(bw); w.setAdaptive(adaptive); w.setKernel(k);
    BandwidthWeight v(w);
    return v.weight(dist);
}
arma::vec crsDistance(bool geographic, arma::mat fp, arma::mat dp, arma::uword focus)
{
    CRSDistance d(geographic);
    d.makeParameter({ fp, dp });
    return d.distance(focus);
}
arma::vec crsDistanceCopy(bool geographic, arma::mat fp, arma::mat dp, arma::uword focus)
{
    CRSDistance d(geographic);
    d.makeParameter({ fp, dp });
    CRSDistance e(d);
    return e.distance(focus);
}
double crsMax(bool geographic, arma::mat fp, arma::mat dp)
{
    CRSDistance d(geographic);
    d.makeParameter({ fp, dp });
    return d.maxDistance();
}
double crsMin(bool geographic, arma::mat fp, arma::mat dp)
{
    CRSDistance d(geographic);
    d.makeParameter({ fp, dp });
    return d.minDistance();
}
arma::vec minkDistance(double p, double theta, arma::mat fp, arma::mat dp, arma::uword focus)
{
    MinkwoskiDistance d(p, theta);
    d.makeParameter({ fp, dp });
    return d.distance(focus);
}
double minkMax(double p, double theta, arma::mat fp, arma::mat dp)
{
    MinkwoskiDistance d(p, theta);
    d.makeParameter({ fp, dp });
    return d.maxDistance();
}
arma::vec oneDimDistance(arma::vec fp, arma::vec dp, arma::uword focus)
{
    OneDimDistance d;
    d.makeParameter({ fp, dp });
    return d.distance(focus);
}
double oneDimMax(arma::vec fp, arma::vec dp)
{
    OneDimDistance d;
    d.makeParameter({ fp, dp });
    return d.maxDistance();
}
double oneDimMin(arma::vec fp, arma::vec dp)
{
    OneDimDistance d;
    d.makeParameter({ fp, dp });
    return d.minDistance();
}
arma::vec stDistance(arma::mat sfp, arma::mat sdp, arma::vec tfp, arma::vec tdp, double lambda, arma::uword focus)
{
    CRSDistance s(false); OneDimDistance t;
    CRSSTDistance d(&s, &t, lambda);
    d.makeParameter({ sfp, sdp, tfp, tdp });
    return d.distance(focus);
}
arma::vec stDistanceAngle(arma::mat sfp, arma::mat sdp, arma::vec tfp, arma::vec tdp, double lambda, double angle, arma::uword focus)
{
    CRSDistance s(false); OneDimDistance t;
    CRSSTDistance d(&s, &t, lambda, angle);
    d.makeParameter({ sfp, sdp, tfp, tdp });
    return d.distance(focus);
}
// weight vector of a configured spatial weight
arma::vec swVector(double bw, bool adaptive, BandwidthWeight::KernelFunctionType k, bool geographic, arma::mat fp, arma::mat dp, arma::uword focus)
{
    BandwidthWeight w(bw, adaptive, k); CRSDistance d(geographic);
    SpatialWeight sw(&w, &d);
    sw.distance()->makeParameter({ fp, dp });
    return sw.weightVector(focus);
}
// a copy is independent of its source
arma::vec swCopyIndependent(double bw, double bw2, bool adaptive, BandwidthWeight::KernelFunctionType k, arma::mat fp, arma::mat dp, arma::mat fp2, arma::mat dp2, arma::uword focus)
{
    BandwidthWeight w(bw, adaptive, k); CRSDistance d(false);
    SpatialWeight sw(w, d);
    sw.distance()->makeParameter({ fp, dp });
    SpatialWeight copy(sw);
    sw.weight<BandwidthWeight>()->setBandwidth(bw2);
    sw.distance()->makeParameter({ fp2, dp2 });
    w.setBandwidth(bw2);
    return copy.weightVector(focus);
}
arma::vec swAssign(double bw, double bw2, bool adaptive, BandwidthWeight::KernelFunctionType k, arma::mat fp, arma::mat dp, arma::mat fp2, arma::mat dp2, arma::uword focus)
{
    BandwidthWeight w(bw, adaptive, k), w2(bw2, false, BandwidthWeight::Gaussian); CRSDistance d(false), d2(true);
    SpatialWeight sw(w, d), other(w2, d2);
    sw.distance()->makeParameter({ fp, dp });
    other = sw;
    sw.weight<BandwidthWeight>()->setBandwidth(bw2);
    sw.distance()->makeParameter({ fp2, dp2 });
    return other.weightVector(focus);
}
arma::vec swSet(double bw, double bw2, bool adaptive, BandwidthWeight::KernelFunctionType k, arma::mat fp, arma::mat dp, arma::uword focus)
{
    BandwidthWeight w(bw, adaptive, k), w2(bw2, false, BandwidthWeight::Gaussian); CRSDistance d(false), d2(true);
    SpatialWeight sw(w2, d2);
    sw.setWeight(w);
    sw.setDistance(d);
    w.setBandwidth(bw2);
    sw.distance()->makeParameter({ fp, dp });
    return sw.weightVector(focus);
}
arma::vec oneDimCopy(arma::vec fp, arma::vec dp, arma::uword focus)
{
    OneDimDistance d;
    d.makeParameter({ fp, dp });
    OneDimDistance e(d);
    return e.distance(focus);
}
arma::vec stCopy(arma::mat sfp, arma::mat sdp, arma::vec tfp, arma::vec tdp, double lambda, arma::uword focus)
{
    CRSDistance s(false); OneDimDistance t;
    CRSSTDistance d(&s, &t, lambda);
    d.makeParameter({ sfp, sdp, tfp, tdp });
    CRSSTDistance e(d);
    return e.distance(focus);
}
arma::vec minkCopy(double p, double theta, arma::mat fp, arma::mat dp, arma::uword focus)
{
    MinkwoskiDistance d(p, theta);
    d.makeParameter({ fp, dp });
    MinkwoskiDistance e(d);
    return e.distance(focus);
}
double minkMin(double p, double theta, arma::mat fp, arma::mat dp)
{
    MinkwoskiDistance d(p, theta);
    d.makeParameter({ fp, dp });
    return d.minDistance();
}
arma::vec unprepared(bool geographic, arma::uword focus)
{
    CRSDistance d(geographic);
    return d.distance(focus);
}
arma::vec badFocus(bool geographic, arma::mat fp, arma::mat dp, arma::uword focus)
{
    CRSDistance d(geographic);
    d.makeParameter({ fp, dp });
    return d.distance(focus);
}
arma::vec badFocus1d(arma::vec fp, arma::vec dp, arma::uword focus)
{
    OneDimDistance d;
    d.makeParameter({ fp, dp });
    return d.distance(focus);
}
// the last prepared points are the ones in force
arma::vec reprepared(bool geographic, arma::mat fp, arma::mat dp, arma::mat fp2, arma::mat dp2, arma::uword focus)
{
    CRSDistance d(geographic);
    d.makeParameter({ fp2, dp2 });
    d.makeParameter({ fp, dp });
    return d.distance(focus);
}
arma::vec setGeographic(bool geographic, arma::mat fp, arma::mat dp, arma::uword focus)
{
    CRSDistance d(!geographic);
    d.makeParameter({ fp, dp });
    d.setGeographic(geographic);
    return d.distance(focus);
}
arma::vec swMove(double bw, bool adaptive, BandwidthWeight::KernelFunctionType k, arma::mat fp, arma::mat dp, arma::uword focus)
{
    BandwidthWeight w(bw, adaptive, k); CRSDistance d(false);
    SpatialWeight sw(w, d);
    sw.distance()->makeParameter({ fp, dp });
    SpatialWeight a(std::move(sw));
    SpatialWeight b;
    b = std::move(a);
    return b.weightVector(focus);
}
arma::vec swSetPointer(double bw, double bw2, bool adaptive, BandwidthWeight::KernelFunctionType k, arma::mat fp, arma::mat dp, arma::uword focus)
{
    BandwidthWeight w(bw, adaptive, k), w2(bw2, false, BandwidthWeight::Gaussian); CRSDistance d(false), d2(true);
    SpatialWeight sw(&w2, &d2);
    sw.setWeight(&w);
    sw.setDistance(&d);
    sw.setWeight(sw.weight());
    sw.setDistance(*sw.distance());
    w.setBandwidth(bw2);
    sw.distance()->makeParameter({ fp, dp });
    return sw.weightVector(focus);
}
}}
