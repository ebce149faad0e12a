// Client lemma functions for bandwidth and variable selection: public API only; postconditions in dv/specs/select.py.
#include "gwmodel.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/BandwidthSelector.h"
#include "gwmodelpp/VariableForwardSelector.h"
namespace gwm { namespace client {
void selectBandwidth(IBandwidthSelectable* model, BandwidthWeight* initial, double lower, double upper, double& bw, bool& adaptive, BandwidthWeight::KernelFunctionType& kernel)
{
    BandwidthSelector s(initial, lower, upper);
    BandwidthWeight* r = s.optimize(model);
    bw = r->bandwidth(); adaptive = r->adaptive(); kernel = r->kernel();
}
void selectVariables(IVarialbeSelectable* model, std::vector<std::size_t> variables, double threshold, std::vector<std::size_t>& selected, VariablesCriterionList& record)
{
    VariableForwardSelector s(variables, threshold);
    selected = s.optimize(model);
    record = s.indepVarsCriterion();
}
// a fit that selects its bandwidth first
void gwrAuto(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, GWRBasic::BandwidthSelectionCriterionType crit, ParallelType par, int threads, bool bounds, double lower, double upper, arma::mat& betas, double& bw)
{
    GWRBasic g(x, y, coords, sw, true, true);
    g.setIsAutoselectBandwidth(true);
    g.setBandwidthSelectionCriterion(crit);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    if (bounds) { g.setGoldenLowerBounds(lower); g.setGoldenUpperBounds(upper); }
    betas = g.fit();
    bw = g.spatialWeight().weight<BandwidthWeight>()->bandwidth();
}
// the criterion in force by default is the one reported
void gwrAutoDefault(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, arma::mat& betas, double& bw, GWRBasic::BandwidthSelectionCriterionType& crit)
{
    GWRBasic g(x, y, coords, sw, true, true);
    g.setIsAutoselectBandwidth(true);
    crit = g.bandwidthSelectionCriterion();
    betas = g.fit();
    bw = g.spatialWeight().weight<BandwidthWeight>()->bandwidth();
}
void gtwrAuto(arma::mat x, arma::vec y, arma::mat coords, arma::vec times, SpatialWeight sw, GTWR::BandwidthSelectionCriterionType crit, ParallelType par, int threads, arma::mat& betas, double& bw)
{
    GTWR g(x, y, coords, sw, true, true);
    g.setCoords(coords, times);
    g.setIsAutoselectBandwidth(true);
    g.setBandwidthSelectionCriterion(crit);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    betas = g.fit();
    bw = g.spatialWeight().weight<BandwidthWeight>()->bandwidth();
}
void gtwrAutoDefault(arma::mat x, arma::vec y, arma::mat coords, arma::vec times, SpatialWeight sw, arma::mat& betas, double& bw, GTWR::BandwidthSelectionCriterionType& crit)
{
    GTWR g(x, y, coords, sw, true, true);
    g.setCoords(coords, times);
    g.setIsAutoselectBandwidth(true);
    crit = g.bandwidthSelectionCriterion();
    betas = g.fit();
    bw = g.spatialWeight().weight<BandwidthWeight>()->bandwidth();
}
}}
