// Client lemma functions for multiscale GWR: public API only; postconditions in dv/specs/multiscale.py.
#include "gwmodel.h"
#include "gwmodelpp/GWRMultiscale.h"
namespace gwm { namespace client {
void mgwrFit(arma::mat x, arma::vec y, arma::mat coords, std::vector<SpatialWeight> sws, std::vector<GWRMultiscale::BandwidthInitilizeType> init, std::vector<GWRMultiscale::BandwidthSelectionCriterionType> approach,
             std::vector<bool> centered, std::vector<double> thresholds, bool intercept, bool hat, ParallelType par, int threads,
             arma::mat& ret, arma::mat& betas, RegressionDiagnostic& diag)
{
    GWRMultiscale g(x, y, coords, sws);
    g.setBandwidthInitilize(init);
    g.setBandwidthSelectionApproach(approach);
    g.setPreditorCentered(centered);
    g.setBandwidthSelectThreshold(thresholds);
    g.setHasIntercept(intercept);
    g.setHasHatMatrix(hat);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); diag = g.diagnostic();
}
// everything set through setters, with given search bounds
void mgwrBounds(arma::mat x, arma::vec y, arma::mat coords, std::vector<SpatialWeight> sws, std::vector<GWRMultiscale::BandwidthInitilizeType> init, std::vector<GWRMultiscale::BandwidthSelectionCriterionType> approach,
             std::vector<bool> centered, std::vector<double> thresholds, double lower, double upper, int threads,
             arma::mat& ret, arma::mat& betas, RegressionDiagnostic& diag)
{
    GWRMultiscale g;
    g.setCoords(coords);
    g.setIndependentVariables(x);
    g.setDependentVariable(y);
    g.setSpatialWeights(sws);
    g.setBandwidthInitilize(init);
    g.setBandwidthSelectionApproach(approach);
    g.setPreditorCentered(centered);
    g.setBandwidthSelectThreshold(thresholds);
    g.setGoldenLowerBounds(lower);
    g.setGoldenUpperBounds(upper);
    g.setOmpThreadNum(threads);
    g.setParallelType(ParallelType::OpenMP);
    ret = g.fit();
    betas = g.betas(); diag = g.diagnostic();
}
}}
