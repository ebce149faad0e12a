// Client lemma functions for density regression (GWDR): public API only; postconditions in dv/specs/gwdr.py.
#include "gwmodel.h"
#include "gwmodelpp/GWDR.h"
namespace gwm { namespace client {
void gwdrFit(arma::mat x, arma::vec y, arma::mat coords, std::vector<SpatialWeight> sws, bool hat, ParallelType par, int threads,
            arma::mat& ret, arma::mat& betas, arma::mat& se, arma::vec& shat, arma::vec& q, arma::mat& s, RegressionDiagnostic& diag)
{
    GWDR g(x, y, coords, sws, hat, true);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); se = g.betasSE(); shat = g.sHat(); q = g.qDiag(); s = g.s(); diag = g.diagnostic();
}
// everything set through setters, after another data set was fitted
void gwdrRefit(arma::mat x, arma::vec y, arma::mat coords, std::vector<SpatialWeight> sws, arma::mat x0, arma::vec y0, arma::mat coords0, std::vector<SpatialWeight> sws0, ParallelType par, int threads,
            arma::mat& ret, arma::mat& betas, arma::mat& se, arma::vec& shat, arma::vec& q, RegressionDiagnostic& diag)
{
    GWDR g(x0, y0, coords0, sws0, true, true);
    g.fit();
    g.setIndependentVariables(x); g.setDependentVariable(y); g.setCoords(coords); g.setSpatialWeights(sws);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); se = g.betasSE(); shat = g.sHat(); q = g.qDiag(); diag = g.diagnostic();
}
// criterion of trial bandwidths (which need not be the ones set)
double gwdrCriterion(arma::mat x, arma::vec y, arma::mat coords, std::vector<SpatialWeight> sws, std::vector<SpatialWeight> trial, GWDR::BandwidthCriterionType crit, ParallelType par, int threads)
{
    GWDR g(x, y, coords, sws, true, true);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    g.setBandwidthCriterionType(crit);
    std::vector<BandwidthWeight*> bws;
    for (size_t i = 0; i < trial.size(); i++) bws.push_back(trial[i].weight<BandwidthWeight>());
    return g.bandwidthCriterion(bws);
}
double gwdrVarCriterion(arma::mat x, arma::vec y, arma::mat coords, std::vector<SpatialWeight> sws, std::vector<size_t> vars, ParallelType par, int threads)
{
    GWDR g(x, y, coords, sws, true, true);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    double c;
    g.getCriterion(vars, c);
    return c;
}
}}
