// Client lemma functions for GTWR: public API only; postconditions in dv/specs/gtwr.py.
#include "gwmodelpp/GTWR.h"
namespace gwm { namespace client {
void gtwrFit(arma::mat x, arma::vec y, arma::mat coords, arma::vec times, SpatialWeight sw, bool hat, ParallelType par, int threads,
             arma::mat& ret, arma::mat& betas, arma::mat& se, arma::vec& shat, arma::vec& q, arma::mat& s, RegressionDiagnostic& diag)
{
    GTWR g(x, y, coords, sw, hat, true);
    g.setCoords(coords, times);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); se = g.betasSE(); shat = g.sHat(); q = g.qDiag(); s = g.s(); diag = g.diagnostic();
}
void gtwrRefit(arma::mat x, arma::vec y, arma::mat coords, arma::vec times, SpatialWeight sw, arma::mat x0, arma::vec y0, arma::mat coords0, arma::vec times0, SpatialWeight sw0, ParallelType par, int threads,
               arma::mat& ret, arma::mat& betas, arma::mat& se, arma::vec& shat, arma::vec& q)
{
    GTWR g;
    g.setIndependentVariables(x0); g.setDependentVariable(y0); g.setCoords(coords0, times0); g.setSpatialWeight(sw0);
    g.fit();
    g.setIndependentVariables(x); g.setDependentVariable(y); g.setCoords(coords, times); g.setSpatialWeight(sw);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); se = g.betasSE(); shat = g.sHat(); q = g.qDiag();
}
double gtwrCriterion(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, BandwidthWeight bw, GTWR::BandwidthSelectionCriterionType crit, ParallelType par, int threads)
{
    GTWR g(x, y, coords, sw, true, true);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    g.setBandwidthSelectionCriterion(crit);
    double c;
    g.getCriterion(&bw, c);
    return c;
}
}}
