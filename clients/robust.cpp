// Client lemma functions for robust GWR: public API only; postconditions in dv/specs/robust.py.
#include "gwmodelpp/GWRRobust.h"
namespace gwm { namespace client {
void robustFit(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, bool hat, bool filtered, ParallelType par, int threads,
               arma::mat& ret, arma::mat& betas, arma::mat& se, arma::vec& shat, arma::vec& q, arma::mat& s, RegressionDiagnostic& diag)
{
    GWRRobust g;
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    g.setHasHatMatrix(hat);
    g.setFiltered(filtered);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); se = g.betasSE(); shat = g.sHat(); q = g.qDiag(); s = g.s(); diag = g.diagnostic();
}
void robustDefault(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, arma::mat& betas)
{
    GWRRobust g;
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    betas = g.fit();
}
arma::mat robustPredict(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, arma::mat locations)
{
    GWRRobust g;
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    return g.predict(locations);
}
}}
