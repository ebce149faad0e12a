// Client lemma functions for basic GWR: public API only; postconditions in dv/specs/gwr.py.
#include "gwmodel.h"
namespace gwm { namespace client {
void gwrFit(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, bool hat, ParallelType par, int threads,
            arma::mat& ret, arma::mat& betas, arma::mat& se, arma::vec& shat, arma::vec& q, arma::mat& s, RegressionDiagnostic& diag)
{
    GWRBasic g(x, y, coords, sw, hat, true);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); se = g.betasSE(); shat = g.sHat(); q = g.qDiag(); s = g.s(); diag = g.diagnostic();
}
// everything set through setters, after another data set was fitted
void gwrRefit(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, arma::mat x0, arma::vec y0, arma::mat coords0, SpatialWeight sw0, ParallelType par, int threads,
            arma::mat& ret, arma::mat& betas, arma::mat& se, arma::vec& shat, arma::vec& q, RegressionDiagnostic& diag)
{
    GWRBasic g(x0, y0, coords0, sw0, true, true);
    g.fit();
    g.setIndependentVariables(x); g.setDependentVariable(y); g.setCoords(coords); g.setSpatialWeight(sw);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); se = g.betasSE(); shat = g.sHat(); q = g.qDiag(); diag = g.diagnostic();
}
arma::mat gwrPredict(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, arma::mat locations, ParallelType par, int threads)
{
    GWRBasic g(x, y, coords, sw, true, true);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    return g.predict(locations);
}
double gwrCriterion(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, BandwidthWeight bw, GWRBasic::BandwidthSelectionCriterionType crit, ParallelType par, int threads)
{
    GWRBasic g(x, y, coords, sw, true, true);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    g.setBandwidthSelectionCriterion(crit);
    double c;
    g.getCriterion(&bw, c);
    return c;
}
double gwrVarCriterion(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, std::vector<size_t> vars, ParallelType par, int threads)
{
    GWRBasic g(x, y, coords, sw, true, true);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    double c;
    g.getCriterion(vars, c);
    return c;
}
void diagFormulas(arma::mat x, arma::vec y, arma::mat betas, arma::vec shat, arma::vec& fitted, double& rss, double& aicc)
{
    fitted = GWRBase::Fitted(x, betas);
    rss = GWRBase::RSS(x, y, betas);
    aicc = GWRBase::AICc(x, y, betas, shat);
}
}}
