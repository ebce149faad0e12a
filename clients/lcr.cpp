// Client lemma functions for local collinearity GWR: public API only; postconditions in dv/specs/lcr.py.
#include "gwmodelpp/GWRLocalCollinearity.h"
namespace gwm { namespace client {
void lcFit(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, double lambda, bool adjust, double threshold, ParallelType par, int threads,
           arma::mat& ret, arma::mat& betas, RegressionDiagnostic& diag)
{
    GWRLocalCollinearity g;
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    g.setLambda(lambda); g.setLambdaAdjust(adjust); g.setCnThresh(threshold);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); diag = g.diagnostic();
}
void lcRefit(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, double lambda, bool adjust, double threshold, ParallelType par, int threads,
             arma::mat& ret, arma::mat& betas, RegressionDiagnostic& diag,
             arma::mat x0, arma::vec y0, arma::mat coords0, SpatialWeight sw0)
{
    GWRLocalCollinearity g;
    g.setCoords(coords0); g.setDependentVariable(y0); g.setIndependentVariables(x0); g.setSpatialWeight(sw0);
    g.fit();
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    g.setLambda(lambda); g.setLambdaAdjust(adjust); g.setCnThresh(threshold);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); diag = g.diagnostic();
}
double lcCriterion(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, double lambda, bool adjust, double threshold, ParallelType par, int threads, BandwidthWeight bw)
{
    GWRLocalCollinearity g;
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    g.setLambda(lambda); g.setLambdaAdjust(adjust); g.setCnThresh(threshold);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    double c;
    g.getCriterion(&bw, c);
    return c;
}
arma::mat lcPredict(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, double lambda, bool adjust, double threshold, ParallelType par, int threads, arma::mat locations)
{
    GWRLocalCollinearity g;
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    g.setLambda(lambda); g.setLambdaAdjust(adjust); g.setCnThresh(threshold);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    return g.predict(locations);
}
}}
