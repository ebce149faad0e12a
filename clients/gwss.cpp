// Client lemma functions for geographically weighted summary statistics: public API only; postconditions in dv/specs/gwss.py.
#include "gwmodel.h"
namespace gwm { namespace client {
void gwssAverage(arma::mat x, arma::mat coords, SpatialWeight sw, bool quantile, ParallelType par, int threads,
                 arma::mat& mean, arma::mat& var, arma::mat& sdev, arma::mat& skew, arma::mat& cv, arma::mat& median, arma::mat& iqr, arma::mat& qi)
{
    GWSS g(x, coords, sw);
    g.setGWSSMode(GWSS::GWSSMode::Average);
    g.setQuantile(quantile);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    g.run();
    mean = g.localMean(); var = g.localVar(); sdev = g.localSDev(); skew = g.localSkewness(); cv = g.localCV();
    median = g.localMedian(); iqr = g.iqr(); qi = g.qi();
}
void gwssCorrelation(arma::mat x, arma::mat coords, SpatialWeight sw, bool first, ParallelType par, int threads,
                     arma::mat& mean, arma::mat& var, arma::mat& cov, arma::mat& corr, arma::mat& scorr)
{
    GWSS g(x, coords, sw);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    g.setGWSSMode(GWSS::GWSSMode::Correlation);
    g.setIsCorrWithFirstOnly(first);
    g.run();
    mean = g.localMean(); var = g.localVar(); cov = g.localCov(); corr = g.localCorr(); scorr = g.localSCorr();
}
// the same object used for another data set and mode before
void gwssReuse(arma::mat x0, arma::mat coords0, SpatialWeight sw0, arma::mat x, arma::mat coords, SpatialWeight sw, ParallelType par, int threads,
               arma::mat& mean, arma::mat& var, arma::mat& sdev, arma::mat& skew, arma::mat& cv)
{
    GWSS g;
    g.setVariables(x0); g.setCoords(coords0); g.setSpatialWeight(sw0);
    g.run();
    g.setVariables(x); g.setCoords(coords); g.setSpatialWeight(sw);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    g.run();
    mean = g.localMean(); var = g.localVar(); sdev = g.localSDev(); skew = g.localSkewness(); cv = g.localCV();
}
}}
