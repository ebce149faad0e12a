// Client lemma functions for geographically weighted discriminant analysis: public API only; postconditions in dv/specs/gwda.py.
#include "gwmodel.h"
#include "gwmodelpp/GWDA.h"
namespace gwm { namespace client {
void gwda(arma::mat x, std::vector<std::string> y, arma::mat coords, SpatialWeight sw, bool quadratic, bool cov, bool mean, bool prior, ParallelType par, int threads,
          arma::mat& score, std::vector<std::string>& group, double& rate, arma::mat& probs, arma::mat& pmax, arma::mat& entropy)
{
    GWDA g(x, coords, sw);
    g.setGroup(y);
    g.setIsWqda(quadratic);
    g.setHascov(cov); g.setHasmean(mean); g.setHasprior(prior);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    g.run();
    score = g.res(); group = g.group(); rate = g.correctRate(); probs = g.probs(); pmax = g.pmax(); entropy = g.entropy();
}
// the same object used for another data set before
void gwdaReuse(arma::mat x0, std::vector<std::string> y0, arma::mat coords0, SpatialWeight sw0, arma::mat x, std::vector<std::string> y, arma::mat coords, SpatialWeight sw, ParallelType par, int threads,
          arma::mat& score, std::vector<std::string>& group, double& rate, arma::mat& probs, arma::mat& pmax, arma::mat& entropy)
{
    GWDA g;
    g.setVariables(x0); g.setGroup(y0); g.setCoords(coords0); g.setSpatialWeight(sw0);
    g.run();
    g.setVariables(x); g.setGroup(y); g.setCoords(coords); g.setSpatialWeight(sw);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    g.run();
    score = g.res(); group = g.group(); rate = g.correctRate(); probs = g.probs(); pmax = g.pmax(); entropy = g.entropy();
}
// weighted covariance and correlation of two columns
void gwdaMoments(arma::mat x, arma::vec w, arma::vec a, arma::vec b, arma::mat& cov, double& cw, double& rw)
{
    cov = GWDA::covwtmat(x, w);
    cw = GWDA::covwt(a, b, w);
    rw = GWDA::corwt(a, b, w);
}
double gwdaEntropy(arma::vec p)
{
    GWDA g;
    return g.shannonEntropy(p);
}
}}
