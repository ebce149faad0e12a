// Client lemma function for geographically weighted principal components: public API only; postconditions in dv/specs/gwpca.py.
#include "gwmodel.h"
#include "gwmodelpp/GWPCA.h"
namespace gwm { namespace client {
void gwpcaRun(arma::mat x, arma::mat coords, SpatialWeight sw, int keep, arma::mat& pv, arma::cube& loadings, arma::mat& sdev)
{
    GWPCA g(x, coords, sw);
    g.setKeepComponents(keep);
    g.run();
    pv = g.localPV(); loadings = g.loadings(); sdev = g.sdev();
}
void gwpcaReuse(arma::mat x0, arma::mat coords0, SpatialWeight sw0, int keep0, arma::mat x, arma::mat coords, SpatialWeight sw, int keep, arma::mat& pv, arma::cube& loadings, arma::mat& sdev)
{
    GWPCA g(x0, coords0, sw0);
    g.setKeepComponents(keep0);
    g.run();
    g.setVariables(x); g.setCoords(coords); g.setSpatialWeight(sw); g.setKeepComponents(keep);
    g.run();
    pv = g.localPV(); loadings = g.loadings(); sdev = g.sdev();
}
}}
