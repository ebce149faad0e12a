// Client lemma functions for generalised GWR: public API only; postconditions in dv/specs/general.py.
#include "gwmodelpp/GWRGeneralized.h"
namespace gwm { namespace client {
void ggwrFit(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, GWRGeneralized::Family family, bool hat, ParallelType par, int threads, double tol, std::size_t maxiter,
             arma::mat& ret, arma::mat& betas, GWRGeneralizedDiagnostic& diag, GLMDiagnostic& glm)
{
    GWRGeneralized g;
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    g.setFamily(family); g.setHasHatMatrix(hat);
    g.setTol(tol); g.setMaxiter(maxiter);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); diag = g.getDiagnostic(); glm = g.getGLMDiagnostic();
}
void ggwrRefit(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, GWRGeneralized::Family family, bool hat, ParallelType par, int threads, double tol, std::size_t maxiter,
               arma::mat& ret, arma::mat& betas, GWRGeneralizedDiagnostic& diag, GLMDiagnostic& glm,
               arma::mat x0, arma::vec y0, arma::mat coords0, SpatialWeight sw0)
{
    GWRGeneralized g;
    g.setCoords(coords0); g.setDependentVariable(y0); g.setIndependentVariables(x0); g.setSpatialWeight(sw0);
    g.fit();
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    g.setParallelType(par);
    g.setFamily(family); g.setHasHatMatrix(hat);
    g.setTol(tol); g.setMaxiter(maxiter);
    g.setOmpThreadNum(threads);
    ret = g.fit();
    betas = g.betas(); diag = g.getDiagnostic(); glm = g.getGLMDiagnostic();
}
double ggwrCriterion(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, GWRGeneralized::Family family, bool hat, ParallelType par, int threads, double tol, std::size_t maxiter,
                     BandwidthWeight bw, GWRGeneralized::BandwidthSelectionCriterionType crit)
{
    GWRGeneralized g;
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    g.setFamily(family); g.setHasHatMatrix(hat);
    g.setTol(tol); g.setMaxiter(maxiter);
    g.setBandwidthSelectionCriterionType(crit);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    double c;
    g.getCriterion(&bw, c);
    return c;
}
arma::mat ggwrPredict(arma::mat x, arma::vec y, arma::mat coords, SpatialWeight sw, GWRGeneralized::Family family, bool hat, ParallelType par, int threads, double tol, std::size_t maxiter,
                      arma::mat locations)
{
    GWRGeneralized g;
    g.setCoords(coords); g.setDependentVariable(y); g.setIndependentVariables(x); g.setSpatialWeight(sw);
    g.setFamily(family); g.setHasHatMatrix(hat);
    g.setTol(tol); g.setMaxiter(maxiter);
    g.setParallelType(par);
    g.setOmpThreadNum(threads);
    return g.predict(locations);
}
}}
