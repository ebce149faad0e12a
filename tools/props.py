SWD = 'src/gwmodelpp/spatialweight/'
INC = 'include/gwmodelpp/spatialweight/'
PROPS = []
NA = []
def P(id, title, statement, quant, why, files, mech, note, thms, over=('inputs',), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, note=note, thms=thms, over=list(over), **kw))
BND = ' Obligations the verifier does not reach on a changed tree fall back to the executable-contract harness, labelled bounded in the evidence.'

P('W01', 'Kernel weights are exactly the documented functions of distance and bandwidth',
  'For every distance vector and bandwidth, each observation gets the weight of the chosen kernel (Gaussian, exponential, bi-square, tri-cube, boxcar) at its distance, so weights lie in [0,1], are 1 at distance zero, never increase with distance, and vanish from the bandwidth outwards for the compact kernels. '
  'A fixed bandwidth is used as is; an adaptive bandwidth of q neighbours becomes the distance to the q-th nearest point, interpolated between neighbouring order statistics when q is fractional and scaled up from the largest distance when q exceeds the number of points.',
  'every distance vector of any length, every bandwidth >= 1 (adaptive) or > 0 (fixed), every kernel, through constructors, setters and copies',
  'the tests fit one data set with two adaptive bandwidths and one or two kernels; ties, boundary distances, fractional neighbours and bandwidths above n are never reached',
  [INC + 'BandwidthWeight.h', SWD + 'BandwidthWeight.cpp'], [('BandwidthWeight::weight', SWD + 'BandwidthWeight.cpp'), ('kernel functions', INC + 'BandwidthWeight.h')],
  'proof over the real bodies for all n, distances, bandwidths; real arithmetic.' + BND, ['::kernelWeight', '::kernelWeightSetters'])
P('W02', 'Distances are those of the chosen metric, for every focus; bad use is rejected',
  'For every set of focus and data points the distance vector of a focus holds the planar Euclidean, great-circle, Minkowski (with rotation), one-dimensional or space-time distance to every data point, and the maximum and minimum distances are the extremes of exactly those vectors. '
  'The most recently prepared points are the ones in force, for the object and for its copies. '
  'Asking an unprepared distance, or a focus that does not exist, is rejected with an exception instead of returning a value.',
  'every number of focus and data points, every coordinate, power, rotation angle, space-time ratio and focus index',
  'the tests only use planar distances between one set of points and itself; the other metrics, unequal point sets, extremes and misuse are untouched',
  [SWD + f for f in ('CRSDistance.cpp', 'MinkwoskiDistance.cpp', 'OneDimDistance.cpp', 'CRSSTDistance.cpp')],
  [('CRSDistance::distance/maxDistance/minDistance', SWD + 'CRSDistance.cpp'), ('MinkwoskiDistance::distance', SWD + 'MinkwoskiDistance.cpp'), ('CRSSTDistance::distance', SWD + 'CRSSTDistance.cpp'), ('OneDimDistance::distance', SWD + 'OneDimDistance.cpp')],
  'proof over the real bodies for all point sets; transcendental functions uninterpreted.' + BND,
  ['::crsDistance', '::crsDistanceCopy', '::crsMax', '::crsMin', '::reprepared', '::setGeographic', '::badFocus', '::unprepared', '::badFocus1d', '::minkDistance', '::minkMax', '::minkMin', '::minkCopy', '::oneDimDistance', '::oneDimMax', '::oneDimMin', '::oneDimCopy', '::stDistance', '::stDistanceAngle', '::stCopy'])
P('W03', 'Spatial weights are independent values under copy, move, assignment and setters',
  'A spatial weight built, copied, assigned, moved or re-configured from parts yields, for every focus, the weights of the kernel, bandwidth and prepared points it was given. '
  'Later changes to the source object, to the parts it was built from, or to its copies never alter it, and setting its own parts on itself changes nothing.',
  'every kernel, bandwidth, metric and point set, and every order of construct/copy/assign/move/set operations covered by the client lemmas',
  'the tests build one spatial weight per model and never mutate a source after copying, assign between different configurations, or self-assign',
  [SWD + 'SpatialWeight.cpp', INC + 'SpatialWeight.h'], [('copy/move construction and assignment, setWeight, setDistance', INC + 'SpatialWeight.h'), ('SpatialWeight::weightVector', INC + 'SpatialWeight.h')],
  'proof of public-API lemma functions inlining the real bodies; object graph modelled by a heap of owned objects.' + BND,
  ['::swVector', '::swCopyIndependent', '::swAssign', '::swSet', '::swMove', '::swSetPointer'], over=('inputs', 'histories'))

GB = 'src/gwmodelpp/GWRBasic.cpp'
P('R01', 'Basic GWR solves the kernel-weighted least squares at every observation',
  'After a basic GWR fit every row of coefficients is the least-squares solution weighted by the kernel weights of that observation, and the two hat-matrix traces, the stored hat matrix, the coefficient standard errors and the diagonal of (I-S)\'(I-S) are those implied by the same local systems. '
  'This holds with one thread or many, for any size of data, and does not depend on what was set or fitted before.',
  'every n, k, design matrix, response, weight configuration for which the local systems are invertible; every thread count; refits',
  'the tests compare five quantiles of one 100-point data set under three fixed configurations',
  [GB, 'include/gwmodelpp/GWRBasic.h'], [('fit, fitBase, fitCoreSerial, fitCoreOmp', GB)],
  'proof for all n, k, X, y; matrix inverse assumed to be the inverse, real arithmetic.' + BND,
  ['::gwrFit', '::gwrRefit', 'GWRBasic::fitCoreSerial', 'GWRBasic::fitCoreOmp', 'GWRBasic::fitCoreCVSerial', 'GWRBasic::fitCoreCVOmp', 'GWRBasic::fitCoreSHatSerial', 'GWRBasic::fitCoreSHatOmp'], over=('inputs', 'histories'))
P('R02', 'GWR diagnostics are the documented functions of residuals and hat matrix',
  'Residual sum of squares, AIC, corrected AIC, effective number of parameters, effective degrees of freedom, R squared and adjusted R squared reported after a basic GWR fit are exactly the documented functions of the observed response, the fitted values of the returned coefficients and the two traces of the hat matrix. '
  'The public helper functions for fitted values, RSS and AICc compute those same formulas on any coefficients.',
  'every data set, weight configuration and thread count with invertible local systems; helpers on every coefficient matrix',
  'the tests check rounded diagnostics of one data set; degenerate sizes, other weights and the relation between the reported numbers are not checked',
  ['src/gwmodelpp/GWRBase.cpp', GB, 'include/gwmodelpp/RegressionDiagnostic.h'], [('CalcDiagnostic, Fitted, RSS, AICc', 'src/gwmodelpp/GWRBase.cpp')],
  'proof for all n, k, X, y; log and square root uninterpreted.' + BND, ['::gwrFit (diagnostics)', '::diagFormulas'])
P('R03', 'Bandwidth and variable criteria of basic GWR are CV and corrected AIC of the given candidate',
  'The criterion of a candidate bandwidth is exactly the leave-one-out cross-validation score or the corrected AIC of the model fitted with that bandwidth, whichever was chosen, and the criterion of a set of variables is the corrected AIC of the model with the intercept and exactly those columns. '
  'A candidate for which any local system is singular, or whose score is not finite, gets the worst possible criterion, never the score of a partial fit.',
  'every data set, candidate bandwidth, list of variables, criterion type, serial and OpenMP with any number of threads',
  'the tests run one selection per criterion on one data set and look only at the selected value; no candidate is singular there',
  [GB], [('bandwidthSizeCriterionCV*/AIC*, indepVarsSelectionCriterion*, fitCoreCV*, fitCoreSHat*', GB)],
  'proof for all n, k, X, y and candidates; singularity is an uninterpreted predicate of the local system.' + BND, ['::gwrCriterion', '::gwrCriterion#singular', '::gwrVarCriterion'])
P('R06', 'GWR prediction uses the calibration data weighted from each prediction location',
  'Predicting at any set of locations yields one row of coefficients per location, each being the least-squares solution on the calibration data weighted by the kernel of the distances from that location to the calibration points, serially and with OpenMP. '
  'Prediction fails with an exception exactly when some local system is singular.',
  'every number of prediction locations (more, fewer or as many as observations), data set, weight configuration and thread count',
  'the tests predict only at the calibration points of one data set',
  [GB], [('predict, predictSerial, predictOmp, createPredictionDistanceParameter', GB)],
  'proof for all n, m, k.' + BND, ['::gwrPredict', '::gwrPredict#singular'])
P('R07', 'Serial and OpenMP runs of basic GWR agree, and failures are reported, never swallowed',
  'For the same data and configuration the serial and the OpenMP run of fit, predict and the criteria give the same results for every number of threads, with no conflicting concurrent writes. '
  'When a local system is singular both end in the same way: fit and predict throw, criteria return the worst value; without a singular system neither throws.',
  'every data set (including singular ones), thread count and interleaving of the parallel loops',
  'tests run one four-thread configuration on well-conditioned data; races and failure inside a parallel region cannot be settled by sampling',
  [GB], [('fitCoreOmp, predictOmp, fitCoreCVOmp, fitCoreSHatOmp', GB)],
  'proof: each variant is proved equal to the same specification; disjoint-write obligations for every parallel loop; exceptional postconditions.' + BND,
  ['::gwrFit', '::gwrPredict', '::gwrCriterion', '::gwrFit#singular', '::gwrPredict#singular', '::gwrCriterion#singular'], over=('inputs', 'schedules'))
GT = 'src/gwmodelpp/GTWR.cpp'
P('M06', 'GTWR solves the space-time weighted least squares at every observation',
  'A geographically and temporally weighted regression gives, at every observation, the least-squares solution weighted by the kernel of the space-time distances, with the standard errors, hat-matrix traces and diagnostics of those local systems, serially and with OpenMP, whatever was fitted before. '
  'Bandwidth criteria are the cross-validation score or corrected AIC of the candidate, a singular local system is reported as a failure, an automatically selected space-time ratio is the one the reported model uses, and prediction uses the given locations.',
  'every n, k, data, times, kernel and thread count; refits',
  'the tests compare rounded diagnostics of one data set at a few ratios',
  [GT, 'include/gwmodelpp/GTWR.h'], [('fit, fitSerial, fitOmp, CalcDiagnostic', GT), ('bandwidthSizeCriterion*', GT)],
  'proof for fit, refit, criteria and failures; automatic ratio and prediction are checked by the bounded harness only; prediction at other locations is a recorded finding.' + BND,
  ['::gtwrFit', '::gtwrRefit', '::gtwrCriterion', '::gtwrCriterion#singular', '::gtwrFit#singular'], over=('inputs', 'histories', 'schedules'))
RB = 'src/gwmodelpp/GWRRobust.cpp'
P('M01', 'Robust GWR down-weights outlying residuals exactly as documented and refits',
  'Filtered robust GWR gives weight zero to the observations whose studentised residual from the basic fit exceeds 3 and refits the rest; iterative robust GWR reweights by the documented function of each residual over the root mean squared error and refits until the mean squared error changes by at most 1e-5 relatively, or 20 passes. '
  'The coefficients, standard errors, traces and diagnostics reported are all those of the last refit, serially and with OpenMP, whatever was fitted before, and a singular local system is reported as a failure. '
  'Prediction does not use the second weights.',
  'every data set, weight configuration, algorithm, thread count and number of passes; refits and switching of the algorithm',
  'the tests compare rounded quartiles of one data set per algorithm; which observations are cut, when the iteration stops and to which pass the reported statistics belong is not checked',
  [RB, 'include/gwmodelpp/GWRRobust.h'], [('fit, robustGWRCaliFirst, robustGWRCaliSecond, filtWeight, fitSerial, fitOmp', RB)],
  'proof by induction over the passes (recursively defined sequence of fits, inferred loop invariants); one pass and the down-weighting function are proved against their own contracts.' + BND,
  ['GWRRobust::fitSerial', 'GWRRobust::fitOmp', 'GWRRobust::filtWeight', '::robustFit', '::robustDefault', '::robustPredict'], over=('inputs', 'histories', 'schedules'))
LCF = 'src/gwmodelpp/GWRLocalCollinearity.cpp'
P('M02', 'Locally compensated ridge GWR solves the ridge system of every location',
  'Every row of coefficients, at the data points or at any other prediction locations, is the ridge estimate of the standardised kernel-weighted system of that location, with the configured ridge parameter or, when adjustment is on and the condition number of the weighted design exceeds the threshold, with the parameter that brings it down to the threshold. '
  'The diagnostics are the documented functions of the residual sum of squares and of the traces of the weighted hat rows, and the bandwidth criterion is the leave-one-out squared prediction error of the same ridge estimates, or the worst possible score when that is not finite. '
  'Serial and OpenMP runs give the same values, whatever was fitted before.',
  'every n, every k >= 2, design matrix, response, weight configuration, ridge parameter, threshold and thread count; refits',
  'the tests compare rounded quartiles of one data set for one setting of the ridge parameter and threshold',
  [LCF, 'include/gwmodelpp/GWRLocalCollinearity.h'], [('fit, fitSerial, fitOmp, predictSerial, predictOmp, ridgelm, bandwidthSizeCriterionCVSerial, bandwidthSizeCriterionCVOmp', LCF)],
  'proof for all n, k, X, y through public-API lemma functions; ridgelm against its own contract, singular values of a matrix uninterpreted, real arithmetic.' + BND,
  ['GWRLocalCollinearity::ridgelm', '::lcFit', '::lcRefit', '::lcPredict', '::lcCriterion'], over=('inputs', 'histories', 'schedules'))
GGF = 'src/gwmodelpp/GWRGeneralized.cpp'
P('M03', 'Generalised GWR iterates reweighted local fits to convergence and reports them',
  'For Poisson and binomial responses the working response and weights are those of the iteratively reweighted local fits, repeated until the log-likelihood changes by less than the tolerance or the maximal number of steps is reached, and the coefficients at the data points or at any other locations are the weighted least-squares solutions with the kernel weights of that location times the working weights. '
  'Deviance, AIC, corrected AIC and pseudo R2 of the local and of the global model are the documented functions of these fits, and the bandwidth criterion is the leave-one-out squared prediction error on the response scale or the corrected AIC, or the worst possible score when that is not finite. '
  'Serial and OpenMP runs give the same values, whatever was fitted before.',
  'every n, k, design matrix, response, weight configuration, tolerance, iteration limit and thread count; refits',
  'the tests compare rounded diagnostics of one data set per family with one bandwidth',
  [GGF, 'include/gwmodelpp/GWRGeneralized.h', 'src/gwmodelpp/GeneralizedLinearModel.cpp'], [('fit, fitPoisson*, fitBinomial*, PoissonWt*, BinomialWt*, predict, bandwidthSizeGGWRCriterion*, calPoissonDiagnostic, calBinomialDiagnostic', GGF)],
  'proof by induction over the reweighting steps (recursive specification, inferred loop invariants) for all n, k, X, y through public-API lemma functions; the fit of the global model is uninterpreted in the proof and checked by the harness only, real arithmetic.' + BND,
  ['GWRGeneralized::PoissonWtSerial', 'GWRGeneralized::PoissonWtOmp', 'GWRGeneralized::BinomialWtSerial', 'GWRGeneralized::BinomialWtOmp', 'GWRGeneralized::gwPredict', '::ggwrFit', '::ggwrRefit', '::ggwrPredict', '::ggwrCriterion'], over=('inputs', 'histories', 'schedules'))
DRF = 'src/gwmodelpp/GWDR.cpp'
P('M04', 'Density regression fits with the product of one weighting per coordinate',
  'Every row of the coefficients is the weighted least-squares solution with the product, over the coordinate columns, of the kernel weights of that column; standard errors, hat matrix, traces and diagnostics follow from the same rows, and a local system that cannot be inverted makes the fit fail. '
  'The bandwidth criterion of any trial bandwidths is the leave-one-out squared prediction error or the corrected AIC under exactly those bandwidths, the variable criterion is the corrected AIC of exactly the chosen columns, and both are the worst possible score when a local system is singular or the value is not finite. '
  'Serial and OpenMP runs give the same values, whatever was fitted before.',
  'every n, k, design matrix, response, kernel and bandwidth per column (1 to 3 columns) and thread count; refits',
  'the tests compare rounded diagnostics of one data set with one adaptive bandwidth per column, never without hat matrix, with fixed bandwidths or with singular systems',
  [DRF, 'include/gwmodelpp/GWDR.h'], [('fit, fitSerial, fitOmp, bandwidthCriterion*, indepVarCriterion*, CalcDiagnostic, GWDRBandwidthOptimizer', DRF)],
  'proof for all n, k, X, y and one to three columns through public-API lemma functions; the simplex search itself (GSL) and predict(), which is a stub returning zeros, are outside: the harness checks that the fit uses the optimised bandwidths. Real arithmetic.' + BND,
  ['::gwdrFit', '::gwdrRefit', '::gwdrCriterion', '::gwdrVarCriterion'], over=('inputs', 'histories', 'schedules'))
MSF = 'src/gwmodelpp/GWRMultiscale.cpp'
P('M05', 'Multiscale GWR back-fits each variable with its own weighting to convergence',
  'Starting from a basic GWR of the (optionally centred) variables with an automatically selected bandwidth, every sweep refits each variable in turn to the response minus the other variables, with the kernel weights of that variable, until the residual sum of squares changes by no more than the threshold (absolutely, or as the root of the relative change) or the maximal number of sweeps is reached. '
  'Unless specified, the bandwidth of a variable is the one the search finds, between its bounds, for the leave-one-out squared error or corrected AIC of exactly that one-variable fit, and it is kept once it stayed within its threshold for the given number of selections; a fit with a singular local system fails, a candidate with one is the worst. '
  'Coefficients, residual sum of squares, hat-matrix traces and diagnostics are those of the last sweep, and serial and OpenMP runs give the same values.',
  'every n, design matrix, response, kernel and bandwidth per variable, number of sweeps, thread count, kind of initial bandwidth, criterion and centring (2 and 3 variables; selection during back-fitting with 2)',
  'the tests compare rounded coefficients and diagnostics of one data set with one adaptive bandwidth each; other convergence criteria, fixed bandwidths, given initial bandwidths and singular systems are not reached',
  [MSF, 'include/gwmodelpp/GWRMultiscale.h'], [('fit, backfitting, fitVarBase, fitVarCore*, bandwidthSizeCriterionVar*, CalcDiagnostic', MSF)],
  'proof by induction over the sweeps for all n and data: the one-variable fits and criteria by their own contracts, back-fitting for 2 and 3 variables against a recursively specified state, fit() through public-API lemma functions with basic GWR and the golden-section search by contract. predict(), a stub returning zeros, and the CUDA and MPI variants are outside. Real arithmetic.' + BND,
  ['::mgwrFit', '::mgwrBounds', 'GWRMultiscale::backfitting'], over=('inputs', 'histories', 'schedules'))
SS = 'src/gwmodelpp/GWSS.cpp'
P('S01', 'Geographically weighted summary statistics are the weighted moments at each point',
  'Local mean, variance, standard deviation, skewness and coefficient of variation at every location are the moments of the data under the kernel weights of that location normalised to sum one, and local median, interquartile range and quantile imbalance are the weighted quantiles under the same weights. '
  'In correlation mode the covariance, correlation and rank correlation of every pair of variables (or of the first with each other) are the weighted ones, each in its own column. '
  'Serial and OpenMP runs give the same values, whatever was computed before.',
  'every n, number of variables, data, weight configuration, thread count, mode and order of configuration (all pairs: up to 4 variables)',
  'the tests compare rounded quartiles of one data set; a location whose own weight exceeds a quantile level, ties of weights, other pair orders and thread counts are not reached',
  [SS, 'include/gwmodelpp/GWSS.h'], [('GWAverageSerial/Omp, GWCorrelationSerial/Omp, findq', SS), ('covwt, corwt, rank', 'include/gwmodelpp/GWSS.h')],
  'proof for all n and data; sort and sort_index trusted (ranks of pairwise distinct values); the all-pairs layout is proved for 2, 3 and 4 variables, first-with-each for any number.' + BND,
  ['::gwssAverage', '::gwssReuse', '::gwssCorrelation'], over=('inputs', 'histories'))
PC = 'src/gwmodelpp/GWPCA.cpp'
P('S02', 'GWPCA is the principal component analysis under the weights of each location',
  'At every location the standard deviations, percentages of variance and loadings are those of the principal components of the data centred at and weighted by the kernel weights of that location alone, one column per variable or kept component, whatever was computed before.',
  'every n >= p, data, weight configuration, number of kept components and reuse of the object',
  'the tests compare rounded quartiles of the variance percentages of one data set and look at neither the standard deviations nor other component counts',
  [PC, 'include/gwmodelpp/GWPCA.h'], [('solveSerial, wpca', PC)],
  'proof for all n, p and data down to the singular value decomposition, which is trusted; the bounded harness compares against an independent eigen-decomposition.' + BND,
  ['::gwpcaRun', '::gwpcaReuse'], over=('inputs', 'histories'))
DA = 'src/gwmodelpp/GWDA.cpp'
P('S03', 'Local discriminant analysis scores groups by the weighted moments at each point',
  'For every observation and group the discriminant score is (m/2) log of the norm of the covariance matrix, plus half the Mahalanobis distance to the group mean, minus the log of the prior, with mean, covariance and prior of the group taken under the kernel weights of that location without the observation itself, or globally where localisation is switched off; the quadratic form uses the covariance of each group, the linear one the pooled covariance. '
  'Each observation is put into the group of smallest score, the rate is the share put into their own group, the probabilities are proportional to exp(-score), and the entropy is that of the probabilities relative to equal ones. '
  'Serial and OpenMP runs give the same values, whatever was analysed before.',
  'every data set, every assignment to groups, weight configuration, linear or quadratic, localised or global moments, thread count and reuse of the object; number of groups 2 and 3 in the proof',
  'the tests look at the rate of one two-group data set in two serial configurations; scores, probabilities, entropy, more groups, global moments and OpenMP are not examined',
  [DA, 'include/gwmodelpp/GWDA.h'], [('run, wlda, wqda, wMean, wVarCov, wPrior, covwtmat', DA)],
  'proof for all n, p, data and group assignments with 2 groups (linear, quadratic, every localisation) and 3 groups; GWDA::levels and ytable assumed (only exercised by the bounded harness).' + BND,
  ['::gwda', '::gwdaReuse', '::gwdaMoments', '::gwdaEntropy'], over=('inputs', 'histories'))
BS = 'src/gwmodelpp/BandwidthSelector.cpp'
P('R04', 'Bandwidth selection returns the best bandwidth evaluated, within bounds, and uses it',
  'Automatic selection keeps the kernel and kind of bandwidth, evaluates candidates only between the lower and upper bound, stops after a bounded number of evaluations, and puts into force a bandwidth whose criterion is the smallest of all evaluated; the recorded list holds, in ascending order, exactly the evaluated candidates that could be fitted with their own criteria. '
  'The criterion minimised is the one set or reported as default, the coefficients returned are those of the selected bandwidth, and a search whose first two candidates both fail ends with an exception. '
  'A cancelled search leaves the initial bandwidth in force.',
  'every criterion function (smooth, flat, several minima, failing), bounds, adaptive or fixed, cancellation at any evaluation; fits of GWR and GTWR with every criterion and thread count',
  'the tests run one search per criterion on one data set and check the selected value only; bounds, failures, ties and the record are not examined',
  [BS, GB, GT], [('BandwidthSelector::optimize', BS), ('GWRBasic::fit', GB), ('GTWR::fit', GT)],
  'proof with inferred loop invariants for every criterion function of the bandwidth; the order of the recorded list is checked by the bounded harness.' + BND,
  ['::selectBandwidth', '::selectBandwidth#cancel', '::gwrAuto', '::gwrAutoDefault', '::gtwrAuto', '::gtwrAutoDefault'], over=('inputs', 'histories'))
VS = 'src/gwmodelpp/VariableForwardSelector.cpp'
P('R05', 'Forward variable selection is greedy and picks the last model with a sufficient drop',
  'Starting from no variable, each level evaluates the current model extended by every remaining variable exactly once and keeps the best one, and the record holds every evaluated model with its own criterion, level by level from the worst to the best. '
  'The selected model is the last of the record whose criterion drops by at least the threshold from the model before it, or the last model when there is none; its indices are translated to the variables given. '
  'A cancelled or empty selection keeps the given variables.',
  'every list of variables (also empty or one), criterion function, threshold and cancellation at any model',
  'the tests run two thresholds on one data set with three variables',
  [VS, GB], [('VariableForwardSelector::optimize, sort, select, convertIndexToVariables', VS), ('GWRBasic::fit', GB)],
  'selection of the model and translation of indices are proved for every list and threshold; the greedy loop and the order of the record are proved for 1, 2 and 3 variables (an arbitrary criterion and threshold, and a cancellation at every evaluation); longer lists are checked by the bounded harness only (0..7 variables).' + BND,
  ['VariableForwardSelector::optimize', 'VariableForwardSelector::sort', 'VariableForwardSelector::select', 'VariableForwardSelector::convertIndexToVariables', 'VariableForwardSelector::index2uvec'], over=('inputs', 'histories'))
