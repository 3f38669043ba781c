"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
K='filterpy/kalman/'
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))

NUM="Tests run a few hand-picked models (mostly one or two states, one measurement) and compare loosely; a wrong term that vanishes for those matrices goes unnoticed."

p('C01','Linear Kalman filter obeys the Kalman equations in every form',
 "A prediction gives x' = Fx + Bu and P' = a^2 F P F^T + Q (a the fading factor, 1 unless set), and an update gives y = z - Hx, S = H P H^T + R, K = P H^T S^-1, x = x' + K y and P = (I - K H) P (I - K H)^T + K R K^T. This holds for the filter object, its steady-state, correlated-noise (S and K extended by the cross covariance) and one-measurement-at-a-time forms, and for the stand-alone functions; the prediction uses the control term only when both a control matrix and an input exist.",
 ['inputs','configurations'],'all model matrices, states, covariances, measurements and dimensions',NUM,
 [K+'kalman_filter.py'],[('KalmanFilter.predict/update/predict_steadystate/update_steadystate/update_correlated/update_sequential',K+'kalman_filter.py'),('predict, update, predict_steadystate, update_steadystate',K+'kalman_filter.py')])
p('C02','Extended Kalman filter linearises at the prediction with user functions',
 "An update evaluates the Jacobian and the measurement function at the current predicted state with the caller's extra arguments, forms the innovation with the caller's residual function, and then applies the Kalman gain, state and Joseph covariance equations with that Jacobian. A prediction propagates the mean and covariance with F, B, u and Q as the linear filter does.",
 ['inputs','configurations'],'all states, Jacobians, measurement and residual functions, extra arguments and noise settings',NUM+" The residual function and extra arguments are at their defaults in nearly every test.",
 [K+'EKF.py'],[('ExtendedKalmanFilter.update/predict/predict_x/predict_update',K+'EKF.py')])
p('C03','Fading-memory and fixed-lag filters estimate as the Kalman filter does',
 "The fading-memory filter predicts P = alpha^2 F P F^T + Q and otherwise predicts and updates exactly as the Kalman filter. The current estimate of the fixed-lag smoother, and the forward pass of its batch form, are those of a Kalman filter run on the same data.",
 ['inputs','histories'],'all models, fading factors, lags and measurement sequences',NUM,
 [K+'fading_memory.py',K+'fixed_lag_smoother.py'],[('FadingKalmanFilter.predict/update',K+'fading_memory.py'),('FixedLagSmoother.smooth/smooth_batch',K+'fixed_lag_smoother.py')])
p('C04','Alternative entry points agree with predict followed by update',
 "Asking for a prediction or an update without applying it returns exactly the mean and covariance that applying it would produce, and running a batch returns exactly what feeding the measurements one at a time (in the chosen order of predict and update, with the per-step model matrices) would record. This covers every estimator that offers such an entry point.",
 ['inputs','histories'],'all models, states, measurement sequences, per-step model lists and both predict/update orders',
 'Tests compare a batch with a loop for constant models only; a per-step list consumed at a shifted index or a preview that drops a term is invisible there.',
 [K+'kalman_filter.py',K+'fading_memory.py',K+'UKF.py',K+'information_filter.py','filterpy/gh/gh_filter.py','filterpy/hinfinity/hinfinity_filter.py'],
 [('get_prediction/get_update',K+'kalman_filter.py'),('batch_filter',K+'kalman_filter.py'),('batch_filter',K+'UKF.py'),('batch_filter','filterpy/gh/gh_filter.py')])
p('C05','A missing measurement leaves the estimate untouched',
 "An update with no measurement leaves the state and covariance exactly as they were and makes the posterior snapshot equal to them, and records that there is no measurement where the filter stores measurements. A bank of filters hands the missing measurement on to each of its members. This holds in every estimator and stand-alone update that documents it.",
 ['inputs','histories'],'all filter states before the call and all estimators','Tests pass a missing measurement to a couple of filters only and do not compare the full state.',
 [K+f for f in ('kalman_filter.py','EKF.py','UKF.py','CubatureKalmanFilter.py','ensemble_kalman_filter.py','fading_memory.py','square_root.py','information_filter.py')]+['filterpy/hinfinity/hinfinity_filter.py'],
 [('z is None branch of every update','filterpy/kalman'),])
p('C06','Caller data and stored results are never modified behind the caller',
 "No function or method modifies an array or list passed to it, and a query (preview of a prediction or update, residual, measurement of a state, smoothing pass, textual representation) leaves the estimator's own state, covariance, model and diagnostics exactly as they were. Batch and smoothing results are independent of the estimator's live arrays.",
 ['inputs','histories'],'all call arguments and all later mutations','Aliasing shows only when a caller reuses an array afterwards; tests build fresh arrays for every call.',
 ['filterpy/kalman','filterpy/common','filterpy/gh','filterpy/leastsq','filterpy/memory','filterpy/discrete_bayes','filterpy/monte_carlo','filterpy/stats'],[('every public function','filterpy')])
p('C07','Prior and posterior snapshots are faithful independent copies',
 "After a prediction the stored prior state and covariance equal the predicted ones, and after an update the stored posterior state and covariance equal the updated ones while the stored prior is left alone. Snapshots are copies: no later change of the live state alters them.",
 ['histories'],'all sequences of predict and update calls, in every estimator that keeps snapshots','Tests read the snapshots immediately after a call, when a stale or shared value still looks right.',
 [K+f for f in ('kalman_filter.py','EKF.py','UKF.py','CubatureKalmanFilter.py','ensemble_kalman_filter.py','fading_memory.py','square_root.py','information_filter.py','IMM.py','mmae.py')]+['filterpy/hinfinity/hinfinity_filter.py'],
 [('x_prior/P_prior/x_post/P_post assignments','filterpy/kalman')])
p('C08','Likelihood and distance diagnostics describe the last update',
 "After an update the log-likelihood is the Gaussian log density of the last innovation with the last innovation covariance, the likelihood is its exponential but never zero, and the Mahalanobis distance is sqrt(y^T S^-1 y). A value computed for an earlier measurement is never returned after a newer update.",
 ['inputs','histories'],'all innovations, covariances and interleavings of updates with reads of the diagnostics','The diagnostics are computed lazily and cached, so a stale cache needs a read between two updates, which tests do not do.',
 [K+f for f in ('kalman_filter.py','EKF.py','UKF.py','CubatureKalmanFilter.py','fading_memory.py','ensemble_kalman_filter.py','information_filter.py')],[('log_likelihood/likelihood/mahalanobis properties',K)])
p('C09','Per-call model overrides are used throughout the call and then forgotten',
 "A noise, measurement, transition or control matrix (or measurement function or point generator) passed to a single predict or update call replaces the stored one everywhere in that call; a scalar noise stands for that scalar times the identity. The stored model is not changed by it, and without an override the stored one is used. A filter whose inverse function is configurable uses the configured one for every inversion its steps perform.",
 ['inputs','configurations'],'every optional model argument of every predict, update and preview call','Tests rarely pass overrides, and then with values equal to the stored ones.',
 [K+f for f in ('kalman_filter.py','EKF.py','UKF.py','CubatureKalmanFilter.py','fading_memory.py','ensemble_kalman_filter.py','square_root.py','information_filter.py','mmae.py')],[('R/H/Q/F/B/u parameters of predict and update',K)])
p('C10','Covariances stay symmetric through every step',
 "If the state covariance and the noise covariances are symmetric before a predict, update or smoothing step, every covariance the step produces is exactly symmetric in real arithmetic. This holds for any gain where the filter uses the Joseph form.",
 ['inputs'],'all models, states and symmetric covariances, every estimator','Asymmetry from a missing transpose disappears for diagonal or one-dimensional examples, which the tests use.',
 [K],[('covariance assignments',K)])
p('C11','Results have the declared shapes for every state and measurement size',
 "For all state and measurement dimensions, including one-dimensional ones, every predict, update and smoothing step on conforming matrices is dimensionally consistent and leaves state, covariance, gain, innovation and innovation covariance with their documented shapes. Batch results have one entry per measurement.",
 ['inputs','configurations'],'all pairs of state, measurement and control dimensions','Tests use very few dimension pairs, often equal to one another, where a transposed or swapped dimension cannot show.',
 [K,'filterpy/hinfinity/hinfinity_filter.py'],[('array allocation and products',K)])
p('C12','Rauch-Tung-Striebel smoothing uses the right equations and time indices',
 "Smoothing runs backward from the last filtered estimate, which it returns unchanged, with P' = F P F^T + Q, gain K = P F^T P'^-1, x += K (x_next - F x) and P += K (P_next - P') K^T, using the model that carries step k to step k+1. The unscented smoother uses sigma-point cross covariances in place of the linear gain, with the caller's residual function, noise and time steps.",
 ['inputs','histories'],'all sequences of estimates, models and lengths','Tests smooth with constant models, so an index shift in the model lists is invisible.',
 [K+'kalman_filter.py',K+'UKF.py'],[('rts_smoother',K+'kalman_filter.py'),('rts_smoother',K+'UKF.py')])
p('C13','Fixed-lag smoothing corrects exactly the last N estimates',
 "Each new measurement corrects the previous estimates inside the lag window, newest to oldest, by P_k-propagated gains P (F - K H)^T-accumulated times H^T S^-1 y, and older estimates never change again. The batch form returns the same as feeding the measurements one at a time, and control input is included in both.",
 ['inputs','histories'],'all lags, models and measurement sequences','Only one lag and one constant model is tested, and only the error magnitude is looked at.',
 [K+'fixed_lag_smoother.py'],[('FixedLagSmoother.smooth/smooth_batch',K+'fixed_lag_smoother.py')])
p('C14','Sigma points and weights reproduce the mean and covariance',
 "For every dimension, parameter choice, mean and covariance, each point generator returns the documented number of points; its mean weights sum to one, the weighted mean of the points is the given mean and their weighted second moment about it is the given covariance. The scaled generator's weights and spread follow lambda = alpha^2 (n + kappa) - n, with the centre covariance weight raised by 1 - alpha^2 + beta.",
 ['inputs','configurations'],'all dimensions, parameters, means, covariances, square-root and subtract functions','Tests check a few dimensions and parameter values by simulation.',
 [K+'sigma_points.py'],[('sigma_points, _compute_weights',K+'sigma_points.py')])
p('C15','Unscented transform and filter follow the weighted-moment equations',
 "The transform returns the weighted mean and weighted outer-product covariance plus noise, using the caller's mean and residual functions when given. The filter passes every sigma point through the process and measurement functions with the caller's arguments, forms the cross covariance with both residual functions, and updates x += K (z - zp), P -= K S K^T with K = Pxz S^-1.",
 ['inputs','configurations'],'all sigma points, weights, noise, process and measurement functions, residual, addition and mean functions','Tests use default subtraction and means almost everywhere, so a hook that is ignored or applied with swapped arguments is invisible.',
 [K+'UKF.py',K+'unscented_transform.py'],[('predict/update/cross_variance',K+'UKF.py'),('unscented_transform',K+'unscented_transform.py')])
p('C16','Cubature filter uses 2n equally weighted points and moment matching',
 "The cubature points are x +/- sqrt(n) times the columns of a square root of P, all with weight 1/(2n). Prediction and update use the mean and covariance of the propagated points plus noise, the cross covariance Pxz, K = Pxz S^-1, x += K y and P -= K S K^T, with the caller's residual and mean functions where given.",
 ['inputs','configurations'],'all states, covariances, process and measurement functions',NUM,
 [K+'CubatureKalmanFilter.py'],[('spherical_radial_sigmas, ckf_transform, CubatureKalmanFilter.predict/update',K+'CubatureKalmanFilter.py')])
p('C17','Ensemble filter updates every member with perturbed observations',
 "A prediction passes every member through the process function and adds process noise drawn with covariance Q, and an update moves every member by K (z + e_i - h(x_i)) with e_i drawn with covariance R. The gain is built from the ensemble cross covariance and innovation covariance normalised by N - 1, and the reported state is the ensemble mean.",
 ['inputs','configurations'],'all ensembles, process and measurement functions and noise','The filter is random and tests only watch the tracking error.',
 [K+'ensemble_kalman_filter.py'],[('EnsembleKalmanFilter.initialize/predict/update',K+'ensemble_kalman_filter.py')])
p('C18','Interacting multiple models mix states and keep probabilities normalised',
 "Mode probabilities after an update are proportional to predicted mode probability times likelihood and sum to one; mixing weights are column-normalised transition times mode probability. Each filter is restarted from the mixed mean and the mixed covariance including the spread of means, and the combined estimate is the probability-weighted mean and covariance including that spread.",
 ['inputs','configurations'],'all numbers of filters, transition matrices, probabilities and filter states','Tests run two or three similar filters and only look at the track.',
 [K+'IMM.py'],[('IMMEstimator.predict/update',K+'IMM.py')])
p('C19','Multiple-model bank weights its filters by likelihood',
 "After an update each filter's probability is its previous probability times its likelihood, normalised to sum to one; the bank's state is the probability-weighted mean of the filter states and its covariance the probability-weighted sum of each covariance plus the outer product of the deviation of that filter from the bank's state. Every filter receives the same input, measurement and overrides.",
 ['inputs','configurations'],'all banks, states and probabilities','One bank is tested, with one dimension, and the covariance is never compared.',
 [K+'mmae.py'],[('MMAEFilterBank.predict/update',K+'mmae.py')])
p('C20','Square-root filter is the Kalman filter carried in factored form',
 "Setting P, Q or R and reading it back yields the same matrix, the prediction and update of the factors reproduce the Kalman covariance and state equations, and the prior and posterior covariances reported are those of the prior and posterior factors.",
 ['inputs','histories'],'all models, states and positive-definite covariances','One two-state model is compared with the ordinary filter.',
 [K+'square_root.py'],[('SquareRootKalmanFilter',K+'square_root.py')])
p('C21','Information filter is the inverse-covariance form of the Kalman filter',
 "Prediction gives x = Fx + Bu and P^-1 = (F P F^T + Q)^-1, an update adds H^T R^-1 H to the inverse covariance and gives x = P(P'^-1 x' + H^T R^-1 z) equivalently x' + K(z - Hx'). Whenever the transition matrix is set, its cached inverse follows.",
 ['inputs','histories'],'all models with invertible matrices, inverse noise overrides and states','Tests compare with a Kalman filter for one scalar-noise model.',
 [K+'information_filter.py'],[('InformationFilter.predict/update/F',K+'information_filter.py')])
p('C22','g-h family filters follow their recurrences and documented gain formulas',
 "Prediction extrapolates by dt, the residual is measurement minus prediction, position is corrected by g times the residual, velocity by h/dt and acceleration by 2k/dt^2, with per-call gain overrides used for that step only. Gain selection functions, variance reduction ratios and critical damping implement the published formulas.",
 ['inputs','configurations','histories'],'all gains, time steps, orders, states, measurements and noise variances','Tests use dt = 1 in most cases, where powers of dt cannot be told apart.',
 ['filterpy/gh/gh_filter.py'],[('GHFilter, GHKFilter, GHFilterOrder and gain functions','filterpy/gh/gh_filter.py')])
p('C23','Least squares filter uses the optimal gains for its order and step',
 "At the n-th measurement the filter of order 0, 1 or 2 predicts by its polynomial model and corrects with the least-squares gains 1/n; 2(2n-1)/(n(n+1)), 6/(n(n+1)); or the three quadratic gains, scaled by the time step. Error estimates use the published truncation and variance formulas, and resetting restores the initial condition.",
 ['inputs','histories'],'all orders, time steps, steps n and measurements','Gains are compared for a handful of steps with dt = 1.',
 ['filterpy/leastsq/least_squares.py'],[('LeastSquaresFilter','filterpy/leastsq/least_squares.py')])
p('C24','Fading-memory polynomial filter uses gains determined by beta and order',
 "The order 0, 1 and 2 recursions predict with the polynomial model and correct with G = 1-b; G = 1-b^2, H = (1-b)^2; G = 1-b^3, H = 1.5(1-b)^2(1+b), K = 0.5(1-b)^3, scaled by powers of the time step.",
 ['inputs','histories'],'all beta, orders, time steps, states and measurements','Only one beta and step is tested.',
 ['filterpy/memory/fading_memory.py'],[('FadingMemoryFilter','filterpy/memory/fading_memory.py')])
p('C25','Process-noise builders implement their closed forms in the chosen ordering',
 "The discrete white-noise matrix is G G^T var for the kinematic G of the requested order, the continuous one is the integral of the transition times spectral density, each repeated per block; ordering by derivative or by dimension is only a permutation of the same entries. Van Loan discretisation returns the transition exp(F dt) and the matching discrete noise.",
 ['inputs','configurations'],'all orders, block sizes, time steps, variances and both orderings','A few literal matrices are compared, mostly with dt = 1 and one block.',
 ['filterpy/common/discretization.py'],[('Q_discrete_white_noise, Q_continuous_white_noise, van_loan_discretization, linear_ode_discretation','filterpy/common/discretization.py')])
p('C26','Kinematic model builders give Taylor transitions and position measurements',
 "The transition of a given order has entries dt^(j-i)/(j-i)! above the diagonal, repeated for each dimension in the chosen ordering; the measurement matrix has ones exactly in the position columns. Builders return a filter with matching dimensions.",
 ['inputs','configurations'],'all orders, dimensions, orderings and time steps','Only a few dims with dt values that hide powers are tested.',
 ['filterpy/common/kinematic.py'],[('kinematic_state_transition, kinematic_kf','filterpy/common/kinematic.py')])
p('C27','Resampling returns N valid indexes drawn by cumulative weight',
 "Every resampling function returns one index per weight, each a valid index of the weight list, selected by comparing positions in [0,1) with the cumulative sum of the weights; round-off in that sum can never push an index out of range. In the stratified and systematic schemes a position selects the first particle whose cumulative weight exceeds it. Stratified positions are (u_i + i)/N, systematic positions (u + i)/N, and residual resampling first takes floor(N w_i) copies of i and draws the rest from the normalised remainders N w_i - floor(N w_i).",
 ['inputs','histories'],'all weight vectors and random draws','The functions are random and fail only for rare round-off or draws; tests look at frequencies.',
 ['filterpy/monte_carlo/resampling.py'],[('residual_resample, stratified_resample, systematic_resample, multinomial_resample','filterpy/monte_carlo/resampling.py')])
p('C28','Discrete Bayes steps conserve probability',
 "Normalising divides a distribution by its sum, an update multiplies prior by likelihood and normalises, and a prediction convolves the shifted distribution with the kernel, wrapping around the circle or padding as asked.",
 ['inputs'],'all distributions, likelihoods, kernels, offsets and modes','Tests use symmetric kernels and few offsets.',
 ['filterpy/discrete_bayes/discrete_bayes.py'],[('normalize, update, predict','filterpy/discrete_bayes/discrete_bayes.py')])
p('C29','Saved histories are complete, ordered and independent of the live object',
 "Each save appends, for every attribute and property of the watched object, one deep copy to that name's list, so earlier entries never change when the object does; the number of saves is counted. The history is readable by key and attribute, and conversion to arrays converts each list.",
 ['histories'],'all watched objects, attributes, ignored names and sequences of saves and mutations','Aliasing of a saved value shows only if the object is mutated in place later.',
 ['filterpy/common/helpers.py'],[('Saver','filterpy/common/helpers.py')])
p('C30','Statistics functions implement their formulas',
 "Gaussian densities and log densities, cumulative probabilities, products and sums of Gaussians (scalar and multivariate), Bayesian update, Mahalanobis distance, normalised estimation error and covariance-ellipse axes follow their closed forms with the documented argument meaning (variance, not deviation) for all inputs.",
 ['inputs'],'all means, variances, covariances, points and dimensions','A few scalar or diagonal cases are compared.',
 ['filterpy/stats/stats.py'],[('gaussian, mul, add, multivariate_multiply, mahalanobis, NEES, covariance_ellipse ...','filterpy/stats/stats.py')])
p('C31','Invalid constructor and call arguments are rejected',
 "Dimensions below one, negative or unknown orders, unknown modes, mismatched state shapes and probability lengths, and missing required covariances or functions raise an error before any result is produced; valid arguments are never rejected by those checks.",
 ['inputs'],'all argument values around every documented limit','Error paths are barely tested, and never just inside the limit.',
 ['filterpy'],[('raise statements guarded by argument tests','filterpy')])
p('C32','Every documented argument and option has an effect',
 "Each parameter of a public function or method, and each stored configuration attribute a constructor accepts, influences a result, a stored attribute that is read, or a validation (a dimension kept under its own name describes the object and counts as read). None is silently ignored.",
 ['configurations'],'all parameters and stored configuration of the public interface','Tests pass an option at its default, or check that it is accepted, not that it matters.',
 ['filterpy'],[('def-use chains of parameters and attributes','filterpy')])
p('C33','Textual representations report the attribute each label names',
 "In the representation of an estimator each label is followed by the value of the attribute or property of that name, the heading names the object's own class, and printing never fails nor changes the object. A list is shown one indexed element per line, a column vector transposed, a matrix with its rows aligned.",
 ['configurations'],'every estimator and helper with a representation','Tests only call repr for not raising, on a few classes.',
 ['filterpy'],[('__repr__ methods','filterpy')])
p('C34','No reachable statement refers to something undefined',
 "Every name, attribute of the object itself, imported symbol and called repository function resolves on every path where it is used, and calls to repository functions match their signatures.",
 ['inputs','configurations'],'all paths of all functions, including error and rarely used option paths','Only executed lines can fail in a test; error and option paths are not executed.',
 ['filterpy'],[('all functions','filterpy')])
p('C35','Instances share no state and results depend only on the arguments',
 "Two objects built independently never share a mutable array, list or dictionary, default arguments are never mutable objects that are modified, no function keeps hidden global state, and randomness is used only by the documented random functions.",
 ['histories','configurations'],'all constructors, functions and interleavings of use of several instances','Cross-talk needs two live instances or repeated calls with default arguments.',
 ['filterpy'],[('constructors, default arguments, module globals','filterpy')])
p('C36','Copying filter states and comparing filters is exact',
 "Copying the state of one filter into another transfers every attribute both have as an independent deep copy and leaves the source unchanged; comparing two filters returns exactly the names of the public attributes both have whose values differ in shape or content (nothing when all agree) and changes neither.",
 ['inputs','histories'],'all pairs of filters','The comparison is tested on the equal case only.',
 ['filterpy/common/helpers.py'],[('copy_states, compare_kf','filterpy/common/helpers.py')])
p('C37','H-infinity filter follows its minimax gain recursion',
 "A prediction gives x = Fx + Bu, and an update forms L = (I - gamma Q P + H^T V^-1 H P)^-1, PL = P L, K = F PL H^T V^-1, x += K y and P = F PL F^T + W, with the cached inverse of the measurement weighting following every assignment.",
 ['inputs','histories'],'all models and gamma','One scenario is run and only plotted.',
 ['filterpy/hinfinity/hinfinity_filter.py'],[('HInfinityFilter.predict/update/V','filterpy/hinfinity/hinfinity_filter.py')])
p('C38','Numeric helper functions compute what they document',
 "runge_kutta4 takes one classical fourth-order Runge-Kutta step of the given derivative function, inv_diagonal inverts exactly the diagonal entries and leaves zeros elsewhere, outer_product_sum adds the outer products of the rows, and reshape_z brings every accepted measurement layout to one canonical shape and rejects the others.",
 ['inputs'],'all arguments, shapes and derivative functions','Helpers are exercised on one example each, or only through a filter.',
 ['filterpy/common/helpers.py','filterpy/common/kinematic.py'],[('runge_kutta4, inv_diagonal, outer_product_sum, reshape_z','filterpy/common/helpers.py')])
p('C39','New estimators start as documented and omitted arguments mean their defaults',
 "A new estimator starts from its documented state: state zero or as given, covariance and noise matrices identity, transition identity, diagnostics zero with the declared shapes, no measurement recorded, snapshots equal to and independent of the live state, likelihood at its floor. Leaving out an optional argument gives the same result and state as passing its documented default.",
 ['configurations','inputs'],'every estimator class and every documented optional argument, for all dimensions','Tests always overwrite the initial matrices and pass most options.',
 ['filterpy'],[('constructors and signatures','filterpy')])
p('C40','Integer-valued arguments give the results of the same floating-point values',
 "States, covariances, model matrices, measurements and sequences of them handed over as integer arrays or lists give the same estimates as the same values in floating point: no computed value is stored into, or combined in place with, an array whose element type is integer or taken from an argument, so nothing is silently truncated and no in-place update is refused. Weights and probabilities, documented as floats, are excepted.",
 ['inputs'],'all entry points and all arguments given as integers','Truncation needs an integer array for one particular argument; tests pass floats almost everywhere.',
 ['filterpy'],[('arrays made by zeros_like, copy, asarray, full, dtype= and in-place operators','filterpy')])
p('N01','Estimates remain accurate and covariances positive definite under rounding',
 "Over arbitrarily long runs with ill-conditioned models the floating-point covariance stays positive definite and the estimate close to the exact one.",
 ['inputs','histories'],'all models and run lengths','Tests cannot bound accumulated rounding error over all inputs.',
 ['filterpy/kalman'],[('covariance updates','filterpy/kalman')])
p('N02','Filters are statistically consistent and converge',
 "For data drawn from the modelled process, normalised errors follow their chi-square distribution and tracking errors stay bounded.",
 ['inputs','histories'],'all observable systems and noise realisations','Tests see a few random realisations.',
 ['filterpy/kalman'],[('predict/update','filterpy/kalman')])
p('N03','Random draws have the documented distributions',
 "Sampling helpers and resampling schemes draw from the distributions they document.",
 ['histories'],'all generator states','A distribution cannot be settled by finitely many draws.',
 ['filterpy/stats/stats.py','filterpy/monte_carlo/resampling.py'],[('rand_student_t, resampling functions','filterpy/stats/stats.py')])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
