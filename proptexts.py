prop('C01', 'Spike replacement leaves every unflagged sample alone',
     'Every spike-replacement method (last valid data, mean, median, simple, exponential and weighted moving average, singular spectrum, Kalman, linear interpolation, cubic 12-point, polynomial) returns a '
     'new record of the same length in which every sample that was not flagged has the value it had in the input; linear interpolation, cubic and polynomial replacement round every '
     'sample they return to the requested number of decimals. The caller\'s record and index array are not modified and the result shares no memory with them.',
     INP + ', every set of flagged indices (strictly increasing, inside the record, empty to all) and every method parameter the method accepts', T0 +
     'no replacement method has a test, and the guarantee is over all records and index sets', [RP, ST + 'series.py'],
     [('copy then assignment at the flagged indices', RP)], ['return value', 'arguments after the call'])

prop('C02', 'Last-valid, mean and median replacement use the documented values',
     'Last-valid-data replacement gives each flagged sample the value its predecessor has in the repaired record, so a run of spikes takes the last good sample before it, '
     'and a spike at the very first sample keeps its value. Mean and median replacement give every flagged sample the mean or the median of the whole input record.',
     INP + ' and every strictly increasing set of flagged indices', T0 + 'the value claims quantify over every arrangement of spikes', [RP, ST + 'descriptive.py'],
     [('forward carry over the flagged indices', RP + ' last_valid_data'), ('mean / median of the record', ST + 'descriptive.py')], ['return value'])

prop('C03', 'Linear interpolation draws the line between the good neighbours of a gap',
     'A flagged sample inside a gap between two good samples takes the value on the straight line between them; a gap at the start of the record takes the first good '
     'sample, and a gap that reaches the end takes the mean of the whole input record. Every returned sample is rounded to the requested number of decimals (4 by default).',
     INP + ', every strictly increasing set of flagged indices and every number of decimals', T0 + 'gaps of every length and position, adjacent and nested at both ends',
     [RP], [('runs of consecutive spikes found by differencing the indices', RP + ' linear_interpolation')], ['return value'])

prop('C04', 'Filter-based replacement takes the filter output at the same index',
     'Replacement by simple, exponential or weighted moving average, singular spectrum analysis or Kalman filtering gives every flagged sample the value which that '
     'filter, run on the whole input record with the same parameters, has at that same index. Parameters the filter rejects are rejected with ValueError.',
     INP + ', every strictly increasing set of flagged indices, every window, smoothing factor, frequency pair or one-dimensional Kalman model the filter accepts; for the weighted average, flagged indices at which it has an entry',
     T0 + 'replacement has no test', [RP, ST + 'series.py'], [('filter the copy, take it at the flagged indices', RP)], ['return value', 'raised exception'])

prop('C05', 'Spike detectors report valid, strictly increasing indices and touch nothing',
     'Acceleration thresholding, velocity correlation, phase-space, modified phase-space and spherical phase-space detection report indices that are integers, strictly increasing '
     'and inside the record. They leave the arrays they were given unmodified.',
     'every record for which the detection ellipse or ellipsoid is defined', T0 + 'no detector has a test', [DE + 'acceleration.py', DE + 'correlation.py', DE + 'phasespace.py',
     DE + 'spherical.py'], [('np.where / unions of index sets', DE)], ['return value', 'arguments after the call'])

prop('C06', 'Acceleration thresholding flags exactly the samples beyond both thresholds',
     'With tag 1 a sample is flagged exactly when its backward difference times the sampling frequency exceeds k_gravity times gravity and its value exceeds the mean plus k_sigma '
     'standard deviations; with tag 2 exactly when the acceleration is below minus k_gravity times gravity and the value is below the mean minus k_sigma standard deviations. '
     'The first sample has acceleration zero, the defaults are gravity 980, k_gravity 1.5 and k_sigma 1, and any other tag is a ValueError.',
     'every non-empty record, frequency, gravity and factor', T0 + 'no detector has a test; exact thresholds need all inputs', [DE + 'acceleration.py', ST + 'spread.py'],
     [('acceleration and threshold comparison', DE + 'acceleration.py')], ['return value', 'raised exception'])

prop('C07', 'Velocity correlation flags exactly the points outside an ellipse',
     'A sample is flagged exactly when, in at least one of the planes (u,v), (u,w), (v,w) of the mean-removed components, it lies strictly outside the ellipse turned by the '
     'least-squares slope angle of the second component on the first, whose semi-axes a and b solve lambda^2 sx^2 = a^2 cos^2 + b^2 sin^2 and lambda^2 sy^2 = a^2 sin^2 + b^2 cos^2 with the standard '
     'deviations sx, sy and the universal threshold lambda = sqrt(2 ln n). A degenerate ellipse (either solution not positive) flags by semi-axes of 1e10, that is practically nothing.',
     'every triple of equally long records with at least two samples and non-constant u and v, slope angle not 45 degrees', T0 + 'no detector has a test',
     [DE + 'correlation.py', DE + 'poincare.py'], [('semi-axes', DE + 'poincare.py calculate_ab'), ('ellipse equation', DE + 'poincare.py calculate_rho'), ('union over planes', DE + 'correlation.py')],
     ['return value'])

prop('C08', 'Phase-space thresholding flags exactly the points outside an ellipse',
     'A sample is flagged exactly when it lies strictly outside one of the three ellipses of the value, its first and its second central difference (differences halved, rounded to 4 '
     'decimals, zero at both ends): the two axis-aligned ones with semi-axes lambda times the standard deviations, and the value / second-difference one turned by its least-squares angle '
     'with the semi-axes solved from the rotated standard deviations. lambda is sqrt(2 ln n).',
     'every record whose differences are not constant and whose third ellipse is defined', T0 + 'no detector has a test', [DE + 'phasespace.py', DE + 'poincare.py'],
     [('surrogate derivatives', DE + 'phasespace.py calculate_derivatives'), ('ellipse tests', DE + 'phasespace.py phasespace_thresholding')], ['return value'])

prop('C09', 'Spherical thresholding flags exactly the points outside the ellipsoid',
     'A sample is flagged exactly when the point of mean-removed value, gradient and second gradient, rotated by the angle atan2(sum of value times gradient, sum of squared second gradient) in the value / '
     'second-gradient plane, lies farther from the origin than the point of the ellipsoid in its direction, whose semi-axes are lambda = sqrt(2 ln n) times the standard deviations of the rotated '
     'coordinates. Intermediate quantities are rounded to 4 decimals, and the verdict is the same in the first and in later iterations.',
     'every record of at least three samples with positive semi-axes', T0 + 'no detector has a test', [DE + 'spherical.py'],
     [('gradients', DE + 'spherical.py _gradients'), ('rotation', DE + 'spherical.py _rotation'), ('ellipsoid test', DE + 'spherical.py _spike_indices')], ['return value'])

prop('C10', 'Phase-space premodification carries over exactly the removable samples',
     'Samples whose absolute value exceeds c2 times the median absolute deviation times sqrt(2 ln n) are replaced by their predecessor in the modified record (the first sample is '
     'kept), all others are returned as they are; the reported good indices are exactly the samples with absolute value at most c1 times the median absolute deviation. The defaults are c1 = 1.5 and '
     'c2 = 1.35, and the caller\'s data is not modified.',
     'every non-empty record and factors', T0 + 'no detector has a test', [DE + 'phasespace.py'], [('thresholds and carry', DE + 'phasespace.py phasespace_thresholding_premodification')],
     ['return value', 'arguments after the call'])

prop('C11', 'Pollution rate is the percentage of samples outside the filtered band',
     'The pollution rate is 100 times the fraction of samples that lie strictly above the filtered record plus k standard deviations of the raw record or strictly below it minus k standard '
     'deviations.', 'every pair of equally long non-empty records and every non-negative k', T0 + 'the pollution rate has no test', [DE + 'pollution.py', ST + 'spread.py'],
     [('threshold comparison and count', DE + 'pollution.py')], ['return value'])

prop('C12', 'Minimum, maximum, mean, median and mode are the mathematical ones',
     'Minimum and maximum are the least and greatest value, the mean is the sum over the count, the median is the middle of the sorted values (the mean of the two middle ones for even counts), and the '
     'mode is the smallest of the most frequent values together with its number of occurrences. Minimum, maximum and median of empty data are a ValueError; the input is not modified.',
     'every one-dimensional numeric array (and list, for minimum, maximum and mean) of every length', T0 + 'order and multiplicity claims need every arrangement of values',
     [ST + 'descriptive.py'], [('scans and sorting', ST + 'descriptive.py')], ['return value', 'raised exception', 'arguments after the call'])

prop('C13', 'Variance, standard deviation, skewness and kurtosis are the population moments',
     'Variance is the mean squared deviation from the mean (division by the count), the standard deviation its square root, skewness and kurtosis the third and fourth central moments '
     'divided by the third and fourth power of the standard deviation. Variance and standard deviation of empty or multi-dimensional data are a ValueError.',
     'every record; skewness and kurtosis for every record that is not constant', T0 + 'spread and moments have no test', [ST + 'spread.py', ST + 'moment.py'],
     [('moment formulas', ST)], ['return value', 'raised exception'])

prop('C14', 'Simple, exponential and weighted moving averages follow their definitions',
     'The simple moving average at i is the mean of the last min(i+1, window) samples; the exponential one starts at the first sample and then is alpha times the sample plus (1-alpha) times the previous '
     'average, in floating point for integer data too; the weighted one is the linearly weighted mean (weights 1 to period, newest heaviest) of each period of samples, with n - period entries. Windows, '
     'periods and smoothing factors out of range are a ValueError (window or period not positive or longer than the data, alpha not in (0,1]); defaults are window 20, alpha 0.2, period 20.',
     'every record and parameter', T0 + 'the recurrences and range checks must hold for every window, length and dtype', [ST + 'series.py'], [('averaging loops', ST + 'series.py')], ['return value', 'raised exception'])

prop('C15', 'Singular spectrum analysis reconstructs from the low-mobility components',
     'The reconstruction has the length of the record and is, rounded to 4 decimals, the antidiagonal average of the trajectory matrix (window of ceil(fs/f)) projected on exactly those '
     'eigenvectors of the lag-covariance matrix whose mobility does not exceed that of the reference sine of frequency f.',
     'every record longer than the window, fs and f positive, window at least two, with non-vanishing rounded norms', T0 + 'singular spectrum analysis has no test',
     [ST + 'series.py'], [('trajectory, covariance, selection, diagonal averaging', ST + 'series.py ssa')], ['return value'])

prop('C16', 'The Kalman filter follows the scalar predict-update recurrence',
     'For each sample the filter predicts the covariance P+Q, takes the gain K = (P+Q)/(P+Q+R), moves the state by K times the innovation and reduces the covariance by (1-K); the estimates are returned in '
     'sample order, one per sample.', 'every non-empty record and every one-dimensional model (1 by 1 matrices) with non-negative covariance and process noise and positive measurement noise',
     T0 + 'the Kalman filter has no test', [ST + 'series.py'], [('predict / update loop', ST + 'series.py kalman_filter')], ['return value'])

prop('C17', 'Normal distribution functions agree with the distribution they describe',
     'The cumulative distribution is the standard normal one for every real or integer array and number, the survival function is one minus it, the log versions are their natural logarithms, and the density and log density are those '
     'of the normal distribution with the given mean and standard deviation (defaults 0 and 1). Empty input is a ValueError, the result has one entry per input, and the input is not modified.',
     'every real input, every mean and every positive standard deviation', T0 + 'the distribution functions have no test', [ST + 'distributions/normal.py'],
     [('erf / erfc branches, density formula', ST + 'distributions/normal.py')], ['return value', 'raised exception'])

prop('C18', 'Normality tests return their statistic and its normal p-value',
     'The skewness test returns the D Agostino normal deviate of the sample skewness (a sample of exactly zero adjusted skewness counts as adjusted skewness 1, as in scipy) and the kurtosis test the Anscombe-Glynn normal deviate of the '
     'sample kurtosis, its cube root carrying the sign of the denominator. The p-value is 2(1 - Phi(|z|)), Phi(z) or 1 - Phi(z) for alternative two-sided, less or greater, a sample of fewer than 8 (skewness) or 5 (kurtosis) values is a '
     'ValueError, and the sample is not modified.',
     'every float or integer sample of positive variance and every length; for the kurtosis test, every sample whose denominator is not zero', T0 + 'the normality tests have no test, and the sign of the kurtosis denominator depends on '
     'the whole sample', [ST + 'distributions/normal.py'], [('transforms and p-values', ST + 'distributions/normal.py skewtest, kurtotest')], ['return value', 'raised exception'])

prop('C19', 'The root finder stays in its interval and brackets what it calls converged',
     'Brent root finding returns a point of [xa, xb]: xa if f vanishes there, else xb if f vanishes there, and a root it reports as converged is an exact zero or lies within xtol + rtol|root| of an evaluated point where f has the '
     'opposite sign. The full output is always a dictionary with root, function_calls (the calls made), iterations (at most maxiter), converged and flag in agreement; xa >= xb or equal signs at the ends are a ValueError.',
     'every real function, every interval, every positive absolute and non-negative relative tolerance, every maxiter >= 0', T0 + 'the root finder has no test, and the bracketing must survive every sequence of secant, interpolation and bisection steps',
     [ST + 'optimize/optimize.py'], [('sign-change bracket kept by the iteration', ST + 'optimize/optimize.py brentq')], ['return value', 'calls of f', 'raised exception'],
     note='The loop invariant and an assertion inside the loop are given in the contract over the local variables of brentq; each is proved at entry and to be preserved.')

prop('C20', 'Bounded minimisation returns the best point it evaluated, inside the bounds',
     'The bounded minimiser returns a point of [lower, upper] at which the target is no larger than at any point it evaluated; the detailed output is that point, the target there, a flag and the number of evaluations made, which exceeds '
     'max_evaluations at most by the second one it always makes. Flag 0 means the minimiser is bracketed, within four times the documented tolerance, by bounds or evaluated points that are no better, flag 1 that the limit was reached; lower > upper is a ValueError.',
     'every real target function with every extra parameter, every pair of bounds, every positive tolerance and evaluation limit', T0 + 'the minimiser has no test, and the bookkeeping must survive every sequence of golden-section and parabolic steps',
     [ST + 'optimize/optimize.py'], [('golden section / parabolic step with bracket update', ST + 'optimize/optimize.py _optimize_within_bounds')], ['return value', 'calls of the target', 'raised exception'],
     note='The loop invariant and the assertions inside the loop are given in the contract over the local variables; each is proved at entry and to be preserved.')

prop('C21', 'Turbulent kinetic energy and Reynolds stresses are the centred moments',
     'Turbulent kinetic energy is half the sum of the population variances of the three components, and the Reynolds stresses are, in this order, the variances of u, v, w and the population covariances of (u,v), (u,w), (v,w).',
     'every triple of non-empty records (equally long for the stresses)', T0 + 'the fluid statistics have no test', [ST + 'signal/fluid.py'], [('fluctuation products', ST + 'signal/fluid.py')],
     ['return value'])

prop('C22', 'Synthetic pollution perturbs exactly the asked share of the samples',
     'Synthetic noise changes exactly int(n * percent / 100) different samples of a record of n and leaves the others at their value; counted in sample order from 1, the odd ones go up and the even ones '
     'down, by (percent + |r|) times the mean of the record with r drawn from the normal distribution of mean 0 and standard deviation 0.05. The pollution positions are strictly increasing and inside the record.',
     'every float or integer record, every percentage from 0 to 100 and every outcome of the random draws', T0 + 'the pollution has no test and its output is random', [ST + 'signal/synthetic.py'],
     [('distinct random positions', ST + 'signal/synthetic.py _random_index'), ('alternating spikes', ST + 'signal/synthetic.py synthetic_noise')], ['return value'],
     note='The random draws are arbitrary values of their range; that the drawing of different positions ends is not proved (it ends with probability one).')

prop('C23', 'A Butterworth design has the zeros, poles and gain of the textbook filter',
     'The normalised prototype of order N has no zeros, the poles -exp(i*pi*(2k+1-N)/(2N)) and gain 1. A lowpass to lowpass, highpass, bandpass or bandstop transformation and the bilinear transformation map '
     'every zero, pole and the gain by the textbook formulas, add the zeros that the degree difference asks for (the origin, plus or minus i*w0, or -1) and raise ValueError for an improper system. '
     'With output zps, butterworth returns for lowpass, highpass, bandpass and bandstop the composition of these: the frequencies are prewarped by 4*tan(pi*W/2) for a digital filter, with W = 2w/fs when fs is given, '
     'and a bandpass or bandstop has centre sqrt(w1*w2) and width w2-w1; it raises ValueError for a negative order, a frequency not above 0 (or not below 1 for a digital filter), w1 not below w2 or a wrong number of frequencies.',
     'every order, every frequency or pair of frequencies, every complex or real system in which no divisor vanishes', T0 + 'the filter design has no test', [ST + 'signal/butter.py'],
     [('zeros, poles and gain of each kind', ST + 'signal/butter.py butterworth'), ('prototype', ST + 'signal/butter.py buttap'), ('frequency transformations', ST + 'signal/butter.py low_to_band'), ('bilinear', ST + 'signal/butter.py bilinear')],
     ['return value', 'exception class'],
     note='Only the zeros, poles and gain form; the outputs nd and sop are not specified. Complex numbers are elements of a field with opaque functions csqrt, cexp and re; obligations over them are proved as field identities. '
          'The sign of zero is not modelled, so a square root on the negative real axis is not compared in runs.')

prop('C24', 'Bivariate kernel density is the smoothed share of the samples in each cell',
     'With the two coordinates of n samples scaled to [0, 1] by their minimum and range, the histogram holds in cell (a, b) of g x g the share of the samples in that cell (cell floor(x*g), the last one for x = 1), the two-dimensional cosine transform '
     'is the type-II transform along both axes (the first coefficient the plain sum, the others twice the cosine sum) and raises ValueError for data that are not square, the inverse transform undoes it, and bivariate_kernel returns '
     'inverse(exp(-pi^2 (k^2 hx^2 + l^2 hy^2) / 2) * transform) * g^2 / (product of the ranges), transposed, negative values replaced by the machine epsilon, with the coordinates of the g x g grid from minimum to maximum. '
     'The helpers are the documented formulas: the rotation angle arctan2(n Sxy - Sx Sy, n Sxx - Sx^2), k(s) = (-1)^s * 1*3*...*(2s-1) / sqrt(2 pi) and psi(s, t) = (-1)^(s0+s1) pi^(2(s0+s1)) wy A wx with weights exp(-i pi^2 t) (halved but for the first) times i^s.',
     'every number of samples with positive range in both coordinates, every grid of at least two cells, all bandwidths', T0 + 'the estimator has no test', ['proadv/kernel/bivariate.py'],
     [('histogram', 'proadv/kernel/bivariate.py _histogram'), ('cosine transform', 'proadv/kernel/bivariate.py _discrete_cosine_2d'), ('estimator', 'proadv/kernel/bivariate.py bivariate_kernel'), ('plug-in terms', 'proadv/kernel/bivariate.py _psi')],
     ['return value', 'exception class'],
     note='bivariate_kernel as a whole is only run (bounded): its bandwidth search calls scipy and is not used in the result. The discrete Fourier transform is trusted; psi is proved for the orders up to a sum of 5 that the search uses.')

prop('C25', 'Kernel density detection flags exactly the points outside the cutoff ellipses',
     'Three-dimensional kernel detection flags exactly the samples that lie strictly outside the ellipse of at least one of the planes (value, first), (value, second), (first, second central difference; halved, zero at both ends). '
     'In each plane the points are turned by their least-squares angle; the ellipse is axis-aligned and centred between the lower and upper cutoffs of each axis. A cutoff is the nearest node of the grid (first and last inner node, '
     'else node 1 and the last one) away from the peak of the Gaussian kernel density where the density through the peak has fallen to the fraction lambda*std/sqrt(n) of the peak and its step times the grid size over the peak is within '
     'the same bound, std being that of the unturned component and lambda sqrt(2 ln n).',
     'every float or integer record and grid size for which the three planes have a non-singular covariance and distinct cutoffs', T0 + 'the kernel detector has no test', [DE + 'trivariatekernel.py'],
     [('derivatives and planes', DE + 'trivariatekernel.py three_dimensional_kernel'), ('density, peak, cutoffs', DE + 'trivariatekernel.py kernel'), ('cutoff scan', DE + 'trivariatekernel.py _cutoff')], ['return value'],
     note='scipy gaussian_kde is an opaque positive function of the turned points (which points it is given, and at which grid nodes it is read, is what is proved); the second output of kernel is not specified. '
          'The planes are compared through a named definition at the call sites of kernel and unfolded in the proof of kernel itself.')

prop('C26', 'Power spectra are Welch estimates over Hann blocks with the requested overlap',
     'The power spectrum of a record is the Welch power spectral density estimate over blocks of the given length with a symmetric Hann window, the given percentage of overlap and the given sampling frequency, one-sided unless asked '
     'otherwise. The frequencies are the multiples of the sampling frequency over the block length up to half the sampling frequency (two-sided: in FFT order), one per estimate; defaults are 50 % overlap, blocks of 2048, one-sided.',
     'every float or integer record at least one block long, every positive sampling frequency, overlap from 0 to below 100 percent, block of at least 3', T0 + 'the spectrum has no test', [ST + 'signal/spectrum.py'],
     [('Welch call', ST + 'signal/spectrum.py power_spectra')], ['return value'],
     note='scipy.signal.welch and the Hann window are trusted; that they receive the record, window, overlap and block asked for is what is proved.')

prop('C27', 'Analysis functions never modify the data they are given',
     'Detection, replacement, descriptive and moment statistics, moving averages, singular spectrum, Kalman, normal-distribution and fluid functions leave every array passed to them bit for bit as it was, whether they return or raise, '
     'and an array they return shares no memory with their arguments.',
     'every input these functions accept', T0 + 'a test compares results, never the arguments afterwards', [RP, DE, ST], [('work on copies', 'all public functions')],
     ['arguments after the call'])

prop('C28', 'Cubic and polynomial replacement repair each spike from repaired samples',
     'Cubic 12-point replacement puts a flagged sample more than 30 samples from either end on the cubic spline through the 12 samples before it, as repaired so far, and the next 12 good samples, placed at positions 1-12 '
     'and 14-25 and evaluated at 13; nearer the ends, or with fewer than 12 good samples left, it takes the mean of the sample before it and the next good one (whichever exists), rounded to 4 decimals. '
     'Polynomial replacement puts index 0 at the mean of the record, interpolates the flagged ones of the first eleven samples linearly when any of samples 1-10 is flagged, and extrapolates every later flagged sample by the least-squares '
     'polynomial of the given degree over the previous window samples (all of them when there are fewer), as repaired so far, defaults being window 100 and degree 2. Both round every sample of the result to the given decimals (default 4).',
     INP + ', with at least one good sample, every strictly increasing set of flagged indices, window, degree and number of decimals', T0 + 'no replacement method has a test',
     [RP], [('spline of the neighbours', RP + ' cubic_12points_polynomial'), ('rolling regression', RP + ' polynomial_replacement, _create_model')], ['return value'],
     note='scipy interp1d and the sklearn polynomial least-squares fit are opaque functions of their data here (the data they are given is what is proved).')
