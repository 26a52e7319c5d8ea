"""Properties and the contracts they stand on."""
import specs
from specs import C, D, SP, MO, SE, R, DT, FL, N_, O_

ASSUMPTIONS = ['numbers are mathematical reals and integers (no rounding, overflow, NaN or infinity in the inputs)',
               'inputs satisfy the preconditions of the contracts in specs*.py',
               'numpy, math and scipy primitives behave as modelled in pv/npmodel.py']


def r(mod, *names):
    return [mod + n for n in names]


PROPS = {
    'C01': dict(roots=[t + '#frame' for t in specs.REPLACEMENTS]),
    'C02': dict(roots=r(R, 'last_valid_data', 'mean_value', 'median_value')),
    'C03': dict(roots=r(R, 'linear_interpolation')),
    'C04': dict(roots=r(R, 'simple_moving_average', 'exponential_moving_average', 'weighted_moving_average', 'ssa', 'kalman_filter')),
    'C05': dict(roots=[t + '#indices' for t in specs.DETECTORS]),
    'C06': dict(roots=r(DT, 'acceleration:acceleration_thresholding')),
    'C07': dict(roots=r(DT, 'correlation:velocity_correlation')),
    'C08': dict(roots=r(DT, 'phasespace:phasespace_thresholding')),
    'C09': dict(roots=r(DT, 'spherical:spherical_phasespace_thresholding')),
    'C10': dict(roots=r(DT, 'phasespace:phasespace_thresholding_premodification')),
    'C11': dict(roots=r(DT, 'pollution:pollution_rate')),
    'C12': dict(roots=r(D, 'min', 'max', 'mean', 'median', 'mode')),
    'C13': dict(roots=r(SP, 'variance', 'std') + r(MO, 'skewness', 'kurtosis')),
    'C14': dict(roots=r(SE, 'moving_average', 'exponential_moving_average', 'weighted_moving_average')),
    'C15': dict(roots=r(SE, 'ssa')),
    'C16': dict(roots=r(SE, 'kalman_filter')),
    'C17': dict(roots=r(N_, 'cdf', 'sf', 'log_cdf', 'log_sf', 'pdf', 'log_pdf')),
    'C18': dict(roots=r(N_, 'skewtest', 'kurtotest')),
    'C19': dict(roots=r(O_, 'brentq'), nconc=400),
    'C20': dict(roots=r(O_, 'fminbound'), nconc=400),
    'C21': dict(roots=r(FL, 'kinetic_turbulent_energy', 'reynolds_stresses')),
    'C22': dict(roots=r(specs.SY, '_random_index', 'synthetic_noise')),
    'C23': dict(roots=r(specs.BU, 'low_to_low', 'low_to_high', 'low_to_band', 'low_to_stop', 'bilinear', 'buttap', 'butterworth')),
    'C24': dict(roots=r(specs.KB, '_rotation', '_scaling', '_transform', '_histogram', '_discrete_cosine_2d', '_inverse_cosine_2d', '_k', '_psi', 'bivariate_kernel')),
    'C25': dict(roots=r(specs.K3, 'three_dimensional_kernel', 'kernel')),
    'C26': dict(roots=r(specs.SG, 'spectrum:power_spectra')),
    'C28': dict(roots=r(R, 'cubic_12points_polynomial', 'polynomial_replacement')),
    'C27': dict(roots=[t + '#pure' for t in specs.PURE]),
}
