"""C06: periodic-box bispectrum against the reference model."""
import numpy as np

from core import Sub, ok
from props import threept

TARGETS = ['py']
ASSUMPTIONS = [
    'Even mesh grid numbers; wavenumber bins below the Nyquist wavenumber '
    'with edges further than 2e-5 from every mode length; bins without '
    'modes are only checked for their zero count; spherical Bessel '
    'functions accurate to the level of cubic interpolation on a 0.05 grid.',
]


def run(case):
    from triumvirate.threept import compute_bispec_in_gpp_box
    ref = threept.run_box(compute_bispec_in_gpp_box, case, 'bispec',
                          'box bispectrum')
    return ok(ref['valid'].any() and np.any(ref['rawmag'] > 0),
              *threept.labels(case))


CHECKS = [
    Sub('bispec', threept.box_case, run, quick=2400, thorough=150000,
        shards=8,
        rule='random particle sets, boxes, grids, schemes, allowed '
             'multipoles, forms and binnings; non-trivial if some bin pair '
             'holds modes and signal'),
    Sub('large', threept.large_box_case, run, quick=100, thorough=4000,
        shards=4, rule='the same with larger meshes and catalogues'),
]
