"""C07: survey bispectrum against the reference model."""
import numpy as np

from core import Sub, ok
from props import survey, threept
from props.c06 import ASSUMPTIONS  # noqa: F401

TARGETS = ['py']


def run(case):
    from triumvirate.threept import compute_bispec
    ref = threept.run_survey(compute_bispec, case, 'bispec',
                             'survey bispectrum')
    return ok(ref['valid'].any() and np.any(ref['rawmag'] > 0),
              *threept.labels(case), *survey.labels(case)[2:])


CHECKS = [
    Sub('bispec', threept.survey_case, run, quick=1600, thorough=120000,
        shards=8,
        rule='random data/random pairs with weights and lines of sight, '
             'alignments, grids, schemes, allowed multipoles, forms and '
             'binnings; non-trivial if some bin pair holds modes and signal'),
    Sub('large', threept.large_survey_case, run, quick=100, thorough=4000,
        shards=4, rule='the same with larger meshes and catalogues'),
    Sub('beyond', survey.beyond(threept.survey_case), run, quick=150,
        thorough=10000, shards=2, rule=survey.BEYOND),
]
