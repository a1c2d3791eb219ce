"""C09: three-point window functions against the reference model."""
import numpy as np

from core import Sub, ok
from props import survey, threept
from props.c08 import ASSUMPTIONS  # noqa: F401

TARGETS = ['py']


def run(case):
    from triumvirate.threept import compute_3pcf_window
    ref = threept.run_window(compute_3pcf_window, case, '3PCF window')
    return ok(np.any(ref['rawmag'] > 0), *threept.labels(case),
              f"wa={case.get('wa')}", *survey.labels(case)[3:])


CHECKS = [
    Sub('window', lambda: threept.survey_case(wa=True), run, quick=1800,
        thorough=100000, shards=8,
        rule='random catalogues with weights and lines of sight, grids, '
             'schemes, allowed multipoles, forms, binnings and wide-angle '
             'orders; non-trivial if there is signal'),
    Sub('whole', threept.whole(threept.survey_case, wa=True), run, quick=400,
        thorough=25000, shards=3,
        rule='the same with cell sizes and bin edges that are whole numbers'),
    Sub('large', lambda: threept.large_survey_case(wa=True), run, quick=64,
        thorough=1500, shards=4,
        rule='the same with larger meshes and catalogues'),
]
