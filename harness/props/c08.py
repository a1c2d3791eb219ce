"""C08: three-point correlation functions against the reference model."""
import numpy as np

from core import Sub, ok
from props import survey, threept

TARGETS = ['py']
ASSUMPTIONS = [
    'Even mesh grid numbers; bin edges do not separate a mesh separation '
    'from the whole number of length units below it (the implementation '
    'quantises separations by one length unit); spherical Bessel functions '
    'accurate to the level of cubic interpolation on a 0.05 grid.',
]


def run_box(case):
    from triumvirate.threept import compute_3pcf_in_gpp_box
    ref = threept.run_box(compute_3pcf_in_gpp_box, case, '3pcf', 'box 3PCF')
    return ok(np.any(ref['rawmag'] > 0), *threept.labels(case))


def run_survey(case):
    from triumvirate.threept import compute_3pcf
    ref = threept.run_survey(compute_3pcf, case, '3pcf', 'survey 3PCF')
    return ok(np.any(ref['rawmag'] > 0), *threept.labels(case))


RULE = ('random catalogues, boxes, grids, schemes, allowed multipoles, '
        'forms and binnings; non-trivial if there is signal')
WHOLE = 'the same with cell sizes and bin edges that are whole numbers'
CHECKS = [
    Sub('box', threept.box_case, run_box, quick=1000, thorough=90000,
        shards=4, rule=RULE),
    Sub('survey', threept.survey_case, run_survey, quick=900,
        thorough=80000, shards=4, rule=RULE),
    Sub('whole-box', threept.whole(threept.box_case), run_box, quick=300,
        thorough=20000, shards=2, rule=WHOLE),
    Sub('whole-survey', threept.whole(threept.survey_case), run_survey,
        quick=300, thorough=20000, shards=2, rule=WHOLE),
    Sub('large-box', threept.large_box_case, run_box, quick=64,
        thorough=1500, shards=3, rule=RULE),
    Sub('large-survey', threept.large_survey_case, run_survey, quick=64,
        thorough=1500, shards=3, rule=RULE),
    Sub('beyond', survey.beyond(threept.survey_case), run_survey, quick=100,
        thorough=6000, shards=2, rule=survey.BEYOND),
]
