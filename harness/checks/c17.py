"""C17: the absorbed power follows the given profile."""
from core import Sub
from checks import c16

SUBS = [Sub('power', c16.case_power, c16.fn_power, quick=1500, thorough=20000, shards=4,
            rule='the power changes over time', must_label=('step', 'ramp', 'int', 'float'))]
ASSUMPTIONS = ['a repeated time point is a step, which may be smoothed over 1e-5 of the simulated time on either side; at '
               'most two consecutive time points are equal, and such steps are further apart from other points than that']
