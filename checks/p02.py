"""Parallel flow training and execution."""
from sa.parflow import run_flow

TITLE = 'Parallel training and execution of a flow process every chunk exactly once'
RULES = ('Abstract interpretation of ParallelFlow and ParallelCheckpointFlow (train, execute and the manual task interface), the task callables and result '
         'containers over contract flow nodes and schedulers: for every path the data each training phase was closed with is compared with '
         'the data given, forks are joined once, non-forkable phases are trained locally, schedulers of a sequence are used and shut '
         'down in turn, and a failing step leaves the flow ready for use.')
ASSUMPTIONS = ['FlowNode obeys the node contract and fork/join merge the data seen (H01, P01)', 'schedulers obey S01-S03']


def run(c):
    run_flow(c)
