"""Wrong-phase calls are refused before any algorithm code runs."""
from sa.lifecycle import run_lifecycle

TITLE = 'Calls in the wrong training phase are refused before algorithm code runs'
RULES = ('Typestate product of every class that defines part of the node protocol (train, stop_training, execute, '
         'inverse and the checks they call, inlined from the current source) with the documented phase automaton, for '
         'nodes of 0-3 training phases whose algorithm hooks are arbitrary and may fail; each operation is applied in '
         'each reachable abstract state and the exception class, the hooks reached and the stored state are compared '
         'with the automaton.')
ASSUMPTIONS = ['algorithm hooks do not themselves assign the lifecycle state',
               'arguments are compared or forwarded, never inspected otherwise, by the protocol code']


def run(c):
    run_lifecycle(c, {'refuse', 'refuse-unchanged', 'observers', 'hooks', 'construct'}, c.tier == 'thorough')
