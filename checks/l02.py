"""A training phase is closed exactly once, and only by a closing step that succeeded."""
from sa.lifecycle import run_lifecycle

TITLE = 'The training phase advances exactly when its closing step succeeded'
RULES = ('Typestate product as for the refusal property; compared here: which training and closing hooks each operation '
         'runs and in which order, that a failing hook is passed on and leaves the phase where it was, that the closing '
         'step can then be repeated, and what the phase observers report afterwards.')
ASSUMPTIONS = ['algorithm hooks do not themselves assign the lifecycle state']


def run(c):
    run_lifecycle(c, {'phase', 'retry', 'propagate', 'observers', 'hooks', 'construct'}, c.tier == 'thorough')
