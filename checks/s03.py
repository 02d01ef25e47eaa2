"""The callable a task runs on."""
from sa.schedrun import accounting, slave

TITLE = 'Every task runs on a fresh fork of the callable in force when it was added'
RULES = ('Same model as S02 without failures: provenance of the callable of every executed task and of every message sent to a slave process, '
         'for all orders of callable changes, both thread orders, caching on and off; and the slave loop on message sequences with and without callables.')


def run(c):
    accounting(c, 'callables')
    slave(c)
