"""Task accounting of the schedulers."""
from sa.schedrun import accounting

TITLE = 'Schedulers run each accepted task once, count it until done and report failures'
RULES = ('Cooperative thread model of Scheduler, ThreadScheduler and ProcessScheduler: sequences of add_task, set_task_callable and get_results with '
         '1-2 workers, both thread orders, and a failure of any fork, copy, task, container, thread start or pipe operation. On every path: '
         'open-task count, number of running tasks, result numbers, waiting and failure reports are compared with the accepted tasks.')
ASSUMPTIONS = ['a slave process that fails closes its pipes', 'threads are started or raise RuntimeError']


def run(c):
    accounting(c, 'tasks')
