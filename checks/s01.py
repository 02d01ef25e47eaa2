"""The scheduler lock."""
from sa.schedrun import lock_check

TITLE = 'The scheduler lock is always released and guards every shared write'
RULES = ('Lock typestate over every path of the scheduler classes (cooperative thread model, every task, fork, copy, container, '
         'thread start and pipe operation may fail): the lock is never acquired twice by one thread, released when free, held '
         'while sleeping, waiting for a slave or left held at the end of an operation or thread; every attribute of the scheduler that is written '
         'after construction is written with the lock held.')
ASSUMPTIONS = ['appending to a list is atomic (CPython)', 'result containers and task callables do not use the scheduler themselves']


def run(c):
    lock_check(c)
