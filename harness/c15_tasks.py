"""Task callables that can be imported by slave processes."""
import os
import sys
import time
from mdp.parallel import TaskCallable


class TaskError(Exception):
    pass


class Work(TaskCallable):
    """data: (task number, value, delay, fails); every call is logged in the log directory"""
    def __init__(self, factor, log):
        self.factor, self.log = factor, log
        self.forked = False
        self.calls = 0
        self.env = os.getpid()

    def setup_environment(self):
        self.env = os.getpid()

    def fork(self):
        w = Work(self.factor, self.log)
        w.env = self.env
        w.forked = True
        return w

    def __call__(self, data):
        number, value, delay, fails = data
        with open(os.path.join(self.log, "log"), "a") as f:
            f.write("%s %s\n" % (number, self.factor))
        if not self.forked or self.calls or self.env != os.getpid():
            return "called without fresh fork or environment"
        self.calls += 1
        if delay:
            time.sleep(delay)
        if fails == "exception":
            raise TaskError(number)
        if fails == "exit":
            sys.exit()
        if fails == "unpicklable":
            return lambda: 0
        return self.factor * value


def double(data):
    return 2 * data[1]
