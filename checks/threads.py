"""Runs tasks in threads one at a time, switching where the harness says."""
import os
import sys
import threading

PART = '%syargy%s' % (os.sep, os.sep)


class Abort(BaseException):
    pass


CURRENT = {}  # thread: worker
TOOL = 4


def event(code, _):
    if PART not in code.co_filename or code.co_name.startswith('<'):
        return sys.monitoring.DISABLE
    worker = CURRENT.get(threading.get_ident())
    if worker:
        worker.step()


def install():
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'threads')
        for kind in (mon.events.PY_START, mon.events.PY_RESUME):
            mon.register_callback(TOOL, kind, event)
        mon.set_events(TOOL, mon.events.PY_START | mon.events.PY_RESUME)


class Worker(object):
    """Counts calls of functions of yargy, stops before the call the harness chose."""

    def __init__(self, task):
        self.task = task
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.started = self.done = self.aborted = False
        self.error = self.result = None
        self.left = None
        self.total = 0
        self.thread = threading.Thread(target=self.main, daemon=True)

    def step(self):
        if self.aborted:
            raise Abort
        self.total += 1
        if self.left is None:
            return
        if self.left:
            self.left -= 1
            return
        self.back.release()
        self.go.acquire()
        if self.aborted:
            raise Abort

    def main(self):
        CURRENT[threading.get_ident()] = self
        try:
            self.result = self.task()
        except BaseException as e:
            self.error = e
        finally:
            del CURRENT[threading.get_ident()]
            self.done = True
            self.back.release()

    def run(self, calls=None):
        """Continue for so many calls (to the end by default)."""
        if self.done:
            return
        self.left = calls
        if self.started:
            self.go.release()
        else:
            self.started = True
            self.thread.start()
        self.back.acquire()
        if self.error is not None:
            raise self.error

    def abort(self):
        self.aborted = True
        if self.started:
            self.go.release()
            self.thread.join(1)


def interleave(tasks, slices=()):
    """Results of tasks, slices: (number of the task, calls), the rest is run in order."""
    install()
    workers = [Worker(_) for _ in tasks]
    try:
        for i, calls in list(slices) + [(i, None) for i in range(len(tasks))]:
            workers[i].run(calls)
    finally:
        for w in workers:
            if not w.done:
                w.abort()
    return workers


def interrupted(task, other, first, step):
    """Worker of a task stopped before call number first, first + step, ...; each time other() runs to its end."""
    install()
    worker = Worker(task)
    try:
        worker.run(first)
        while not worker.done:
            other()
            worker.run(step - 1)
    finally:
        if not worker.done:
            worker.abort()
    return worker
