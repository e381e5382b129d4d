"""Controlled scheduler: real threads, exactly one runnable at a time, switched at chosen source lines (or bytecodes) of /repo/src/ellalgo."""
import os
import sys
import threading

from .core import REPO_SRC

ROOT = os.path.join(os.path.realpath(REPO_SRC), "ellalgo") + os.sep


class Task:
    def __init__(self, fn):
        self.fn, self.count, self.done, self.baton = fn, 0, False, threading.Semaphore(0)
        self.result, self.error, self.limit = None, None, None


class Scheduler:
    """plan: list of (task, number of points it runs for); after the plan, remaining tasks run to completion in order."""

    def __init__(self, fns, plan, opcodes=False):
        self.tasks = [Task(f) for f in fns]
        self.plan = list(plan)
        self.at = 0
        self.opcodes = opcodes
        self.switches = 0
        self.main = threading.Semaphore(0)

    def run(self):
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        for t in ths:
            t.start()
        self._dispatch()
        self.main.acquire()
        for t in ths:
            t.join()
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        return [t.result for t in self.tasks], [t.count for t in self.tasks]

    def _dispatch(self):
        """Give the baton to the next task of the plan (or the first unfinished one)."""
        while self.at < len(self.plan):
            k, n = self.plan[self.at]
            self.at += 1
            t = self.tasks[k]
            if t.done or n <= 0:
                continue
            t.limit = t.count + n
            t.baton.release()
            return
        for t in self.tasks:
            if not t.done:
                t.limit = None
                t.baton.release()
                return
        self.main.release()

    def _body(self, task):
        task.baton.acquire()

        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                task.count += 1
                if task.limit is not None and task.count >= task.limit:
                    self.switches += 1
                    self._dispatch()
                    task.baton.acquire()
            return local

        root = ROOT

        def tracer(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(root):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        sys.settrace(tracer)
        try:
            task.result = task.fn()
        except BaseException as e:  # noqa
            task.error = e
        finally:
            sys.settrace(None)
            task.done = True
            self._dispatch()
