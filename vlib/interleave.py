"""Deterministic interleaving of threads inside the code under test.

Only one thread runs at a time.  Every line of the library it executes is a
scheduling point, or every bytecode instruction; the schedule, a list of run
lengths in points, says after how many of them the next thread continues.  When it is used up the threads run to
their ends one after another.
"""
import os
import sys
import threading

from . import sut

PREFIX = sut.REPO + os.sep


class Scheduler:
    def __init__(self, n, schedule):
        self.cond = threading.Condition()
        self.live = list(range(n))
        self.turn = 0
        self.schedule = iter(schedule)
        self.left = next(self.schedule, None)
        self.switches = 0
        self.clock = 0

    def wait(self, me):
        """(with cond held) until it is our turn.  A thread which holds the
        turn but waits for something else, a lock say, loses it."""
        while self.turn != me:
            seen = self.clock
            if not self.cond.wait(.25) and seen == self.clock \
                    and self.turn != me:
                self.turn = me

    def start(self, me):
        with self.cond:
            self.wait(me)

    def point(self, me):
        self.clock += 1
        if self.left is None:
            if self.turn != me:
                with self.cond:
                    self.wait(me)
            return
        with self.cond:
            self.wait(me)
            self.left -= 1
            if self.left > 0:
                return
            self.left = next(self.schedule, None)
            if len(self.live) > 1 and self.left is not None:
                self.switches += 1
                self.turn = self.after(me)
                self.cond.notify_all()
                self.wait(me)

    def after(self, me):
        later = [t for t in self.live if t > me]
        return later[0] if later else self.live[0]

    def finish(self, me):
        with self.cond:
            self.clock += 1
            if self.turn == me:
                self.turn = self.after(me)
            self.live.remove(me)
            self.cond.notify_all()


def run(jobs, schedule, fine=False):
    """([result or exception of each job], number of switches)"""
    s = Scheduler(len(jobs), schedule)
    unit = 'opcode' if fine else 'line'
    out = [None] * len(jobs)

    def body(me):
        def local(frame, event, arg):
            if event == unit:
                s.point(me)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(PREFIX):
                frame.f_trace_opcodes = fine
                s.point(me)
                return local

        s.start(me)
        sys.settrace(trace)
        try:
            out[me] = (True, jobs[me]())
        except BaseException as e:
            out[me] = (False, e)
        finally:
            sys.settrace(None)
            s.finish(me)

    threads = [threading.Thread(target=body, args=(i,), daemon=True)
               for i in range(len(jobs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return out, s.switches


def points(job, fine=False):
    """Number of scheduling points of a job."""
    s = Scheduler(1, [])
    unit = 'opcode' if fine else 'line'

    def local(frame, event, arg):
        if event == unit:
            s.clock += 1
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            frame.f_trace_opcodes = fine
            s.clock += 1
            return local
    old = sys.gettrace()
    sys.settrace(trace)
    try:
        job()
    finally:
        sys.settrace(old)
    return s.clock
