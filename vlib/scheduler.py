"""Controlled scheduler of threads.

Threads are real ones, but only one of them runs at a time: each line (or
instruction) of the library is a point at which the thread may be preempted,
locks created by the library hand control over instead of blocking."""
import _thread
import os
import queue
import sys
import threading

_real_lock, _real_reentrant_lock = _thread.allocate_lock, _thread.RLock
STEP_TIMEOUT, TOTAL_TIMEOUT = 3., 60.
UNLIMITED = 1 << 60
_active = None


def _is_created_by_library(depth=4):
    frame = sys._getframe(2)
    while frame is not None and depth:
        if frame.f_globals.get('__name__', '').startswith('paradigm'):
            return True
        frame, depth = frame.f_back, depth - 1
    return False


def current():
    """Controlled thread being run."""
    scheduler = _active
    if scheduler is None or scheduler.pid != os.getpid():
        # forks are not controlled
        return None
    return scheduler.threads.get(_thread.get_ident())


class Lock:
    """Behaves as an ordinary one when there is nothing to schedule."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        thread = current()
        if thread is None:
            return self._real.acquire(blocking, timeout)
        while True:
            if self._real.acquire(False):
                return True
            elif not blocking:
                return False
            thread.hand_over('blocked', self)
            if timeout >= 0:
                return self._real.acquire(False)

    def release(self):
        self._real.release()
        thread = current()
        if thread is not None:
            thread.scheduler.released(thread, self)

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()

    def __getattr__(self, name):
        return getattr(self._real, name)


def install():
    """Locks created by the library from now on are controlled ones."""

    def to_lock(*args, **kwargs):
        result = _real_lock(*args, **kwargs)
        return Lock(result) if _is_created_by_library() else result

    def to_reentrant_lock(*args, **kwargs):
        result = _real_reentrant_lock(*args, **kwargs)
        return Lock(result) if _is_created_by_library() else result

    _thread.allocate_lock = threading.Lock = to_lock
    threading._allocate_lock = to_lock
    _thread.RLock = threading.RLock = to_reentrant_lock
    threading._CRLock = to_reentrant_lock


class Thread:
    def __init__(self, scheduler, index, function):
        self.scheduler, self.index = scheduler, index
        self.function = function
        self.steps, self.limit = 0, UNLIMITED
        self.status, self.lock, self.result = 'ready', None, None
        self.wake = _real_lock()
        self.wake.acquire()
        self.locations = []
        self.is_free = False

    def hand_over(self, reason, lock=None):
        self.lock = lock
        self.scheduler.events.put((self, reason))
        self.wake.acquire()

    def start(self):
        _thread.start_new_thread(self.run, ())

    def run(self):
        self.scheduler.threads[_thread.get_ident()] = self
        self.wake.acquire()
        if not self.is_free:
            sys.settrace(self.trace)
        try:
            self.result = self.function()
        except BaseException as error:
            self.result = f'fails with {type(error).__name__}: {error}'
        sys.settrace(None)
        self.scheduler.events.put((self, 'finished'))

    def trace(self, frame, event, argument):
        if self.is_free:
            sys.settrace(None)
            return None
        if self.scheduler.is_traced(frame.f_code.co_filename):
            if self.scheduler.instructions:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self.trace_step

    def trace_step(self, frame, event, argument):
        if self.is_free:
            sys.settrace(None)
            return None
        if event == 'line' or event == 'opcode':
            if self.scheduler.recording:
                self.locations.append((frame.f_code.co_filename,
                                       frame.f_lineno, frame.f_lasti))
            self.steps += 1
            if (self.steps >= self.limit
                    and self.scheduler.pid == os.getpid()):
                self.hand_over('preempted')
        return self.trace_step


class Scheduler:
    def __init__(self, functions, schedule, is_traced, *, eager=False,
                 instructions=False, recording=False):
        """
        schedule: [(index of the thread, number of steps to make)],
        afterwards threads run one after another; with `eager` set threads
        waiting for a lock are resumed right after its release.
        """
        self.pid = os.getpid()
        self.events = queue.SimpleQueue()
        self.threads = {}
        self.is_traced, self.eager = is_traced, eager
        self.instructions, self.recording = instructions, recording
        self.schedule = schedule
        self.all = [Thread(self, index, function)
                    for index, function in enumerate(functions)]
        self.blocks = 0

    def released(self, thread, lock):
        waiting = [other for other in self.all
                   if other.status == 'blocked' and other.lock is lock]
        for other in waiting:
            other.status = 'ready'
        if waiting and self.eager:
            thread.hand_over('released')

    def resume(self, thread, steps, pending):
        if not self.recording and steps == UNLIMITED and not any(
                index == thread.index for index, _ in pending):
            # won't be preempted
            thread.is_free = True
        thread.limit = thread.steps + steps
        thread.status = 'running'
        thread.wake.release()

    def wait(self, thread):
        """Whether the thread has handed control over."""
        left = STEP_TIMEOUT
        while True:
            try:
                other, reason = self.events.get(timeout=left)
            except queue.Empty:
                # is blocked by something else
                thread.status, thread.limit = 'lost', UNLIMITED
                return 'lost'
            other.status = {'blocked': 'blocked',
                            'finished': 'finished'}.get(reason, 'ready')
            if reason == 'blocked':
                self.blocks += 1
                # may have been released meanwhile
                if not other.lock._real.acquire(False):
                    pass
                else:
                    other.lock._real.release()
                    other.status = 'ready'
            if other is thread:
                return reason

    def run(self):
        """Error message, if any."""
        global _active
        _active = self
        try:
            for thread in self.all:
                thread.start()
            pending = list(self.schedule)
            last = None
            idle = 0.
            while True:
                unfinished = [thread for thread in self.all
                              if thread.status != 'finished']
                if not unfinished:
                    return None
                ready = [thread for thread in unfinished
                         if thread.status == 'ready']
                if not ready:
                    lost = [thread for thread in unfinished
                            if thread.status == 'lost']
                    if not lost:
                        return 'deadlock'
                    reason = self.wait(lost[0])
                    if reason == 'lost':
                        idle += STEP_TIMEOUT
                        if idle >= TOTAL_TIMEOUT:
                            return 'threads do not finish'
                    continue
                steps = UNLIMITED
                thread = None
                while pending and thread is None:
                    index, steps = pending.pop(0)
                    if self.all[index] in ready:
                        thread = self.all[index]
                if thread is None:
                    steps = UNLIMITED
                    # the one which was waiting
                    others = [other for other in ready if other is not last]
                    thread = (others or ready)[0]
                self.resume(thread, steps, pending)
                self.wait(thread)
                last = thread
        finally:
            _active = None
