"""A controlled scheduler: every thread of the code under test runs one at a
time, and every line of the chosen source files (and every sleep, join, wait
and write) is a point at which a Chooser decides who runs next.

Switching away from a thread that could go on costs one deviation, so
`explore(..., bound=k)` enumerates all schedules with at most k preemptions.
A sleeping or waiting thread gives way for free."""
import sys
import threading
import time

RealThread, RealEvent, RealLock, RealRLock = threading.Thread, threading.Event, threading.Lock, threading.RLock
real_time, real_sleep = time.time, time.sleep


class Stuck(BaseException):
    """Deadlock, or no end within the allowed number of points."""


class Abandon(BaseException):
    """Ends threads left over when an execution is given up."""


class T(object):
    def __init__(self, name):
        self.name, self.sem, self.cond, self.done, self.asleep = name, threading.Semaphore(0), None, False, False
        self.error = None


class Sched(object):
    current_sched = None

    def __init__(self, chooser, files=(), opcodes=False, limit=20000, step=0.1):
        self.ch, self.files, self.opcodes, self.limit, self.dt = chooser, tuple(files), opcodes, limit, step
        self.main = T('main')
        self.threads = [self.main]
        self.running = self.main
        self.local = threading.local()
        self.local.t = self.main
        self.points = 0
        self.streak = 0
        self.dead = False
        self.clock = 1000.0
        self.inpoint = False

    # ---- the points
    def enabled(self):
        return [t for t in self.threads if not t.done and (t.cond is None or t.cond())]

    def me(self):
        return getattr(self.local, 't', None)

    def point(self, give_way=False):
        me = self.me()
        if me is None:
            return
        if self.dead:
            if me is not self.main:
                raise Abandon()
            return
        self.points += 1
        if self.points > self.limit:
            self.stop()
        self.streak += 1
        en = self.enabled()
        if not en:
            self.stop()
        can = me in en
        others = [t for t in en if t is not me]
        if not others:
            return
        if give_way or not can or self.streak > 2000:
            order = others + ([me] if can else [])
            # coming back at once instead of letting the others run is a deviation
            to = self.ch.pick(order) if len(order) > 1 else order[0]
        else:
            to = self.ch.pick([me] + others)
        if to is not me:
            self.switch(to)

    def stop(self):
        self.dead = True
        me = self.me()
        if me is self.main:
            raise Stuck('deadlock or endless execution')
        self.main.sem.release()
        raise Abandon()

    def switch(self, to):
        me = self.me()
        self.streak = 0
        self.running = to
        to.sem.release()
        me.sem.acquire()
        if self.dead:
            if me is self.main:
                raise Stuck('deadlock or endless execution')
            raise Abandon()

    def block(self, cond):
        me = self.me()
        if cond():
            return
        me.cond = cond
        try:
            self.point()
        finally:
            me.cond = None

    def sleep(self, seconds=0):
        self.clock += self.dt
        self.point(give_way=True)

    def time(self):
        self.clock += self.dt / 100
        return self.clock

    def ended(self, me):
        me.done = True
        if self.dead:
            return
        en = self.enabled()
        if not en:
            self.dead = True
            self.main.sem.release()
            return
        to = en[0] if len(en) == 1 else self.ch.all(en)
        self.streak = 0
        self.running = to
        to.sem.release()

    # ---- tracing
    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        for x in self.files:
            if f.endswith(x):
                break
        else:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.ltrace

    def ltrace(self, frame, event, arg):
        if event == ('opcode' if self.opcodes else 'line'):
            self.point()
        return self.ltrace

    # ---- running
    def run(self, fn):
        """fn() as the main thread; afterwards all other threads are let go on
        until they end or only sleep.  Returns (value, exception)."""
        Sched.current_sched = self
        val = exc = None
        sys.settrace(self.trace)
        try:
            try:
                val = fn()
            except Exception as e:
                exc = e
        finally:
            sys.settrace(None)
        return val, exc

    def drain(self, rounds=3):
        """Let the others run for some rounds; True if they have all ended."""
        for n in range(rounds):
            others = [t for t in self.enabled() if t is not self.main]
            for t in others:
                if not t.done:
                    self.switch(t) if t.cond is None or t.cond() else None
        return all(t.done for t in self.threads if t is not self.main)

    def close(self):
        self.dead = True
        for t in self.threads:
            if t is not self.main and not t.done:
                t.sem.release()
        for t in self.threads:
            th = getattr(t, 'thread', None)
            if th is not None:
                RealThread.join(th, 5)
        Sched.current_sched = None


class Thread(RealThread):
    def start(self):
        s = Sched.current_sched
        if s is None or s.me() is None:
            return RealThread.start(self)
        self._mc = t = T(self.name)
        t.thread = self
        tr = sys.gettrace()
        sys.settrace(None)
        RealThread.start(self)
        sys.settrace(tr)
        s.threads.append(t)
        s.point()

    def run(self):
        t = getattr(self, '_mc', None)
        s = Sched.current_sched
        if t is None:
            return RealThread.run(self)
        t.sem.acquire()
        s.local.t = t
        try:
            if s.dead:
                return
            sys.settrace(s.trace)
            try:
                RealThread.run(self)
            except Abandon:
                pass
            except BaseException as e:
                t.error = e
        finally:
            sys.settrace(None)
            s.ended(t)

    def join(self, timeout=None):
        t = getattr(self, '_mc', None)
        s = Sched.current_sched
        if t is None or s is None or s.me() is None:
            return RealThread.join(self, timeout)
        if s.me() is t:
            raise RuntimeError("cannot join current thread")
        if timeout is None:
            s.block(lambda: t.done or s.dead)
        elif not t.done:
            s.point(give_way=True)
        if t.done:
            tr = sys.gettrace()
            sys.settrace(None)
            RealThread.join(self)
            sys.settrace(tr)

    def is_alive(self):
        t = getattr(self, '_mc', None)
        return RealThread.is_alive(self) if t is None else not t.done


class Event(object):
    def __init__(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True
        point()

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        s = Sched.current_sched
        if self.flag or s is None:
            return self.flag
        if timeout is None:
            s.block(lambda: self.flag)
        else:
            s.sleep(timeout)
        return self.flag


class Lock(object):
    def __init__(self):
        self.owner, self.n, self.again = None, 0, False

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current_sched
        me = s.me() if s else 'none'
        point()
        if self.owner is not None and not (self.again and self.owner is me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                s.sleep(timeout)
                if self.owner is not None:
                    return False
            else:
                s.block(lambda: self.owner is None)
        self.owner = me
        self.n += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.n -= 1
        if self.n == 0:
            self.owner = None
        point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def RLock():
    l = Lock()
    l.again = True
    return l


def point():
    s = Sched.current_sched
    if s is not None:
        s.point()


class _Threading(object):
    Thread, Event, Lock = Thread, Event, Lock
    RLock = staticmethod(RLock)

    def __getattr__(self, k):
        return getattr(threading, k)


class _Time(object):
    @staticmethod
    def sleep(x):
        s = Sched.current_sched
        return s.sleep(x) if s is not None and s.me() is not None else real_sleep(x)

    @staticmethod
    def time():
        s = Sched.current_sched
        return s.time() if s is not None and s.me() is not None else real_time()

    monotonic = perf_counter = time

    def __getattr__(self, k):
        return getattr(time, k)


THREADING, TIME = _Threading(), _Time()


def install(prefix='metaknowledge'):
    """Replace what the modules of the package know of threading and time."""
    swap = {id(threading): THREADING, id(time): TIME, id(RealThread): Thread, id(RealEvent): Event,
            id(RealLock): Lock, id(RealRLock): RLock, id(real_time): TIME.time, id(real_sleep): TIME.sleep}
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith(prefix):
            for k, v in list(vars(m).items()):
                if id(v) in swap:
                    setattr(m, k, swap[id(v)])
