"""Runs pieces of work in threads, under a schedule which a seed decides.

Threads take turns: the one whose turn it is runs until a *point* - a line (or
an instruction) of the library which it is about to execute - where the
schedule passes the turn to another, and when it waits for a lock of the
library which another holds.  A thread which makes no progress for some other
reason loses its turn after some milliseconds, so the schedule can't itself
cause a deadlock.

Every schedule is one which threads could have, so whatever is seen happens.
"""
import hashlib
import os
import random
import sys
import threading
import time
import zlib

import normalize

LIB = os.path.dirname(os.path.realpath(normalize.__file__)) + os.sep
PATIENCE = .004


def ours(filename):
    return os.path.realpath(filename).startswith(LIB)


class Turns(object):
    def __init__(self, n, rng, style):
        self.n = n
        self.rng = rng
        self.style = style
        self.opcodes = style.get("opcodes", False)
        self.p = style.get("p", 0)
        self.gap = style.get("gap")
        self.left = self.gap and 1 + int(rng.expovariate(1.0 / self.gap))
        self.places = style.get("places")
        self.salt = style.get("salt", 0)
        self.few = style.get("switches")
        self.live = list(range(n))
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.turn = 0
        self.points = 0
        self.switches = 0
        self.stolen = 0
        self.hash = hashlib.md5()
        self.files = {}
        self.local = threading.local()
        self.blocks = 0
        self.taken = 0

    def tracer(self, me):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line"):
                self.point(me, frame)
            return local

        files = self.files

        def enter(frame, event, arg):
            name = frame.f_code.co_filename
            if name not in files:
                files[name] = ours(name)
            if not files[name]:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return enter

    def point(self, me, frame):
        self.points += 1
        if self.turn != me:
            self.wait(me)
            return
        if self.places:
            # (always at the same places, so threads meet there)
            code = frame.f_code
            if zlib.crc32(b"%d %d %d" % (
                    self.salt, code.co_firstlineno, frame.f_lasti)) \
                    % self.places or self.rng.random() < .3:
                return
        elif self.gap:
            self.left -= 1
            if self.left > 0:
                return
            self.left = 1 + int(self.rng.expovariate(1.0 / self.gap))
        elif self.rng.random() >= self.p:
            return
        if self.few is not None:
            if not self.few:
                return
            self.few -= 1
        others = [i for i in self.live if i != me]
        if others:
            self.hash.update(b"%d:%d:%d;" % (
                me, frame.f_lineno or 0, self.points & 0xffff))
            self.switches += 1
            self.give(self.rng.choice(others))
            self.wait(me)

    def give(self, other):
        self.turn = other
        self.sems[other].release()

    def wait(self, me):
        seen = self.points
        while self.turn != me:
            if self.sems[me].acquire(timeout=PATIENCE):
                continue
            if self.points == seen and self.turn != me:
                # whoever's turn it is waits for something
                self.stolen += 1
                self.turn = me
            seen = self.points

    def done(self, me):
        self.live.remove(me)
        if self.live and self.turn == me:
            self.give(self.rng.choice(self.live))

    def blocked(self):
        """The thread whose turn it is can't go on until another does"""
        me = self.local.me
        if self.turn == me:
            others = [i for i in self.live if i != me]
            if not others:
                return False
            self.blocks += 1
            self.give(self.rng.choice(others))
        self.wait(me)
        return True

    def body(self, me, fn, out):
        self.local.me = me
        try:
            self.wait(me)
            sys.settrace(self.tracer(me))
            try:
                out[me] = fn()
            finally:
                sys.settrace(None)
        except BaseException as e:
            out[me] = e
        finally:
            self.done(me)


LOCKS = (type(threading.Lock()), type(threading.RLock()))


class Lock(object):
    """A lock of the library's, which passes the turn on rather than wait"""
    def __init__(self, real, turns):
        self.real = real
        self.turns = turns

    def acquire(self, blocking=True, timeout=-1):
        if not blocking or timeout >= 0 or \
                not hasattr(self.turns.local, "me"):
            return self.real.acquire(blocking, timeout)
        self.turns.taken += 1
        while not self.real.acquire(False):
            if not self.turns.blocked():
                return self.real.acquire()
        return True

    def release(self):
        self.real.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def __getattr__(self, name):
        return getattr(self.real, name)


def watch_locks(turns):
    """Replaces the locks which modules and classes of the library keep"""
    for name, mod in list(sys.modules.items()):
        if mod is None or name.split(".")[0] != "normalize":
            continue
        for owner in [mod] + [x for x in vars(mod).values()
                              if isinstance(x, type)]:
            for k, v in list(vars(owner).items()):
                if isinstance(v, Lock):
                    v.turns = turns
                elif isinstance(v, LOCKS):
                    try:
                        setattr(owner, k, Lock(v, turns))
                    except (AttributeError, TypeError):
                        pass


def a_style(rng):
    r = rng.random()
    if r < .12:
        # whatever the interpreter does
        return {"free": rng.choice([1e-6, 1e-5, 1e-4])}
    style = {"opcodes": rng.random() < .3}
    many = 5 if style["opcodes"] else 1
    r = rng.random()
    if r < .3:
        style["places"] = rng.choice([4, 15, 40]) * (
            2 if style["opcodes"] else 1)
        style["salt"] = rng.getrandbits(16)
    elif r < .65:
        style["p"] = rng.choice([.5, .2, .08]) / many
    elif r < .85:
        style["gap"] = rng.choice([10, 40, 150]) * many
    else:
        style["gap"] = rng.choice([30, 150, 600]) * many
        style["switches"] = rng.choice([1, 2, 3, 5])
    return style


def join_all(ts, limit):
    """-> whether they all ended in time"""
    deadline = time.monotonic() + limit
    for t in ts:
        t.join(max(0, deadline - time.monotonic()))
    return not any(t.is_alive() for t in ts)


def run(fns, seed, style, limit):
    """-> [what each returned, or the exception it ended with], facts"""
    n = len(fns)
    out = [None] * n
    if "free" in style:
        sys.setswitchinterval(style["free"])
        gate = threading.Barrier(n)

        def body(me):
            gate.wait()
            try:
                out[me] = fns[me]()
            except BaseException as e:
                out[me] = e
        ts = [threading.Thread(target=body, args=(i,), daemon=True)
              for i in range(n)]
        for t in ts:
            t.start()
        ended = join_all(ts, limit)
        return out, {"points": 0, "switches": 0, "stolen": 0, "locks": 0,
                     "waits": 0, "schedule": "free", "ended": ended}
    turns = Turns(n, random.Random(seed), style)
    watch_locks(turns)
    ts = [threading.Thread(target=turns.body, args=(i, fns[i], out),
                           daemon=True) for i in range(n)]
    turns.turn = turns.rng.randrange(n)
    for t in ts:
        t.start()
    ended = join_all(ts, limit)
    return out, {"ended": ended, "points": turns.points, "switches": turns.switches,
                 "stolen": turns.stolen, "locks": turns.taken,
                 "waits": turns.blocks, "schedule": turns.hash.hexdigest()}


def in_child(fn, timeout):
    """Runs fn() in a process of its own; -> its (JSON) result, or None if it
    did not end in time"""
    import json
    import select
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            data = json.dumps(fn()).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.time() + timeout
    try:
        while True:
            left = deadline - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                return None
            data = os.read(r, 1 << 16)
            if not data:
                break
            chunks.append(data)
    finally:
        os.close(r)
        # (with whatever it started)
        for end in os.killpg, os.kill:
            try:
                end(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    if not chunks:
        raise RuntimeError("the child process failed")
    return json.loads(b"".join(chunks))
