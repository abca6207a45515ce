"""A controlled scheduler: runs operations on real threads, one at a time, switching exactly where a schedule says.

Every opcode of the library's own code that reads or writes something that may be shared is an event of
its thread (sys.settrace with f_trace_opcodes).  A schedule is a list of segments (thread, n): the
thread runs until it is about to execute its event number n, then the next segment's thread
continues; None runs a thread to its end.  Exactly one thread runs at any time, so an execution is determined by its schedule.
"""
import collections
import dis
import os
import sys
import threading
import types

WRITES = {'STORE_ATTR', 'STORE_GLOBAL', 'DELETE_ATTR', 'DELETE_GLOBAL'}
NAMED_READS = {'LOAD_ATTR', 'LOAD_GLOBAL', 'LOAD_METHOD', 'LOOKUP_METHOD', 'LOAD_NAME'}
MUTATORS = {'append', 'add', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'extend', 'insert', 'remove', 'discard', '__setattr__', 'move_to_end', 'sort',
            'subtract', 'appendleft', 'popleft', 'intersection_update', 'difference_update'}
ACCESSORS = {'getattr', 'setattr', 'hasattr', 'delattr', '__dict__', 'globals', 'vars'}
MUTABLE = (dict, list, set, bytearray, collections.deque)
NOTHING, READ, WRITE = 0, 1, 2


def _codes(code, seen):
    if code in seen:
        return
    seen.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes(c, seen)


def package_codes(root):
    """The code objects of all loaded functions of the package, recursively."""
    seen = set()
    for name, mod in list(sys.modules.items()):
        f = getattr(mod, '__file__', None)
        if f and os.path.realpath(f).startswith(root):
            with open(f, 'rb') as src:
                _codes(compile(src.read(), f, 'exec'), seen)
    return seen


def shared_stores(code):
    """The offsets of the stores and deletions of attributes and globals, except for the initialisation of a constructor's own object."""
    out = {}
    before = None
    for ins in dis.get_instructions(code):
        own = (code.co_name == '__init__' and ins.opname == 'STORE_ATTR' and before is not None
               and before.opname == 'LOAD_FAST' and code.co_varnames[:1] == (before.argval,))
        if ins.opname in WRITES and not own:
            out[ins.offset] = ins.argval
        before = ins
    return out


def racy_names(root, objects=()):
    """Names of attributes and globals that are written outside constructors, or hold mutable containers."""
    names = set()
    for code in package_codes(root):
        names.update(shared_stores(code).values())
    for name, mod in list(sys.modules.items()):
        f = getattr(mod, '__file__', None)
        if f and os.path.realpath(f).startswith(root):
            for holder in [mod] + [v for v in mod.__dict__.values() if isinstance(v, (type, types.FunctionType)) and v.__module__ == name]:
                names.update(k for k, v in holder.__dict__.items() if isinstance(v, MUTABLE) and not k.startswith('__'))
    for o in objects:
        names.update(k for k, v in getattr(o, '__dict__', {}).items() if isinstance(v, MUTABLE))
    return names


class Stuck(Exception):
    pass


class Worker:
    def __init__(self, sched, index):
        self.sched, self.index = sched, index
        self.go = threading.Lock()
        self.go.acquire()
        self.job = None
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()

    def main(self):
        while True:
            self.go.acquire()
            if self.job is None:
                return
            self.result, self.error = None, None
            if self.log is not None or self.stop >= 0:
                sys.settrace(self.trace)
            try:
                try:
                    self.result = self.job()
                finally:
                    sys.settrace(None)
            except BaseException as e:   # judged by the caller
                self.error = e
            self.done = True
            self.sched.switch.release()

    def trace(self, frame, event, arg):
        if self.sched.kinds(frame.f_code) is None:
            return None
        if self.sched.lines:
            return self.local
        frame.f_trace_lines = False
        frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == 'opcode':
            k = self.sched.known[frame.f_code].get(frame.f_lasti, NOTHING)
        else:
            k = WRITE if event == 'line' else NOTHING
        if k:
            n = self.count
            self.count = n + 1
            if self.log is not None:
                self.log.append(k)
            if n == self.stop:
                self.paused = True
                self.sched.switch.release()
                self.go.acquire()
                if self.log is None and self.stop <= n:
                    sys.settrace(None)      # no further pause: run at full speed
        return self.local


class Scheduler:
    """Runs jobs under schedules; create one per process."""
    def __init__(self, root, threads=2, objects=()):
        self.root = os.path.realpath(root) + os.sep
        self.known = {}
        self.lines = False       # events are lines instead of opcodes
        self.racy = racy_names(self.root, objects)
        self.switch = threading.Lock()
        self.switch.acquire()
        self.workers = [Worker(self, i) for i in range(threads)]

    def set_lines(self, lines):
        if lines != self.lines:
            self.lines = lines
            self.known.clear()

    def kinds(self, code):
        """Per opcode offset: READ or WRITE of something that may be shared; None: nothing of interest."""
        r = self.known.get(code, self)
        if r is self:
            r = None
            if os.path.realpath(code.co_filename).startswith(self.root):
                r = {}
                stores = shared_stores(code)
                for ins in dis.get_instructions(code):
                    op, arg = ins.opname, ins.argval
                    if op in WRITES:
                        if ins.offset in stores:
                            r[ins.offset] = WRITE
                    elif op in ('STORE_SUBSCR', 'DELETE_SUBSCR') or op in NAMED_READS and arg in MUTATORS:
                        r[ins.offset] = WRITE
                    elif op in NAMED_READS and (arg in self.racy or arg in ACCESSORS):
                        r[ins.offset] = READ
            if not r and not self.lines:
                r = None
            self.known[code] = r
        return r

    def run(self, jobs, schedule, log=False):
        """Run the jobs under the schedule [(thread, stop or None), ...]; returns [(result, error)].

        ``stop`` is the number of the event before which the thread pauses.  Threads that the
        schedule leaves unfinished are run to their end in order."""
        for w, job in zip(self.workers, jobs):
            w.job, w.count, w.stop, w.done, w.paused = job, 0, -1, False, False
            w.log = [] if log else None
        for i, n in list(schedule) + [(i, None) for i in range(len(jobs))]:
            w = self.workers[i]
            if w.done or (n is not None and w.count > n):
                continue
            w.stop = -1 if n is None else n
            w.go.release()
            if not self.switch.acquire(timeout=60):
                raise Stuck('thread {} does not finish'.format(i))
        return [(w.result, w.error) for w in self.workers[:len(jobs)]]

    def explore(self, make, judge, bound, symmetric=False):
        """All schedules of two threads with at most ``bound`` preemptions (the threads' events are
        visible operations; after a later preemption only positions behind a write are distinct).

        make() -> (jobs, data); judge(results, data, schedule).  Returns the number of schedules."""
        n = 0
        for first in (0,) if symmetric else (0, 1):       # symmetric: both threads do the same with the same objects
            other = 1 - first
            i = 0
            while True:
                jobs, data = make()
                schedule = [(first, i), (other, None)]
                judge(self.run(jobs, schedule, log=bound > 1), data, schedule)
                n += 1
                a, b = self.workers[first], self.workers[other]
                if not a.paused:
                    break
                if bound > 1:
                    stops = [j + 1 for j, k in enumerate(b.log) if k == WRITE and j + 1 < len(b.log)]
                    for j in stops:
                        jobs, data = make()
                        schedule = [(first, i), (other, j), (first, None)]
                        judge(self.run(jobs, schedule, log=bound > 2), data, schedule)
                        n += 1
                        if bound > 2:
                            for m in [m + 1 for m, k in enumerate(a.log) if k == WRITE and i <= m and m + 1 < len(a.log)]:
                                jobs, data = make()
                                schedule = [(first, i), (other, j), (first, m), (other, None)]
                                judge(self.run(jobs, schedule), data, schedule)
                                n += 1
                i += 1
        return n


# -- module state -------------------------------------------------------------------------------------
CONTAINERS = (dict, list, set)


def _holders(package):
    import types
    for name, mod in sorted(sys.modules.items()):
        if mod is not None and (name == package or name.startswith(package + '.')):
            yield mod, mod.__dict__
            for v in list(mod.__dict__.values()):
                if isinstance(v, type) and (v.__module__ or '').startswith(package):
                    yield v, v.__dict__
                    for f in list(v.__dict__.values()):
                        f = getattr(f, '__func__', f)
                        if isinstance(f, types.FunctionType):
                            yield f, f.__dict__
                elif isinstance(v, types.FunctionType) and (v.__module__ or '').startswith(package):
                    yield v, v.__dict__


class ModuleState:
    """The state of the package's modules, classes and functions: restored before every execution."""
    def __init__(self, package):
        self.package = package
        self.saved, seen = [], set()
        for holder, d in _holders(package):
            if id(holder) in seen:
                continue
            seen.add(id(holder))
            content = dict(d)
            inner = [(v, v.copy()) for k, v in content.items() if type(v) in CONTAINERS and not k.startswith('__')]
            self.saved.append((holder, content, inner))

    def changed(self):
        """The indices of the holders that are no longer as they were."""
        out = []
        for i, (holder, content, inner) in enumerate(self.saved):
            d = holder.__dict__
            if len(d) != len(content) or any(d.get(k, self) is not v for k, v in content.items()) or any(v != copy for v, copy in inner):
                out.append(i)
        return out

    def restore(self, only=None):
        for holder, content, inner in self.saved if only is None else [self.saved[i] for i in only]:
            d = holder.__dict__
            if len(d) != len(content) or any(d.get(k, self) is not v for k, v in content.items()):
                for k in list(d):
                    if k not in content:
                        delattr(holder, k)
                for k, v in content.items():
                    if d.get(k, self) is not v:
                        setattr(holder, k, v)
            for v, copy in inner:
                if v != copy:
                    if isinstance(v, list):
                        v[:] = copy
                    else:
                        v.clear()
                        v.update(copy)
