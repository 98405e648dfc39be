"""Stateless exploration of thread interleavings at hook points (deterministic re-execution, DFS over choices)."""
import threading
from lib import fsys

_tls = threading.local()


ALL = frozenset([('all', '', '')])          # depends on everything
LOCAL = frozenset([('all', '', 'none')])    # depends on nothing


class Stuck(Exception):
    pass


CREATE = ('mkdir', 'unlink', 'remove', 'rmdir', 'mkfifo', 'mknod', 'symlink')
READS = ('stat', 'lstat', 'access', 'readlink', 'file.read', 'read', 'pread')


def footprint(name, args):
    """The marks of a file system call (see conflict)."""
    import os
    p = args[0] if args else ''
    if not isinstance(p, str):
        return ALL
    d = os.path.dirname(p)
    if name in CREATE:
        return frozenset([('path', p, 'w'), ('dir', d, 'c')])
    if name in ('rename', 'replace', 'link'):
        q = args[1]
        return frozenset([('path', p, 'w'), ('dir', d, 'c'), ('path', q, 'w'), ('dir', os.path.dirname(q), 'c')])
    if name in ('listdir', 'scandir'):
        return frozenset([('dir', p, 'r'), ('path', p, 'r')])
    if name in READS:
        return frozenset([('path', p, 'r'), ('dir', p, 'r')])
    if name == 'open':
        if args[1] & os.O_CREAT:
            return frozenset([('path', p, 'w'), ('dir', d, 'c')])
        return frozenset([('path', p, 'w' if args[1] & (os.O_TRUNC | os.O_WRONLY | os.O_RDWR) else 'r')])
    if name == 'file.open':
        if 'r' in args[1] and '+' not in args[1]:
            return frozenset([('path', p, 'r')])
        return frozenset([('path', p, 'w'), ('dir', d, 'c')])
    return frozenset([('path', p, 'w')])


class Task(object):
    def __init__(self, n, fn):
        self.n, self.fn = n, fn
        self.go = threading.Semaphore(0)
        self.done = False
        self.blocked = False
        self.error = None
        self.pending = frozenset([('rt', '', 'begin')])


class Scheduler(object):
    """Runs the tasks so that between two hook points exactly one of them runs."""

    def __init__(self, fns, choose, max_steps=2000):
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.back = threading.Semaphore(0)
        self.choose = choose
        self.trace = []
        self.steps = 0
        self.max_steps = max_steps

    def point(self, name, blocked=False, marks=ALL):
        """Called by a task: give control back and wait to be chosen. marks: what the coming action depends on."""
        t = _tls.task
        t.pending = marks
        self.trace.append((t.n, name))
        t.blocked = blocked
        self.back.release()
        t.go.acquire()
        t.blocked = False

    def _body(self, t):
        _tls.task = t
        t.go.acquire()
        try:
            t.fn(self)
        except BaseException as e:
            t.error = e
        t.done = True
        fsys.set_hook(None)
        self.back.release()

    def run(self):
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        for th in ths:
            th.start()
        cur = None
        while True:
            live = [t.n for t in self.tasks if not t.done]
            if not live:
                break
            free = [n for n in live if not self.tasks[n].blocked] or live
            self.steps += 1
            if self.steps > self.max_steps:
                raise Stuck('no progress after %d steps' % self.steps)
            cur = self.choose(free, cur)
            self.tasks[cur].go.release()
            self.back.acquire()
        for th in ths:
            th.join()


def conflict(a, b):
    """Do two pending actions depend on each other? An action is a set of (space, name, kind) marks."""
    for (sa, na, ka) in a:
        for (sb, nb, kb) in b:
            if sa == 'all' or sb == 'all':
                if (sa, ka) != ('all', 'none') and (sb, kb) != ('all', 'none'):
                    return True
                continue
            if sa != sb:
                continue
            if sa == 'rt':                      # begin / end of an operation: real-time order matters
                if ka != kb:
                    return True
            elif sa == 'dir':
                if na == nb and ka != kb:       # listing against creating/removing an entry
                    return True
            elif sa == 'path':
                if 'w' in (ka, kb) and (na == nb or na.startswith(nb + '/') or nb.startswith(na + '/')):
                    return True
    return False


def explore(make, check, bound=None, limit=None, reduce=True):
    """DFS over all schedules with sleep sets. make() -> list of task functions (fresh world); check(schedule, scheduler)
    after each execution. bound: maximum number of preemptions (None = all interleavings; reduction only then).
    Returns (schedules checked, redundant schedules cut, steps, complete)."""
    reduce = reduce and bound is None
    stack = [((), frozenset())]
    schedules = cut = steps = 0
    while stack:
        prefix, start_sleep = stack.pop()
        taken, nodes = [], []
        dead = [False]
        sleep = [frozenset()]
        holder = []

        def choose(free, cur):
            i = len(taken)
            if i == len(prefix):
                sleep[0] = start_sleep
            sl = sleep[0] if i >= len(prefix) else frozenset()
            if i < len(prefix):
                c = prefix[i]
                if c not in free:
                    c = free[0]
            else:
                cand = [t for t in free if t not in sl]
                if not cand:
                    dead[0] = True
                    cand = free
                c = cur if cur in cand else cand[0]
            act = {t: holder[0].tasks[t].pending for t in free}
            taken.append(c)
            nodes.append((tuple(free), cur, sl, act, dead[0]))
            if i >= len(prefix) and reduce:
                sleep[0] = frozenset(t for t in sl if t != c and not conflict(act.get(t, ALL), act[c]))
            return c
        fns = make()
        s = Scheduler(fns, choose)
        holder.append(s)
        s.run()
        steps += s.steps
        if dead[0]:
            cut += 1
        else:
            schedules += 1
            check(tuple(taken), s)
        pre = 0
        for i, c in enumerate(taken):
            free, cur, sl, act, isdead = nodes[i]
            if isdead:
                break
            if i >= len(prefix):
                done = set(sl) | {c}
                for a in free:
                    if a in done:
                        continue
                    p = pre + (1 if cur in free and a != cur else 0)
                    if bound is None or p <= bound:
                        child = frozenset(t for t in done if not conflict(act.get(t, ALL), act[a])) if reduce else frozenset()
                        stack.append((tuple(taken[:i]) + (a,), child))
                    if reduce:
                        done.add(a)
            if cur in free and c != cur:
                pre += 1
        if limit and schedules + cut >= limit and stack:
            return schedules, cut, steps, False
    return schedules, cut, steps, True
