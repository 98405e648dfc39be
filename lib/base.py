"""Exploration bookkeeping, sharding over processes, evidence, violations, known findings."""
import os, sys, json, signal, traceback, hashlib, pickle, argparse, itertools
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from lib import env
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
NPROC = int(os.environ.get('VERIF_PROCS', '8'))
CASE_LIMIT_S = 120


class NonTermination(Exception):
    pass


def _alarm(signum, frame):
    raise NonTermination('execution did not finish within %d s' % CASE_LIMIT_S)


def h64(obj):
    return hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'), digest_size=8).digest()


class Stats(object):
    """Counters of one worker; mergeable."""

    def __init__(self):
        self.executions = 0      # complete executions of the real code compared with the oracle
        self.transitions = 0     # steps (operations, inputs, scheduling choices) executed
        self.states = set()      # hashes of distinct states / distinct inputs reached
        self.outcomes = {}       # outcome class -> count (shows the runs are not vacuous)
        self.violations = []     # (key, what, case)
        self.samples = []
        self.notes = {}

    def state(self, obj):
        self.states.add(h64(obj))
        if self.executions & 15 == 0:
            signal.alarm(CASE_LIMIT_S)      # progress: the limit is per execution, not per group of executions

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def sample(self, obj, every=997):
        if len(self.samples) < 3 and (self.executions % every == 1 or not self.samples):
            self.samples.append(obj)

    def violation(self, key, what, case=None):
        if len(self.violations) < 400:
            self.violations.append((key, what, case))

    def merge(self, o):
        self.executions += o.executions
        self.transitions += o.transitions
        self.states |= o.states
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.violations += o.violations
        self.samples = (self.samples + o.samples)[:6]
        self.notes.update(o.notes)


class Ctx(object):
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.quick = tier == 'quick'
        self.stats = Stats()
        self.bounds = {}
        self.assumptions = []
        self.rule = ''

    # -- running cases -------------------------------------------------
    def run(self, cases, fn, shards=None, key=None):
        """Run fn(case, stats) for every case of the iterable, sharded over processes.

        `cases` is a callable returning a fresh iterator (every shard enumerates it and
        takes its share), so nothing big has to be pickled.
        """
        n = shards or NPROC
        if self.only is not None or n == 1:
            st = self._shard(cases, fn, 0, 1, key)
            self.stats.merge(st)
            return
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        st = self._shard(cases, fn, i, n, key)
                    except BaseException:
                        st = Stats()
                        st.violation('shard', 'exploration aborted: ' + traceback.format_exc()[-1500:], None)
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(st, f)
                except BaseException:
                    code = 3
                os._exit(code)
            os.close(w)
            pids.append((pid, r))
        for pid, r in pids:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                self.stats.merge(pickle.loads(data))
            except Exception:
                self.stats.violation('shard', 'a worker process died', None)

    def _shard(self, cases, fn, i, n, key):
        st = Stats()
        signal.signal(signal.SIGALRM, _alarm)
        for idx, case in enumerate(cases()):
            if idx % n != i:
                continue
            k = key(case) if key else repr(case)
            if self.only is not None and not (k.startswith(self.only) or self.only.startswith(k)):
                continue
            signal.alarm(CASE_LIMIT_S)
            try:
                fn(case, st)
            except Exception as e:
                tb = traceback.format_exc()
                st.violation(k, 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]),
                             {'case': k, 'traceback': tb[-2500:]})
            finally:
                signal.alarm(0)
            if len(st.violations) > 60:
                break
        return st


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                assert rest.startswith('key=')
                k, _, what = rest[4:].partition(' ')
                out.append((k, what))
    return out


def main(pid, mod):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None, help='run only cases whose key starts with this')
    ap.add_argument('--replay', default=None, help='replay file of a violation')
    a = ap.parse_args(sys.argv[2:])
    only = a.only
    if a.replay:
        only = json.load(open(a.replay))['key']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    ctx = Ctx(pid, tier, seed, only)
    t0 = env.REAL_TIME()
    env.reset(seed)
    try:
        mod.check(ctx)
    except Exception as e:
        ctx.stats.violation('setup', 'exploration aborted: %s' % traceback.format_exc()[-2500:], None)
    st = ctx.stats
    known = load_known(pid)
    reported, seen_known, nviol = [], {}, 0
    for key, what, case in st.violations:
        hit = [kw for kw in known if key.startswith(kw[0])]
        if hit:
            seen_known[hit[0]] = seen_known.get(hit[0], 0) + 1
            continue
        nviol += 1
        if len(reported) < 5:
            reported.append((key, what, case))
    for (k, what) in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s [%s]' % (pid, what, k))
    wall = env.REAL_TIME() - t0
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {
            'states': len(st.states), 'transitions': st.transitions,
            'traces_validated_against_impl': st.executions,
            'rule': mod.RULE, 'exhaustive': only is None,
            'bounds': ctx.bounds, 'outcomes': st.outcomes, 'notes': st.notes,
            'samples': st.samples or ['(none)'],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    if mod.LEVEL in ('fault_enumeration', 'exploration'):
        c = ev['coverage']
        c['evaluations'] = c.pop('traces_validated_against_impl')
        c['distinct_nontrivial'] = c.pop('states')
    try:
        os.makedirs(EVID, exist_ok=True)
        if only is None:
            with open(os.path.join(EVID, pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=repr)
                f.write('\n')
    except OSError as e:
        print('cannot write evidence: %s' % e)
    print('%s tier=%s states=%d transitions=%d executions=%d wall=%.1fs outcomes=%s' % (
        pid, tier, len(st.states), st.transitions, st.executions, wall, json.dumps(st.outcomes, sort_keys=True)[:600]))
    for n, (key, what, case) in enumerate(reported):
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (pid, n))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'key': key, 'what': what, 'case': case,
                       'rerun': 'cd /verif && ./run %s --replay %s' % (pid, path)}, f, indent=1, default=repr)
        print('  %s: %s' % (key[:300], what[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if nviol:
        print('%d violating executions' % nviol)
        return 1
    return 0
