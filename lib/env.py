"""Controlled environment: import this before anything from openid.

* virtual clock (time.time, gmtime, localtime, strftime, time_ns, datetime now/utcnow)
* deterministic os.urandom / random.SystemRandom
* no log output, no warnings
* the library is imported from /repo (VERIF_REPO overrides, for scratch copies)
"""
import os, sys, time, logging, warnings, hashlib, random, datetime as _dt

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

os.environ['TZ'] = 'VFY-5:45'      # local time is far from UTC (by more than the allowed skew): protocol times must not depend on it
time.tzset()

T0 = 1500000000            # virtual "now" at the start of every execution
REAL_TIME = time.time
REAL_MONO = time.monotonic
_gmtime, _localtime, _strftime = time.gmtime, time.localtime, time.strftime


class Clock(object):
    def __init__(self):
        self.now = float(T0)

    def reset(self, t=T0):
        self.now = t

    def advance(self, dt):
        self.now += dt


CLOCK = Clock()
time.time = lambda: float(CLOCK.now)
time.time_ns = lambda: int(CLOCK.now * 10**9)
time.gmtime = lambda t=None: _gmtime(CLOCK.now if t is None else t)
time.localtime = lambda t=None: _localtime(CLOCK.now if t is None else t)
time.strftime = lambda fmt, t=None: _strftime(fmt, _localtime(CLOCK.now) if t is None else t)


class _DateTime(_dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(CLOCK.now, tz)

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(CLOCK.now)


_REAL_DT = _dt.datetime
_dt.datetime = _DateTime

_rnd = {'seed': b'0', 'n': 0}
REAL_URANDOM = os.urandom


def _urandom(n):
    out = b''
    while len(out) < n:
        _rnd['n'] += 1
        out += hashlib.sha256(_rnd['seed'] + b'|%d' % _rnd['n']).digest()
    return out[:n]


def reset_random(seed=0):
    _rnd['seed'] = str(seed).encode()
    _rnd['n'] = 0
    random.seed(seed)


def controlled_random(on=True):
    f = _urandom if on else REAL_URANDOM
    os.urandom = f
    random._urandom = f


controlled_random()


def reset(seed=0):
    CLOCK.reset()
    reset_random(seed)


from lib import fsys  # noqa
fsys.install()
import openid  # noqa
assert os.path.realpath(openid.__file__).startswith(os.path.realpath(REPO)), openid.__file__
