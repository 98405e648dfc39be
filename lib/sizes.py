"""Sizes for the checks that look for dependence on size: every small count and both sides of every power of two and round number."""


def _around(ns):
    return sorted(set(m for n in ns for m in (n - 1, n, n + 1) if m >= 0))


def counts(quick):
    top = 8 if quick else 11
    return sorted(set(range(0, 41)) | set(_around([50, 60, 100] + [2 ** p for p in range(5, top + 1)])))


def lengths(quick):
    top = 16 if quick else 20
    return sorted(set(range(0, 20)) | set(_around([40, 50, 60, 72, 80, 100, 120, 150, 160, 200, 250, 500, 1000, 2000, 2048, 2083, 4000, 5000, 8000, 10000] +
                                                  [2 ** p for p in range(4, top + 1)])))


def text(n, at=None, unit='abcdefghijklmnopqrstuvwxyz0123456789'):
    """A text of n characters without period n/2; with at, one that differs at that position only."""
    s = ''.join(unit[(i * i // 7 + i) % len(unit)] for i in range(n))
    if at is not None:
        s = s[:at] + '~' + s[at + 1:]
    return s


def places(n):
    """Positions worth changing in something of n items: the ends, the middle, both sides of powers of two."""
    return sorted(set(i for p in [0, 1, n // 2, n - 2, n - 1] + [2 ** k + d for k in range(2, 21) for d in (-1, 0)] for i in (p,) if 0 <= i < n))
