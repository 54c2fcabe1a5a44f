"""A small choice-sequence property-based testing engine.

A generator draws every random decision from a Data object, which records it as
an integer.  Replaying a (shortened, lowered) list of recorded integers through
the same generator yields a simpler case, so shrinking works for any generator.
Everything is a pure function of (seed, property, section, case index).
"""
import hashlib
import random
import time


class Discard(Exception):
    """The drawn choices do not make a case."""


class Violation(Exception):
    """The property does not hold for this case."""


class Data(object):
    def __init__(self, rng=None, prefix=None, limit=20000):
        self.rng = rng
        self.prefix = prefix
        self.limit = limit
        self.record = []

    def draw(self, n):
        """An integer in 0..n; 0 is the simplest."""
        i = len(self.record)
        if i >= self.limit:
            raise Discard()
        if self.prefix is not None:
            value = self.prefix[i] if i < len(self.prefix) else 0
            if value > n:
                value = n
        elif n <= 0:
            value = 0
        else:
            value = self.rng.randrange(n + 1)
        self.record.append(value)
        return value

    def bool(self, p=0.5):
        if p <= 0:
            return False
        return self.draw(999) >= 1000 - int(p * 1000)

    def int(self, lo, hi):
        """Uniform in lo..hi, shrinking towards 0 or the bound nearest to it."""
        if lo <= 0 <= hi:
            v = self.draw(hi - lo)
            # 0, 1, -1, 2, -2 ... as far as both sides allow
            m = min(-lo, hi)
            if v <= 2 * m:
                return (v + 1) // 2 if v % 2 else -(v // 2)
            return (v - m) if hi > -lo else -(v - m)
        if lo > 0:
            return lo + self.draw(hi - lo)
        return hi - self.draw(hi - lo)

    def choice(self, options):
        return options[self.draw(len(options) - 1)]

    def weighted(self, *pairs):
        """pairs of (weight, option); the first option is the simplest."""
        total = sum(w for w, _ in pairs)
        v = self.draw(total - 1)
        for w, option in pairs:
            if v < w:
                return option
            v -= w
        return pairs[-1][1]

    def size(self, lo, hi):
        """A length biased towards small values."""
        if hi <= lo:
            return lo
        if self.draw(3) < 3:
            return lo + self.draw(min(3, hi - lo))
        return lo + self.draw(hi - lo)

    def subset(self, options, p=0.5):
        return [o for o in options if self.bool(p)]

    def shuffled(self, options):
        options = list(options)
        for i in range(len(options) - 1):
            j = i + self.draw(len(options) - 1 - i)
            options[i], options[j] = options[j], options[i]
        return options


def case_rng(seed, prop, section, index):
    key = '%s/%s/%s/%s' % (seed, prop, section, index)
    digest = hashlib.sha256(key.encode('ascii')).digest()
    return random.Random(int.from_bytes(digest[:8], 'big'))


def shrink(choices, fails, seconds=45.0, max_evals=6000):
    """fails(choices) -> recorded choices if still failing, else None."""
    deadline = time.monotonic() + seconds
    evals = [0]

    def attempt(candidate):
        if evals[0] >= max_evals or time.monotonic() > deadline:
            return None
        evals[0] += 1
        return fails(candidate)

    def better(a, b):
        return (len(a), a) < (len(b), b)

    best = list(choices)
    improved = True
    while improved and evals[0] < max_evals and time.monotonic() < deadline:
        improved = False
        # delete chunks
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                if i + size <= len(best):
                    result = attempt(best[:i] + best[i + size:])
                    if result is not None and better(result, best):
                        best = result
                        improved = True
                i -= size if size > 4 else 1
            size //= 2
        # zero chunks
        for size in (16, 8, 4, 2):
            i = 0
            while i < len(best):
                if any(best[i:i + size]):
                    result = attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
                    if result is not None and better(result, best):
                        best = result
                        improved = True
                i += size
        # minimise single choices
        i = 0
        while i < len(best):
            if best[i]:
                result = attempt(best[:i] + [0] + best[i + 1:])
                if result is not None and better(result, best):
                    best = result
                    improved = True
                else:
                    lo, hi = 0, best[i]
                    while hi - lo > 1 and i < len(best):
                        mid = (lo + hi) // 2
                        result = attempt(best[:i] + [mid] + best[i + 1:])
                        if result is not None and better(result, best):
                            best = result
                            improved = True
                            hi = mid
                        else:
                            lo = mid
                    # also try deleting one element while lowering this one
                    if i < len(best) and best[i] and i + 1 < len(best):
                        result = attempt(best[:i] + [best[i] - 1] + best[i + 2:])
                        if result is not None and better(result, best):
                            best = result
                            improved = True
            i += 1
    return best, evals[0]
