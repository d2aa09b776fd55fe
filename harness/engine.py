"""Generated-input search: random choice sequences, replay of a sequence, and shrinking of a failing one.

A generator is a function of a `D` which makes every choice through `D.int`.  The choices of a case are recorded as a list
of non-negative integers (offsets from the lower bound), so that a failing case is reduced by editing that list - deleting,
zeroing and lowering entries - and generating again; 0 is the simplest choice everywhere and is what is read past the end.
"""
import random
import time


class Choices:
    """Source of choices: from a random generator, or from a list (0 past its end, clamped to the range asked for)."""

    def __init__(self, rng=None, given=None):
        self.rng, self.given, self.made = rng, given, []
        self.style = None if rng is None else rng.choices(('uniform', 'small', 'edge'), (8, 1, 1))[0]

    def draw(self, top):
        if self.rng is None:
            k = len(self.made)
            v = min(self.given[k], top) if k < len(self.given) else 0
        else:
            v = self.rng.randint(0, top)
            if self.style == 'small' and self.rng.random() < 0.4:
                v = 0
            elif self.style == 'edge' and self.rng.random() < 0.25:
                v = self.rng.choice((0, top))
        self.made.append(v)
        return v


class D:
    """The handful of choices which the generators are made of."""

    def __init__(self, choices):
        self.choices = choices

    def int(self, a, b):
        return a + self.choices.draw(b - a) if a < b else a

    def bool(self, num=1, den=2):
        return self.int(0, den - 1) >= den - num

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.int(0, total - 1)
        for v, w in pairs:
            if x < w:
                return v
            x -= w

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.bool(num, den)]

    def perm(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = self.int(i, len(seq) - 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def flt(self, a, b):
        """A float in [a, b], over a grid which shrinks towards a (plain decimal values)."""
        n = self.int(0, 1000)
        return round(a + (b - a) * n / 1000., 6)

    def logflt(self, lo, hi):
        """10**x, x in [lo, hi], three significant digits."""
        return float('{:.3g}'.format(10 ** (lo + (hi - lo) * self.int(0, 1000) / 1000.)))


def generate(gen, rng=None, given=None):
    ch = Choices(rng, given)
    case = gen(D(ch))
    return case, ch.made


def shrink(gen, choices, failing, seconds):
    """Smallest choice list found (by length, then entries) whose case still fails; failing(case) -> bool."""
    end = time.monotonic() + seconds
    seen = set()
    best = [list(choices)]

    def attempt(new):
        if time.monotonic() > end:
            raise TimeoutError
        t = tuple(new)
        if t in seen:
            return False
        seen.add(t)
        case, made = generate(gen, given=new)
        while made and made[-1] == 0:
            made.pop()
        old = best[0]
        if (len(made), made) >= (len(old), old) or tuple(made) in seen and made != list(t):
            return False
        seen.add(tuple(made))
        if failing(case):
            best[0] = made
            return True
        return False

    def sweep():
        n0 = list(best[0])
        for size in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best[0]) - size
            while i >= 0:
                if not attempt(best[0][:i] + best[0][i + size:]):
                    i -= max(1, size // 2)
                else:
                    i = min(i, len(best[0]) - size)
        for size in (8, 4, 2, 1):
            i = 0
            while i < len(best[0]):
                b = best[0]
                if any(b[i:i + size]):
                    attempt(b[:i] + [0] * len(b[i:i + size]) + b[i + size:])
                i += size
        i = 0
        while i < len(best[0]):  # one item fewer: a count lowered and a stretch after it deleted
            if best[0][i] > 0:
                for size in range(1, 13):
                    b = best[0]
                    if i < len(b) and b[i] > 0 and attempt(b[:i] + [b[i] - 1] + b[i + 1 + size:]):
                        break
            i += 1
        i = 0
        while i < len(best[0]):
            lo, hi = 0, best[0][i]
            while lo < hi:
                mid = (lo + hi) // 2
                b = best[0]
                if i < len(b) and attempt(b[:i] + [mid] + b[i + 1:]):
                    hi = mid
                    if i >= len(best[0]) or best[0][i] != mid:
                        break
                else:
                    lo = mid + 1
            i += 1
        return best[0] != n0

    try:
        while sweep():
            pass
    except TimeoutError:
        pass
    return best[0]
