"""Choice tapes: every random decision of a workload is one bounded draw.

A tape is either generated (from a seeded PRNG, recording the draws) or replayed from a recorded list of draws.  A
replayed tape that runs out yields zeros, so any list of integers is a valid tape: that makes tapes mutable (corpus
guided exploration), shrinkable and storable as a replay file.  Zero is always the simplest alternative.
"""

import random

LIMIT = 60000  # draws per case, beyond it every draw is zero (bounds the size of a case)


class Tape:
    __slots__ = ("rng", "data", "pos", "out")

    def __init__(self, seed=None, data=None, tail_rng=None):
        self.rng = random.Random(seed) if seed is not None else tail_rng
        self.data = data
        self.pos = 0
        self.out = []

    def draw(self, n):
        """An integer in [0, n)."""
        pos = self.pos
        self.pos = pos + 1
        if n <= 1:
            v = 0
        elif self.data is not None and pos < len(self.data):
            v = self.data[pos] % n
        elif pos >= LIMIT or self.rng is None:
            v = 0
        else:
            v = int(self.rng.random() * n) if n < (1 << 48) else self.rng.randrange(n)
        self.out.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den (zero draw is False)."""
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        total = 0
        for w, _ in pairs:
            total += w
        k = self.draw(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def count(self, hi, cont=2, den=3):
        """A geometric length in [0, hi]: continue with probability cont/den."""
        n = 0
        while n < hi and self.draw(den) >= den - cont:
            n += 1
        return n

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]


def mutate(rng, data, other=None):
    """A new list of draws from one (or two) interesting ones."""
    data = list(data)
    n = len(data)
    if not n:
        return data
    op = rng.randrange(7)
    if op == 0:  # replace a few single draws
        for _ in range(rng.randint(1, 4)):
            data[rng.randrange(n)] = rng.randrange(1 << rng.choice((1, 3, 8, 16)))
    elif op == 1:  # truncate, the rest is generated afresh
        data = data[: rng.randrange(n)]
    elif op == 2:  # remove a span
        a = rng.randrange(n)
        del data[a : a + rng.randint(1, max(1, n // 8))]
    elif op == 3:  # duplicate a span
        a = rng.randrange(n)
        span = data[a : a + rng.randint(1, max(1, n // 4))]
        b = rng.randrange(n + 1)
        data[b:b] = span
    elif op == 4 and other:  # splice two tapes
        data = data[: rng.randrange(n)] + list(other[rng.randrange(len(other)) :])
    elif op == 5:  # redraw a span
        a = rng.randrange(n)
        for i in range(a, min(n, a + rng.randint(1, 30))):
            data[i] = rng.randrange(1 << 16)
    else:  # move a span
        a = rng.randrange(n)
        span = data[a : a + rng.randint(1, max(1, n // 6))]
        del data[a : a + len(span)]
        b = rng.randrange(len(data) + 1)
        data[b:b] = span
    return data[:LIMIT]


def shrink(data, fails, budget):
    """Greedily simplify a failing list of draws; fails(list) -> True when it still fails the same way."""
    data = list(data)
    while data and data[-1] == 0:
        data.pop()
    tries = 0
    improved = True
    while improved and tries < budget:
        improved = False
        size = max(1, len(data) // 2)
        while size >= 1 and tries < budget:
            i = len(data) - size
            while i >= 0 and tries < budget:
                cand = data[:i] + data[i + size :]
                tries += 1
                if fails(cand):
                    data = cand
                    improved = True
                i -= size
            size //= 2
        i = 0
        while i < len(data) and tries < budget:
            if data[i]:
                for v in (0, data[i] // 2, data[i] - 1):
                    if v == data[i]:
                        continue
                    cand = data[:i] + [v] + data[i + 1 :]
                    tries += 1
                    if fails(cand):
                        data = cand
                        improved = True
                        break
            i += 1
    return data
