"""Monitors: what was observed, what was decided."""


class Violation(Exception):
    """An observation that refutes the property."""


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def h64(obj):
    """A stable 64 bit hash of a printable key."""
    import hashlib

    return int.from_bytes(hashlib.blake2b(repr(obj).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")


class Monitor:
    """Counters of evaluated oracle steps and sets of distinct observed states."""

    CAP = 60000

    def __init__(self):
        self.counts = {}
        self.sets = {}
        self.samples = []
        self._trace = None
        self.nontrivial = set()
        self.known = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, category, key):
        s = self.sets.setdefault(category, set())
        if len(s) < self.CAP:
            s.add(h64(key))

    def case(self, key):
        """This case is a non-trivial one, identified by key."""
        if len(self.nontrivial) < 2_000_000:
            self.nontrivial.add(h64(key))

    def start_trace(self):
        self._trace = []

    def log(self, fmt, *args):
        if self._trace is not None and len(self._trace) < 400:
            try:
                self._trace.append(((fmt % args) if args else fmt)[:400])
            except Exception as e:  # a broken repr must not decide anything
                self._trace.append("<unprintable %s>" % type(e).__name__)

    def trace(self):
        return self._trace or []
