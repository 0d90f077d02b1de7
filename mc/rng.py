"""A numpy Generator whose uniform variates are scripted by the explorer."""
import numpy as np

NEAR1 = 1.0 - 2.0 ** -53


class ScriptedRNG(np.random.Generator):
    """Answers the k-th uniform variate with script[k], then with a fixed
    low-discrepancy sequence; other variates come from a fixed seed."""

    def __new__(cls, script=(), seed=7):
        return super().__new__(cls, np.random.PCG64(seed))

    def __init__(self, script=(), seed=7):
        super().__init__(np.random.PCG64(seed))
        self.script = list(script)
        self.k = 0
        self.used = 0

    def _next(self):
        k = self.k
        self.k += 1
        if k < len(self.script):
            self.used += 1
            return self.script[k]
        return (0.5 + 0.6180339887498949 * (k + 1)) % 1.0

    def _u(self, size=None):
        if size is None:
            return self._next()
        n = int(np.prod(size))
        k = self.k
        head = [self._next() for _ in range(min(n, max(0, len(self.script) - k)))]
        rest = n - len(head)
        if rest:
            kk = np.arange(self.k, self.k + rest)
            self.k += rest
            tail = (0.5 + 0.6180339887498949 * (kk + 1)) % 1.0
            out = np.concatenate([np.array(head, float), tail])
        else:
            out = np.array(head, float)
        return out.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._u(size)
        r = low + (np.asarray(high) - low) * u
        return float(r) if size is None and np.ndim(r) == 0 else r

    def random(self, size=None, dtype=np.float64, out=None):
        return self._u(size)
