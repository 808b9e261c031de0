"""QuantRNG: a RandomState whose continuous draws are quantile functions of scripted uniforms, with a record of every draw"""
from .lib import *
from scipy import special as sc
class QuantRNG(np.random.RandomState):
    def __new__(cls, *a, **k): return super().__new__(cls, 0)
    def __init__(self, level=None, seed=0):
        super().__init__(0)
        self.level, self.src, self.rec = level, np.random.RandomState(seed), []
    def _u(self, shape):
        return np.full(shape, self.level) if self.level is not None else self.src.uniform(0.02, 0.98, shape)
    def _draw(self, kind, pars, std, size):
        pars = [np.asarray(p, dtype=float) for p in pars]
        shape = () if size is None else ((size,) if np.isscalar(size) else tuple(size))
        b = np.broadcast_shapes(*[p.shape for p in pars]) if pars else ()
        if size is None: shape = b
        pars = [np.broadcast_to(p, shape) for p in pars]
        u = self._u(shape)
        v = std(u, *pars)
        key, val = self._canon(kind, pars, v)
        for i in np.ndindex(*shape): self.rec.append((kind if kind not in ('chi2',) else 'gamma', tuple(round(float(k[i]), 9) for k in key), float(val[i])))
        return float(v) if shape == () else np.array(v)
    def _canon(self, kind, pars, v):
        """(shape parameters, standardised value)"""
        v = np.asarray(v)
        if kind == 'normal': 
            with np.errstate(all='ignore'): return [], np.where(pars[1] != 0, (v - pars[0]) / pars[1], 0.0)
        if kind == 'gamma': return [pars[0]], v / pars[1]
        if kind == 'chi2': return [pars[0] / 2], v / 2
        if kind == 'beta': return [pars[0], pars[1]], v
        return [], v
    def normal(self, loc=0.0, scale=1.0, size=None): return self._draw('normal', [loc, scale], lambda u, l, s: l + s * sc.ndtri(u), size)
    def standard_normal(self, size=None): return self.normal(0.0, 1.0, size)
    def randn(self, *d): return self.normal(0.0, 1.0, d if d else None)
    def gamma(self, shape, scale=1.0, size=None):
        if np.any(np.asarray(shape) < 0) or np.any(np.asarray(scale) < 0): raise ValueError('shape < 0')
        return self._draw('gamma', [shape, scale], lambda u, k, s: s * np.where(k > 0, sc.gammaincinv(np.maximum(k, 1e-300), u), 0), size)
    def standard_gamma(self, shape, size=None): return self.gamma(shape, 1.0, size)
    def chisquare(self, df, size=None): return self._draw('chi2', [df], lambda u, k: 2 * sc.gammaincinv(k / 2, u), size)
    def beta(self, a, b, size=None):
        if np.any(np.asarray(a) <= 0) or np.any(np.asarray(b) <= 0): raise ValueError('a <= 0')
        return self._draw('beta', [a, b], lambda u, a, b: sc.betaincinv(a, b, u), size)
    def random_sample(self, size=None): return self._draw('uniform', [0.0], lambda u, z: u, size)
    random = random_sample
    def rand(self, *d): return self.random_sample(d if d else None)
    def uniform(self, low=0.0, high=1.0, size=None): return self._draw('uniform', [low, high], lambda u, a, b: a + (b - a) * u, size)
    def exponential(self, scale=1.0, size=None): return self._draw('gamma', [1.0, scale], lambda u, k, s: -s * np.log1p(-u), size)
    standard_exponential = exponential
    def take(self, kind, shape=()):
        """value of an unused draw of this kind and shape parameters"""
        key = (kind, tuple(round(float(s), 9) for s in shape))
        for i, r in enumerate(self.rec):
            if r is not None and r[:2] == key:
                self.rec[i] = None; return r[2]
        raise KeyError(key)
