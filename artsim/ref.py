"""Reference definitions, written independently of artemis: plain numpy over integer level codes."""
from itertools import combinations
from statistics import stdev

import numpy as np

RTOL = 1e-9
ATOL = 1e-9


def close(a, b, rtol=RTOL, atol=ATOL):
    a = float(a)
    b = float(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


class RefPD:
    """Partial dependence of `model` over data rows coded by `I` (rows x cols)."""

    def __init__(self, model, I):
        self.model = model
        self.I = np.asarray(I)
        self._s = {}
        self._p = {}
        self._m = {}

    def single(self, c, code):
        k = (c, code)
        if k not in self._s:
            J = self.I.copy()
            J[:, c] = code
            self._s[k] = float(np.mean(self.model.values(J)))
        return self._s[k]

    def pair(self, c, d, code1, code2):
        if c > d:
            c, d, code1, code2 = d, c, code2, code1
        k = (c, d, code1, code2)
        if k not in self._p:
            J = self.I.copy()
            J[:, c] = code1
            J[:, d] = code2
            self._p[k] = float(np.mean(self.model.values(J)))
        return self._p[k]

    def minus(self, c, row):
        k = (c, row)
        if k not in self._m:
            J = np.repeat(self.I[row:row + 1], len(self.I), axis=0)
            J[:, c] = self.I[:, c]
            self._m[k] = float(np.mean(self.model.values(J)))
        return self._m[k]

    def preds(self):
        return self.model.values(self.I)


def _center(x):
    x = np.asarray(x, dtype=float)
    return x - x.mean()


def h_value(pd_i, pd_j, pd_ij, normalized):
    """Returns (value, well_conditioned)."""
    a, b, ab = _center(pd_i), _center(pd_j), _center(pd_ij)
    num = (ab - a - b) ** 2
    if not normalized:
        return float(np.sqrt(num.mean())), True
    den = (ab ** 2).sum()
    scale = max(1.0, float(np.abs(pd_ij).max()), float(np.abs(pd_i).max()), float(np.abs(pd_j).max()))
    if den <= 1e-9 * scale * scale:
        return float("nan"), False
    return float(num.sum() / den), True


def friedman_pair(ref, c, d, normalized):
    I = ref.I
    n = len(I)
    p1 = [ref.single(c, I[r, c]) for r in range(n)]
    p2 = [ref.single(d, I[r, d]) for r in range(n)]
    p12 = [ref.pair(c, d, I[r, c], I[r, d]) for r in range(n)]
    return h_value(p1, p2, p12, normalized)


def friedman_ova(ref, c, normalized):
    I = ref.I
    n = len(I)
    p1 = [ref.single(c, I[r, c]) for r in range(n)]
    pm = [ref.minus(c, r) for r in range(n)]
    return h_value(p1, pm, ref.preds(), normalized)


def uniq(I, c):
    return sorted(set(int(v) for v in I[:, c]))


def greenwell_pair(ref, c, d, numeric):
    """numeric: set of column numbers treated as numeric. None when undefined (fewer than two distinct values)."""
    I = ref.I
    uc, ud = uniq(I, c), uniq(I, d)
    if len(uc) < 2 or len(ud) < 2:
        return None
    M = np.array([[ref.pair(c, d, a, b) for b in ud] for a in uc])

    def cond(v, isnum):
        return stdev([float(z) for z in v]) if isnum else (max(v) - min(v)) / 4

    imp_d_given_c = [cond(M[i, :], d in numeric) for i in range(len(uc))]
    imp_c_given_d = [cond(M[:, j], c in numeric) for j in range(len(ud))]
    return (stdev([float(z) for z in imp_d_given_c]) + stdev([float(z) for z in imp_c_given_d])) / 2


def pd_importance(ref, c, numeric):
    v = [ref.single(c, a) for a in uniq(ref.I, c)]
    return float(np.std(v)) if c in numeric else (max(v) - min(v)) / 4


def additivity(ref):
    """Returns (index, well_conditioned, per-feature centred effects, centred predictions)."""
    I = ref.I
    preds = ref.preds()
    mean = preds.mean()
    eff = np.array([[ref.single(c, I[r, c]) - mean for c in range(I.shape[1])] for r in range(len(I))])
    cp = preds - mean
    den = (cp ** 2).sum()
    if den <= 1e-9 * max(1.0, np.abs(preds).max()) ** 2:
        return float("nan"), False, eff, cp
    return float(1 - ((preds - (eff.sum(axis=1) + mean)) ** 2).sum() / den), True, eff, cp


def spearman_like(ranks1, ranks2, kind):
    """Rank correlations of two rank vectors, tie-free."""
    a = np.asarray(ranks1, dtype=float)
    b = np.asarray(ranks2, dtype=float)
    if kind == "kendall":
        n = len(a)
        s = 0
        for i, j in combinations(range(n), 2):
            s += np.sign(a[i] - a[j]) * np.sign(b[i] - b[j])
        return 2.0 * s / (n * (n - 1))
    a = a - a.mean()
    b = b - b.mean()
    return float((a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum()))
