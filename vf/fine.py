"""The last digits of environment matrices.

The specification computes in fixed point (15 bits).  A row (s, s x/r, s y/r, s z/r) names its own neighbour: its direction is
(x, y, z)/r, and s falls strictly, so r follows from s.  The offset so found is on the grid; from it the row and its derivative are
computed in double precision, and the worst difference is handed to the specification, in units of 1e-12.
"""
import numpy as np


def s_of(r, rs, rc):
    u = np.clip((r - rs) / (rc - rs), 0, 1)
    f = u ** 3 * (-6 * u ** 2 + 15 * u - 10) + 1
    df = np.where((r >= rs) & (r < rc), u ** 2 * (-30 * u ** 2 + 60 * u - 30) / (rc - rs), 0.0)
    return f / r, df / r - f / r ** 2


def worst(rows, slopes, g, rs, rc, sign):
    a = np.asarray(rows, float).reshape(-1, 4)
    ok = np.isfinite(a).all(1) & (a[:, 0] * g > 3e-3)
    d = None if slopes is None else np.asarray(slopes, float).reshape(-1, 4, 3)
    a = a[ok]
    if not len(a):
        return 0
    lo, hi = np.full(len(a), 1e-3 * g), np.full(len(a), float(rc))
    for _ in range(70):
        m = (lo + hi) / 2
        big = s_of(m, rs, rc)[0] > a[:, 0]
        lo, hi = np.where(big, m, lo), np.where(big, hi, m)
    v = a[:, 1:] / a[:, :1] * lo[:, None]
    n = np.round(v / g)
    near = (np.abs(v / g - n).max(1) < 0.02) & (np.abs(n).sum(1) > 0)      # elsewhere the fixed-point comparison decides
    a, n = a[near], n[near]
    if not len(a):
        return 0
    v = n * g
    r = np.sqrt((v ** 2).sum(1))
    s, ds = s_of(r, rs, rc)
    x = v / r[:, None]
    w = np.abs(a - np.concatenate([s[:, None], s[:, None] * x], 1)).max() * g
    if d is not None:
        d = d[ok][near]
        want = np.empty((len(a), 4, 3))
        want[:, 0] = ds[:, None] * x
        for k in range(3):
            want[:, k + 1] = ((ds - s / r) * x[:, k])[:, None] * x
            want[:, k + 1, k] += s / r
        w = max(w, np.abs(d - sign * want).max() * g * g)
    return int(min(2e8, w * 1e12)) if np.isfinite(w) else 200000000
