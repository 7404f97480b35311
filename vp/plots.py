"""Reading back what a figure shows."""
import math

import numpy as np

from . import stats


def line_points(line):
    xs, ys = np.asarray(line.get_xdata(), dtype=float), np.asarray(line.get_ydata(), dtype=float)
    return list(zip(xs.tolist(), ys.tolist()))


def bands(ax):
    """Each filled band as {x: (low, high)} plus its color."""
    from matplotlib.collections import PolyCollection
    out = []
    for c in ax.collections:
        if not isinstance(c, PolyCollection):
            continue
        d = {}
        for path in c.get_paths():
            for x, y in np.asarray(path.vertices, dtype=float):
                lo, hi = d.get(x, (math.inf, -math.inf))
                d[x] = (min(lo, y), max(hi, y))
        out.append((d, tuple(np.round(c.get_facecolor()[0][:3], 6)) if len(c.get_facecolor()) else None))
    return out


def curve(entries):
    """Reference curve of one problem family: entries = [(noise, shots, errors)], plus (rounds, distance)."""


def reference_curves(rows):
    """rows: list of (desc dict, shots, errors). Returns {family key: (desc, points, band)}."""
    fams = {}
    for d, n, e in rows:
        k = (d["data_width"], d["data_height"], d["code_distance"], d["num_qubits"], d["rounds"], d["circuit_style"],
             d["preserved_observable"], d["decoder"])
        fams.setdefault(k, []).append((d["noise"], n, e, d))
    out = {}
    for k, es in fams.items():
        es.sort(key=lambda t: t[0])
        d = es[0][3]
        cells = -(-d["rounds"] // d["code_distance"])
        pts = [(p, stats.per_piece(e / n, cells)) for p, n, e, _ in es if e]
        band = {}
        for p, n, e, _ in es:
            lo, hi = stats.bounds(n, e, 1e-3)
            ext = []
            for v in (lo, hi):
                s = 0.0101 + 2 * stats.slack(n, e, 1e-3, v)
                ext.append((stats.per_piece(max(0.0, (v - s) / n), cells), stats.per_piece(min(1.0, (v + s) / n), cells)))
            band[p] = ext
        out[k] = (d, pts, band)
    return out


def match_points(got, want, rtol=1e-9):
    return len(got) == len(want) and all(
        abs(a - c) <= rtol * abs(c) and abs(b - d) <= 1e-9 * abs(d) + 1e-14 for (a, b), (c, d) in zip(got, want))


def match_band(got, want):
    if set(got) != set(want):
        return False
    for x, ((l0, l1), (h0, h1)) in want.items():
        lo, hi = got[x]
        if not (l0 - 1e-12 <= lo <= l1 + 1e-12 and h0 - 1e-12 <= hi <= h1 + 1e-12):
            return False
    return True


def assign(got, want, ok):
    """Can every wanted item be paired with its own drawn item? (small bipartite matching)"""
    m = {}

    def go(i, seen):
        for j in range(len(got)):
            if j not in seen and ok(got[j], want[i]):
                seen.add(j)
                if j not in m or go(m[j], seen):
                    m[j] = i
                    return True
        return False
    for i in range(len(want)):
        if not go(i, set()):
            return i
    return None
