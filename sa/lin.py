"""Exact rational feasibility of small systems of linear constraints (the polyhedral abstract domain's
entailment test).  Integer strictness is handled by the callers (p < 0 becomes p + 1 <= 0)."""
from fractions import Fraction
import math


class Infeasible(Exception):
    pass


def feasible(cons, strict=()):
    """cons: list of (dict var->coef, const) meaning sum + const <= 0; strict: same, meaning < 0.
    Returns True if a rational solution exists (exact), False if none."""
    # general simplex over slack rows: s = sum coef*x, bound s <= -const
    sysm = []
    for d, c in cons: sysm.append((d, c, False))
    for d, c in strict: sysm.append((d, c, True))
    # single-variable bounds are still rows: simple and small
    lo = {}; hi = {}; rows = {}; val = {}
    basic = []
    zero = (Fraction(0), Fraction(0))
    def le(a, b): return a <= b
    nvars = []
    for i, (d, c, st) in enumerate(sysm):
        d = {k: Fraction(v) for k, v in d.items() if v != 0}
        ub = (Fraction(-c), Fraction(-1 if st else 0))
        if not d:
            if (zero > ub): return False
            continue
        if len(d) == 1:
            (k, v), = d.items()
            b = (ub[0] / v, ub[1] / v)
            if v > 0:
                if k not in hi or b < hi[k]: hi[k] = b
            else:
                if k not in lo or b > lo[k]: lo[k] = b
            continue
        s = ('s', i)
        rows[s] = d
        hi[s] = ub
    vs = set()
    for d in rows.values(): vs.update(d)
    for k in set(lo) | set(hi):
        if k in lo and k in hi and lo[k] > hi[k]: return False
    for v in vs:
        x = zero
        if v in lo and lo[v] > x: x = lo[v]
        if v in hi and hi[v] < x: x = hi[v]
        val[v] = x
    def rowval(d):
        a = Fraction(0); b = Fraction(0)
        for k, c in d.items():
            a += c * val[k][0]; b += c * val[k][1]
        return (a, b)
    for s, d in rows.items(): val[s] = rowval(d)
    order = {}
    def key(v):
        if v not in order: order[v] = len(order)
        return order[v]
    for v in sorted(vs, key=lambda z: str(z)): key(v)
    for s in rows: key(s)
    it = 0
    while True:
        it += 1
        if it > 2000: return True   # give up: "maybe feasible"
        bad = None
        for s in sorted(rows, key=key):
            if s in lo and val[s] < lo[s]: bad = (s, 1, lo[s]); break
            if s in hi and val[s] > hi[s]: bad = (s, -1, hi[s]); break
        if bad is None: return True
        s, dirn, target = bad
        d = rows[s]
        piv = None
        for v in sorted(d, key=key):
            c = d[v]
            up = (c > 0) == (dirn > 0)
            if up:
                if v not in hi or val[v] < hi[v]: piv = v; break
            else:
                if v not in lo or val[v] > lo[v]: piv = v; break
        if piv is None: return False
        # pivot s <-> piv
        c = d.pop(piv)
        new = {k: -w / c for k, w in d.items()}
        new[s] = Fraction(1) / c
        del rows[s]
        theta = ((target[0] - val[s][0]) / c, (target[1] - val[s][1]) / c)
        val[s] = target
        val[piv] = (val[piv][0] + theta[0], val[piv][1] + theta[1])
        for r, e in rows.items():
            if piv in e:
                w = e.pop(piv)
                for k, q in new.items():
                    n = e.get(k, 0) + w * q
                    if n == 0: e.pop(k, None)
                    else: e[k] = n
        rows[piv] = new
        for r in rows: 
            if r is not piv: val[r] = rowval(rows[r])


def poly_row(p):
    """Poly -> (dict monomial->coef, const)"""
    d = {}
    c = 0
    for k, v in p.m.items():
        if k: d[k] = v
        else: c = v
    return d, c
