"""Linear inequalities over real-valued terms (the polyhedra abstract domain): exact Fourier-Motzkin elimination decides whether a
conjunction describes the empty set.  Non-linear monomials are coordinates of their own."""
from engine.terms import *
from engine.terms import T
from math import gcd


def ineqs(l):
    """a literal as a list of alternatives, each a list of (coefficients, constant, strict) meaning coeffs.x + constant >= 0 (> 0)"""
    if l is TRUE:
        return [[]]
    if l is FALSE:
        return []
    if l.op != 'cmp':
        return [[]]
    q, c, mask = l.args
    d, k = {}, -Fr(c)
    for m, co in poly(q).items():
        if m == ():
            k += co
        else:
            d[m] = co
    ge = lambda s: (d, k, s)
    neg = {m: -co for m, co in d.items()}
    le_ = lambda s: (neg, -k, s)
    if mask == GT:
        return [[ge(True)]]
    if mask == GT | EQ:
        return [[ge(False)]]
    if mask == LT:
        return [[le_(True)]]
    if mask == LT | EQ:
        return [[le_(False)]]
    if mask == EQ:
        return [[ge(False), le_(False)]]
    if mask == LT | GT:
        return [[ge(True)], [le_(True)]]
    return [[]] if mask else []


def tight(cs):
    """scaled to integers without common factor, only the tightest constraint for each direction; None when contradictory"""
    best = {}
    for d, k, s in cs:
        if not d:
            if k < 0 or (s and k == 0):
                return None
            continue
        l = 1
        for c in d.values():
            l = l * c.denominator // gcd(l, c.denominator)
        g = 0
        for c in d.values():
            g = gcd(g, abs(int(c * l)))
        f = Fr(l, g)
        key = frozenset((m, int(c * f)) for m, c in d.items())
        k = k * f
        o = best.get(key)
        if o is None or k < o[0] or (k == o[0] and s and not o[1]):
            best[key] = (k, s)
    # two constraints of opposite direction
    for key, (k, s) in best.items():
        o = best.get(frozenset((m, -c) for m, c in key))
        if o is not None and (o[0] + k < 0 or (o[0] + k == 0 and (s or o[1]))):
            return None
    return [(dict(key), k, s) for key, (k, s) in best.items()]


def empty_(cs):
    """is the conjunction of (coeffs, const, strict) unsatisfiable over the reals"""
    cs = tight(cs)
    while True:
        if cs is None:
            return True
        if not cs:
            return False
        occ = {}
        for d, k, s in cs:
            for m, c in d.items():
                p = occ.setdefault(m, [0, 0])
                p[0 if c > 0 else 1] += 1
        m = min(occ, key=lambda x: occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1])
        pos = [c for c in cs if c[0].get(m, 0) > 0]
        neg = [c for c in cs if c[0].get(m, 0) < 0]
        rest = [c for c in cs if m not in c[0]]
        for a in pos:
            for b in neg:
                fa, fb = -b[0][m], a[0][m]
                d = {}
                for x, c in a[0].items():
                    d[x] = d.get(x, 0) + c * fa
                for x, c in b[0].items():
                    d[x] = d.get(x, 0) + c * fb
                rest.append(({x: Fr(c) for x, c in d.items() if c}, a[1] * fa + b[1] * fb, a[2] or b[2]))
        if len(rest) > 3000:
            return False
        cs = tight([({x: Fr(c) for x, c in d.items()}, k, s) for d, k, s in rest])


MEMO = {}


def infeasible(lits):
    """can the literals not all hold: by the linear ones among them, or by a literal and its negation"""
    ls = frozenset(lits)
    r = MEMO.get(ls)
    if r is None:
        r = MEMO[ls] = infeasible_(ls)
    return r


def infeasible_(ls):
    if FALSE in ls:
        return True
    for l in ls:
        if l.op == 'not' and l.args[0] in ls:
            return True
    alts = [[]]
    for l in ls:
        a = ineqs(l)
        if not a:
            return True
        alts = [x + y for x in alts for y in a]
        if len(alts) > 64:
            return False
    return all(empty_(x) for x in alts)


def entails(lits, goal):
    """do the literals imply the goal"""
    if goal is TRUE or goal in lits:
        return True
    return infeasible(list(lits) + [notb(goal)])
