"""C16: each stepper is the Runge-Kutta method it claims to be"""
from blocks import *

RULE = """The stage evaluations, the result and the proposed step of every stepper are extracted from its source as polynomials in the start state, the times and the results of the
earlier stages (exact rational coefficients). They must have the shape of an explicit Runge-Kutta tableau whose rows are consistent and which satisfies every order condition (one per rooted
tree) up to the claimed order; the embedded solution of RKF45 is recovered from its error estimate. The proposed step is compared at, between and beyond the
documented thresholds."""
ASSUME = ['real arithmetic; the stepper callback is a function of time and state', 'array operations are element-wise']
CLAIM = {'pooya::Euler': (1, None), 'pooya::Rk4': (4, None), 'pooya::Rkf45': (4, 5)}
TOL = Fr(1, 10**12)


# ---------------------------------------------------------------- rooted trees
def trees(n, memo={}):
    """rooted trees with n vertices, each a sorted tuple of subtrees"""
    if n not in memo:
        memo[n] = sorted(set(tuple(sorted(f)) for f in forests(n - 1)))
    return memo[n]


def forests(n, top_=None):
    """multisets of trees with n vertices in total"""
    if n == 0:
        return [()]
    out = []
    for k in range(min(n, top_ or n), 0, -1):
        for t in trees(k):
            for f in forests(n - k, k):
                out.append((t,) + f)
    return out


def order(t):
    return 1 + sum(order(x) for x in t)


def density(t):
    r = order(t)
    for x in t:
        r *= density(x)
    return r


def weight(t, A, i, memo):
    k = (t, i)
    if k not in memo:
        r = Fr(1)
        for x in t:
            r *= sum(A[i][j] * weight(x, A, j, memo) for j in range(len(A)))
        memo[k] = r
    return memo[k]


def defects(A, b, p):
    """order conditions up to order p that fail: (tree, value, wanted)"""
    out, memo = [], {}
    for n in range(1, p + 1):
        for t in trees(n):
            v = sum(b[i] * weight(t, A, i, memo) for i in range(len(b)))
            if abs(v - Fr(1, density(t))) > TOL:
                out.append((t, v, Fr(1, density(t))))
    return out


# ---------------------------------------------------------------- extraction
class Shape(Exception):
    pass


def linear(t, v0, h, ks):
    """coefficients (of v0, [of h*k_j]) of a state expression"""
    p = poly(t)
    c0, cs = Fr(0), [Fr(0)] * len(ks)
    for m, c in p.items():
        d = dict(m)
        if d == {v0: 1}:
            c0 += c
            continue
        hit = [j for j, k in enumerate(ks) if d == {h: 1, k: 1}]
        if not hit:
            raise Shape('term %s' % show(unpoly({m: c})))
        cs[hit[0]] += c
    return c0, cs


def timec(t, t0, h):
    p = dict(poly(t))
    a = p.pop(((t0, 1),), Fr(0))
    b = p.pop(((h, 1),), Fr(0))
    if p or a != 1:
        raise Shape('stage time %s' % show(t))
    return b


def check(ctx):
    for P in (ctx.R, ctx.D):
        for cls in CLAIM:
            ctx.cls(cls, P)
        n = 0
        for cls in sorted(c for c in P.recs if P.derives(c, 'pooya::StepperBase') and c.startswith('pooya::')):
            if cls not in CLAIM:
                continue
            f = ctx.need(cls, 'step', P, np=6)
            n += 1
            ctx.each('%s::step (%s)' % (cls, P.config), ctx.where(f), one, ctx, P, cls, f)
        if n < 3:
            raise Broken('steppers not found')


def one(ctx, P, cls, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, cls, P)
    names = [p['n'] or 'arg%d' % i for i, p in enumerate(f['params'])]
    cb, t0, v0, t1 = (sym(n) for n in names[:4])
    V1, HN = mk('A', names[4]), mk('A', names[5])
    h = sym('h')
    p, q = CLAIM[cls]
    first = None
    for o in outs:
        d = showout(o)[:3000]
        if o.kind != 'return':
            ctx.check('a step completes', w, False, d, [o])
            continue
        ev = [e for e in o.events if e.kind == 'fn']
        if any(e.kind == 'loop' for e in o.events) or any(e.kind == 'fn' for e, l in walk(o.events) if l):
            ctx.undecided('the stages of a step', w, 'stages evaluated in a loop\n' + d)
            continue
        ks = [sym('k%d' % i) for i in range(len(ev))]
        m = {t1: add(t0, h)}
        def norm(t):
            t = subst(t, {e.ret: k for e, k in zip(ev, ks)})
            # rets nested in rets: innermost first
            for _ in range(len(ev)):
                t = subst(t, {subst(e.ret, {x.ret: y for x, y in zip(ev, ks) if x is not e}): k for e, k in zip(ev, ks)})
            return subst(t, m)
        # stage results, innermost first
        sub_, A, cs = {}, [], []
        bad = None
        for i, e in enumerate(ev):
            def nm(t):
                return subst(subst(t, sub_), m)
            if e.args[0] is not cb:
                ctx.check('stages evaluate the given derivative function', w, False, repr(e)[:500], [o])
                bad = True
                break
            try:
                c = timec(nm(e.args[1]), t0, h)
                c0, a = linear(nm(e.args[2]), v0, h, ks)
            except Shape as x:
                bad = x
                ctx.check('stage %d is evaluated at a Runge-Kutta stage' % (i + 1), w, False if sure(e.args[1], e.args[2]) else None, str(x), [o])
                break
            if c0 != 1 or any(a[i:]):
                bad = True
                ctx.check('stage %d starts from the given state' % (i + 1), w, False, 'state coefficient %s, stages %s' % (c0, a), [o])
                break
            A.append(a)
            cs.append(c)
            ctx.check('stage %d of %s is consistent (time offset equals the weights of its state)' % (i + 1, cls), w, abs(sum(a) - c) <= TOL, 'c=%s, weights %s' % (c, a), [o])
            sub_[e.ret] = ks[i]
        if bad:
            continue
        nm = lambda t: subst(subst(t, sub_), m)
        v = o.cells.get(V1)
        try:
            c0, b = linear(nm(v), v0, h, ks) if v is not None and v is not sym(names[4]) else (None, None)
        except Shape as x:
            ctx.check('the result is a weighted sum of the stages', w, False if sure(v) else None, str(x), [o])
            continue
        if c0 is None:
            ctx.check('a step produces its result', w, False, d, [o])
            continue
        ctx.check('the result starts from the given state', w, c0 == 1, 'coefficient %s' % c0, [o])
        de = defects(A, b, p)
        ctx.check('%s satisfies all order conditions up to order %d' % (cls, p), w, not de, 'A=%s b=%s: failing (tree, value, wanted): %s' % ([[str(y) for y in r] for r in A], [str(y) for y in b], de[:4]), [o])
        for n in range(1, p + 1):
            for t in trees(n):
                ctx.hold('order condition of tree %s' % (t,), w)
        hn = o.cells.get(HN)
        hn = nm(hn) if hn is not None else None
        if q is None:
            ctx.check('%s proposes to keep the step size' % cls, w, hn is h, 'new_h = %s' % (show(hn) if hn is not None else 'not set'), [o])
        else:
            ratio(ctx, w, o, nm, hn, h, t0, v0, t1, ks, A, b, q, d)
        keepin = [show(r) for r in (mk('A', names[2]),) if r in o.cells and o.cells[r] is not v0]
        ctx.check('the start state is not changed', w, not keepin, d, [o])
    if q is not None:
        thresholds(ctx, w, outs, HN, t0, t1, cls)


def estimates(o, nm):
    """error estimates a path depends on: (term, its argument)"""
    out = {}
    for c in list(o.conds):
        for s in subterms(c):
            if s.op == 'app' and s.args[0] in ('maxCoeff', 'lpNorm') and isinstance(s.args[1], T):
                a = s.args[1]
                while a.op == 'app' and a.args[0] in ('cwiseAbs', 'abs'):
                    a = a.args[1]
                    out[s] = a
                if s.args[0] == 'lpNorm':
                    out[s] = a
    return out


def ratio(ctx, w, o, nm, hn, h, t0, v0, t1, ks, A, b, q, d):
    est = estimates(o, nm)
    if not est:
        # the largest difference with its sign is not an estimate: a large negative one would go unnoticed
        raw = {x for c in o.conds for x in subterms(c) if x.op == 'app' and x.args[0] in ('maxCoeff', 'minCoeff', 'sum', 'mean')}
        if len(raw) == 1:
            (x,) = raw
            try:
                c0, e = linear(nm(x.args[1]), v0, h, ks)
                if c0 == 0 and any(e) and not any(y.op == 'app' and y is not x for c in o.conds for y in subterms(c)):
                    ctx.check('the error estimate is the largest absolute difference', w, False, 'estimate: %s with its sign' % x.args[0], [o])
                    return
            except (Shape, IndexError, AttributeError):
                pass
    if len(est) != 1:
        ctx.undecided('the error estimate', w, 'no single largest absolute difference\n' + d)
        return
    (E, a), = est.items()
    try:
        c0, e = linear(nm(a), v0, h, ks)
    except Shape as x:
        ctx.check('the error estimate is the difference of two solutions', w, False if sure(a) else None, str(x), [o])
        return
    ctx.check('the error estimate is the difference of two solutions', w, c0 == 0 and any(e), 'weights %s' % e, [o])
    ok = False
    for s in (1, -1):
        bb = [x - s * y for x, y in zip(b, e)]
        ok = ok or not defects(A, bb, q)
    ctx.check('the embedded solution satisfies all order conditions up to order %d' % q, w, ok, 'weights %s, difference %s' % (b, e), [o])


def thresholds(ctx, w, outs, HN, t0, t1, cls):
    lo, hi = Fr(81, 256), Fr(81, 16)
    for hv in (Fr(1), Fr(1, 100), Fr(3)):
        for s4, want in ((Fr(1, 1000), Fr(1, 2)), (lo * Fr(99, 100), Fr(1, 2)), (lo * Fr(101, 100), Fr(1)), (Fr(1), Fr(1)), (hi * Fr(99, 100), Fr(1)), (hi * Fr(101, 100), Fr(2)),
                         (Fr(10**6), Fr(2)), (None, Fr(1))):
            e = Fr(0) if s4 is None else Fr(1, 1000) * hv / (2 * s4)

            def atom(x):
                if x is t0:
                    return Fr(7)
                if x is t1:
                    return Fr(7) + hv
                if x.op == 'app' and x.args[0] in ('maxCoeff', 'lpNorm'):
                    return e
                return None
            W = World(atom)
            o = W.chosen(outs, lambda x: x)
            what = 'step size with error %s' % ('zero' if s4 is None else 'ratio %s' % float(s4))
            if o is None:
                ctx.undecided(what, w, '')
                continue
            try:
                v = W.number(o.cells[HN])
            except (Unknown, KeyError) as x:
                ctx.undecided(what, w, repr(x))
                continue
            ctx.check('%s proposes %s the step size for an error %s' % (cls, {Fr(1, 2): 'half', Fr(1): 'to keep', Fr(2): 'twice'}[want], 'of zero' if s4 is None else 'with tolerance ratio %.4g' % float(s4)), w, v == want * hv,
                      'h=%s: new_h=%s' % (hv, v), [o])
