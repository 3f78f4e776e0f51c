"""C17: a run advances time monotonically and lands exactly on the requested time"""
from substeps import *

RULE = """The loop over sub-steps is read off the source as a transition system (times of the sub-step, the stepper's proposal, the values carried to the next iteration, the conditions of
each way through an iteration). By induction over its iterations, with linear inequalities decided exactly: every sub-step starts where the last accepted one ended (the first at
the current time), is not empty, does not pass the requested time and is at most the maximum step long; an iteration either moves on to the end of the sub-step (accepts) or repeats the same start with a
strictly smaller sub-step of at least the minimum (redoes); it accepts exactly when the proposal is not smaller than the sub-step, the sub-step is not longer than the minimum, or it is the
repetition of one whose proposal was not above the minimum (whatever rounding did to the sub-step then); the loop ends with an accepted sub-step that ended at the requested time.
Counter-examples are sought by following the transition system for concrete times and proposals. Every path that ends normally makes the requested time the current one; an earlier time with states is
refused before any event or change."""
ASSUME = ['0 < minimum step < maximum step (asserted in debug builds)', 'arithmetic is exact except where the rule says otherwise']


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(SB, P)
        R = Roles(P)
        done = set()
        for c in [SB] + simulators(P):
            g = ctx.need(c, 'run', P, np=3)
            if g['id'] not in done:
                done.add(g['id'])
                ctx.each('sub-steps of a run (%s)' % P.config, ctx.where(g), one, ctx, P, R, g)
            h = ctx.need(c, 'init', P, np=1)
            if h['id'] not in done:
                done.add(h['id'])
                ctx.each('initial time (%s)' % P.config, ctx.where(h), initial, ctx, P, R, h)


def initial(ctx, P, R, f):
    I = Interp(P, f['cls'], events_on_this={'process_model'})
    outs = I.run(f['id'])
    ctx.note(I, outs)
    t = sym(f['params'][0]['n'])
    for o in outs:
        if o.kind == 'return':
            v = o.cells.get(R.tprev)
            ctx.check('initialisation makes the initial time the current one', ctx.where(f), v is t, showout(o)[:1500], [o])


def one(ctx, P, R, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs, cbs = mainrun(ctx, P, f)
    t, mn, mx = (sym(p['n']) for p in f['params'])
    t0 = mk('ld', R.tprev)
    n = 0
    debug = P.config == 'debug'
    ctx.each('when a run initialises (%s)' % P.config, w, first, ctx, P, R, f, outs)
    ctx.each('what a run refuses (%s)' % P.config, w, refusals, ctx, P, R, f, outs)
    for o in outs:
        init = [e for e in o.events if e.kind == 'call' and e.name == 'init']
        stepping = any(e.kind == 'call' and e.name == 'step' for e, l in walk(o.events))
        if o.kind == 'return':
            if init:
                ok = len(init) == 1 and init[0].args[1] is t
                ctx.check('the first run initialises at the requested time', w, ok, showout(o)[:1500], [o])
                continue
            v = o.cells.get(R.tprev)
            ok = v is t
            if not ok:
                ok = linear.entails([c for c in o.conds if c.op == 'cmp'], eqn(v if v is not None else t0, t))
                ok = True if ok else False if v is None or sure(v) else None
            ctx.check('a completed run makes the requested time the current one', w, ok, showout(o)[:1500], [o])
        if not stepping:
            back = linear.entails([c for c in o.conds if c.op == 'cmp'], lt(t, t0))
            some = any(c.op == 'cmp' and any(a in R.arrays for a in roots(c)) and c.args[2] & GT for c in o.conds)
            if some and o.kind == 'return':
                fwd = linear.infeasible([c for c in o.conds if c.op == 'cmp'] + [gt(t, t0)])
                ctx.check('a model with states is not run to a later time without sub-steps', w, True if fwd else False if sure(*o.conds) else None, showout(o)[:1500], [o])
                ctx.check('a model with states is not run to an earlier time', w, not linear_possible(o, lt(t, t0)), showout(o)[:1500], [o])
            if o.kind == 'throw' and back:
                ev = [e for e in o.events if e.kind not in ('get', 'warn')]
                ch = {r: v for r, v in o.cells.items() if r.op in ('H', 'Lnk') and v is not mk('ld', r)}
                ctx.check('an earlier time is refused before anything happens or changes', w, not ev and not ch, showout(o)[:1500], [o])
                n += 1
            continue
    ctx.check('a run to an earlier time is refused', w, n > 0, 'no path throws for t < current time')
    done = 0
    seen = set()
    for o in outs:
        if not any(e.kind == 'call' and e.name == 'step' for e, l in walk(o.events)):
            continue
        S = Substeps(ctx, P, R, f, o)
        key = (tuple(sorted((r.key, v.key) for r, v in S.init.items())), tuple(sorted(c.key for c in S.pre if c.op == 'cmp')))
        if key in seen:
            continue
        seen.add(key)
        done += 1
        loop(ctx, P, R, f, w, S, t, mn, mx, t0)
    if not done:
        raise Maybe('no loop over sub-steps')


def constants(outs):
    """the fields that hold the same known constant after every path"""
    r = None
    for o in outs:
        if o.kind == 'return':
            m = {mk('ld', k): v for k, v in o.cells.items() if k.op == 'H' and k.args[0] is this and (v in (TRUE, FALSE, NULL) or is_num(v))}
            r = m if r is None else {k: v for k, v in r.items() if m.get(k) is v}
    return r or {}


def first(ctx, P, R, f, outs):
    """a run initialises when it is the first and only then"""
    w = ctx.where(f) + ' (%s)' % P.config
    g = ctx.need(SB, 'init', P, np=1)
    after = constants(ctx.runs(g, SB, P)[1])
    made = None
    for c in ctx.ctors(SB, P):
        m = constants(Interp(P, SB).run(c['id']))
        made = m if made is None else {k: v for k, v in made.items() if m.get(k) is v}
    after.pop(mk('ld', R.tprev), None)
    if not any(after[k] is not v for k, v in (made or {}).items() if k in after):
        raise Maybe('what tells whether the simulator is initialised')
    for o in outs:
        if o.kind != 'return':
            continue
        init = any(e.kind == 'call' and e.name == 'init' for e, l in walk(o.events))
        M = after if init else made
        cs = [subst(c, M) for c in o.conds]
        ctx.check('a run initialises the simulator only when it has not been' if init else 'the first run initialises the simulator', w,
                  True if FALSE in cs else False if all(sure(c) for c in cs if not mentions(c, {'mu', 'mufin', 'kend', 'k'})) else None, showout(o)[:1500], [o])


def refusals(ctx, P, R, f, outs):
    """no path of a run with proper arguments raises an error"""
    w = ctx.where(f) + ' (%s)' % P.config
    t, mn, mx = (sym(p['n']) for p in f['params'])
    t0, N = mk('ld', R.tprev), sym('number of states')
    valid = [gt(mn, ZERO), lt(mn, mx), gt(N, ZERO), lt(t0, t)]

    def vec(x):
        """is this the content of one of the state vectors, at any time"""
        return x.op == 'ld' and x.args[0] in R.arrays or x.op in ('mu', 'mufin') and x.args[1] in R.arrays
    for o in outs:
        for x in [o] + [x for e, l in walk(o.events) if e.kind == 'loop' for x in e.x.outs]:
            if x.kind != 'throw':
                continue
            cs = [subst(c, {s: N for s in subterms(c) if s.op == 'size' and vec(s.args[0])}) for c in tuple(o.conds) + tuple(x.conds)]
            cs = [c for c in cs if not (c.op == 'not' and c.args[0].op == 'same' or c.op == 'same' and R.cb in c.args)]
            bad = not linear.infeasible(valid + [c for c in cs if c.op == 'cmp'] + [c for c in cs if c in (TRUE, FALSE)])
            if any(c.op == 'same' for c in cs):
                bad = bad and None       # without a stepper
            last = cs[-1] if cs else None
            known = last is TRUE or last is not None and last.op == 'cmp' and all(a.op in ('sym', 'num') or a is t0 for m in poly(last.args[0]) for a, e in m)
            if any(c.op == 'same' and NULL in c.args for c in cs):
                continue
            ctx.check('a run to a later time with proper step limits is not refused', w, True if not bad else False if known else None, showout(x)[:1500], [o, x])


def roots(c):
    return {s.args[0] for s in subterms(c) if s.op == 'ld'}


def linear_possible(o, l):
    return not linear.infeasible([c for c in o.conds if c.op == 'cmp'] + [l])


class Way:
    """iterations with the same arithmetic"""

    def __init__(self, it, S, num):
        self.it = it
        self.conds = [c for c in it.conds if arith(c)]
        self.T1, self.T2 = it.T1, it.T2
        self.next = {r: it.next.get(r, S.cell(r)) for r in num}
        self.guard = [c for c in self.conds if not contains(c, NH)]
        self.key = (frozenset(self.conds), self.T1, self.T2, tuple(self.next.values()), it.kind)


def loop(ctx, P, R, f, w, S, t, mn, mx, t0):
    first = [i for i in S.iters if i.step is not None and i.kind != 'throw']
    others = [i for i in S.iters if i.step is None and i.out.kind not in ('throw',)]
    if others:
        raise Maybe('iterations without a step')
    if any(i.kind not in ('ok', 'cont', 'continue') for i in first):
        raise Maybe('the loop is left after a step')
    numc = [r for r in S.cells if isnumber(S, r, first)]
    ways, seen = [], set()
    for i in first:
        x = Way(i, S, numc)
        if x.key not in seen:
            seen.add(x.key)
            ways.append(x)
    exits = []
    for e in S.exits:
        exits.append([c for c in e.conds if arith(c)])
    par = [gt(mn, ZERO), lt(mn, mx), lt(t0, t)]
    pre = [c for c in S.pre if c.op == 'cmp'] + par
    dim = [mk('mu', S.lp.uid, r) for r in numc]
    # what each iteration assumes about its own sub-step
    hyp = lambda x: [lt(x.T1, x.T2), le(x.T2, t), le(sub(x.T2, x.T1), mx), ge(x.T1, t0)]
    goals = lambda T1, T2: ((lt(T1, T2), 'is not empty'), (le(T2, t), 'does not pass the requested time'), (le(sub(T2, T1), mx), 'is at most the maximum step long'))
    bad = simulate(ways, exits, S, numc, t, mn, mx, t0)
    if bad is not None:
        ctx.check('sub-steps: ' + bad[0], w, False, bad[1] + '\n' + repr(S.ev)[:2500], [S.o])
        return
    inv = houdini(S, ways, exits, pre, par, numc, t, mn, mx, t0)

    def prove(what, conds, goal, where=w):
        ok = linear.entails(conds, goal)
        ctx.check('sub-steps: ' + what, where, True if ok else None, 'not derived: %s\nfrom %s' % (show(goal), [show(c) for c in conds][:40]), [S.o])
    m0 = S.shift(None)
    shapes = []
    for x in ways:
        k = (frozenset(x.guard), x.T1, x.T2)
        if k not in [s[:3] for s in shapes]:
            shapes.append(k)
    for G, T1, T2 in shapes:
        g, a, b = [subst(c, m0) for c in G], subst(T1, m0), subst(T2, m0)
        c = pre + g
        if linear.infeasible(c):
            continue
        prove('the first starts at the current time', c, eqn(a, t0))
        for gl, what in goals(a, b):
            prove('the first ' + what, c, gl)
    for e in exits:
        c = pre + [subst(x, m0) for x in e]
        ctx.check('sub-steps: a run to a later time takes at least one', w, True if linear.infeasible(c) else None, [show(x) for x in c], [S.o])
    rounded = {}
    for x in ways:
        m = S.shift(x.it)
        base = par + inv + hyp(x) + x.conds
        if linear.infeasible(base):
            continue
        h = sub(x.T2, x.T1)
        kinds = set()
        for G, T1, T2 in shapes:
            g, a, b = [subst(c, m) for c in G], subst(T1, m), subst(T2, m)
            c = base + g
            if linear.infeasible(c):
                continue
            acc = linear.entails(c, eqn(a, x.T2))
            redo = linear.entails(c, eqn(a, x.T1))
            if acc == redo:
                ctx.check('sub-steps: the next one starts where this one ended or started', w, None, '%s -> %s, %s' % (show(x.T1), show(x.T2), show(a)), [S.o])
                continue
            ctx.hold('sub-steps: the next one starts where this one ended or started', w)
            kinds.add(acc)
            for gl, what in goals(a, b):
                prove('the next one ' + what, c, gl)
            if redo:
                prove('a repeated one is shorter', c, lt(b, x.T2))
                prove('a repeated one is not below the minimum', c, ge(sub(b, a), mn))
        for e in exits:
            c = base + [subst(l, m) for l in e]
            if linear.infeasible(c):
                continue
            prove('the last one ends at the requested time', c, eqn(x.T2, t))
            kinds.add(True)
        if len(kinds) != 1:
            raise Maybe('a way through the loop that is neither acceptance nor repetition: %s' % [show(c) for c in x.conds])
        x.accept = kinds.pop()
        if not x.accept:
            for l, what in ((ge(NH, h), 'the stepper is satisfied'), (le(h, mn), 'it is not longer than the minimum')):
                ctx.check('sub-steps: none is repeated when ' + what, w, True if linear.infeasible(base + [l]) else None, [show(c) for c in x.conds], [S.o])
    live = [x for x in ways if hasattr(x, 'accept')]
    ctx.check('sub-steps: there are ways to accept and to repeat', w, {x.accept for x in live} == {True, False} or None, '%d ways' % len(live))
    # accepted although the stepper asks for less and there is room: only when it is the repetition of one at the minimum
    for x in live:
        if not x.accept:
            continue
        h = sub(x.T2, x.T1)
        want = [lt(NH, h), gt(h, mn)]
        if linear.infeasible(par + inv + hyp(x) + x.conds + want):
            ctx.hold('sub-steps: accepted only when satisfied, at the minimum, or forced', w)
            continue
        # reached from the start?
        c = pre + [subst(l, m0) for l in x.conds + want]
        ctx.check('sub-steps: the first is accepted only when satisfied or at the minimum', w, True if linear.infeasible(c) else None, [show(l) for l in c], [S.o])
        for y in live:
            m = S.shift(y.it)
            ren = {NH: sym('previous proposal')}
            mm = {k: subst(v, ren) for k, v in m.items()}
            yc = [subst(l, ren) for l in y.conds + inv + hyp(y)]
            c = par + yc + [subst(l, mm) for l in x.conds + want]
            if not y.accept:
                c = c + [gt(ren[NH], mn)]
            ctx.check('sub-steps: accepted only when satisfied, at the minimum, or forced', w, True if linear.infeasible(c) else None, [show(l) for l in c], [S.o])
    # a sub-step repeated at the minimum is accepted even when rounding makes it longer than the minimum
    for y in live:
        if y.accept:
            continue
        ren = {NH: sym('previous proposal')}
        m = {}
        extra = []
        for k, v in S.shift(y.it).items():
            v = subst(v, ren)
            if v.op == 'poly' and len(v.args[0]) > 1:
                r = sym('rounded ' + str(k.args[1]))
                extra += [gt(r, v), lt(sub(r, v), mul(num(Fr(1, 10 ** 9)), mn))]
                v = r
            m[k] = v
        yc = [subst(l, ren) for l in y.conds + inv + hyp(y)] + [le(ren[NH], mn)]
        if linear.infeasible(par + yc):
            continue
        for x in live:
            if x.accept:
                continue
            c = par + yc + extra + [subst(l, m) for l in x.conds]
            ctx.check('sub-steps: a sub-step repeated at the minimum is accepted whatever rounding makes of its length', w, linear.infeasible(c),
                      'repeated at the minimum, and repeated again: %s' % [show(l) for l in c], [S.o])


def isnumber(S, r, its):
    v = S.init.get(r)
    c = mk('mu', S.lp.uid, r)
    for i in its:
        for l in i.conds:
            if l is c or (l.op == 'not' and l.args[0] is c):
                return True
            if l.op == 'cmp' and contains(l, c):
                return True
        if contains(i.T1, c) or contains(i.T2, c):
            return True
        for q, x in i.next.items():
            if q is not r and q in S.cells and q.op == 'L' and contains(x, c) and x.op in ('poly', 'mu'):
                return True
    return False


# ---------------------------------------------------------------- template invariants
def houdini(S, ways, exits, pre, par, numc, t, mn, mx, t0):
    """differences between the carried times and the parameters that hold before every iteration (largest inductive subset of the candidates)"""
    flags = {l.args[0] if l.op == 'not' else l for x in ways for l in x.conds if l.op in ('not', 'mu')}
    cs = [mk('mu', S.lp.uid, r) for r in numc if mk('mu', S.lp.uid, r) not in flags]
    cand = []
    for a in cs:
        for b in (mn, mx):
            cand += [ge(a, b), le(a, b)]
        cand += [le(a, t), ge(a, t0), gt(a, ZERO)]
        for b in cs:
            if a is not b:
                cand += [lt(a, b), le(sub(b, a), mx)]
    m0 = S.shift(None)
    cand = [c for c in cand if linear.entails(pre, subst(c, m0))]
    while True:
        bad = set()
        for x in ways:
            m = S.shift(x.it)
            base = par + cand + x.conds + [lt(x.T1, x.T2), le(x.T2, t)]
            if linear.infeasible(base):
                continue
            for c in cand:
                if c not in bad and not linear.entails(base, subst(c, m)):
                    bad.add(c)
        if not bad:
            return cand
        cand = [c for c in cand if c not in bad]


# ---------------------------------------------------------------- concrete histories of the transition system
# (binary fractions: floating point is exact on them)
PARAMS = [(0., 1., .125, 10.), (1., 3.5, .5, 1.), (0., 3., 1., 2.), (0., 10., .25, 3.), (-2., 2., 1., 5.)]
ANSWERS = [lambda h, mn, mx: h, lambda h, mn, mx: h / 2, lambda h, mn, mx: 2 * h, lambda h, mn, mx: mn, lambda h, mn, mx: mn / 2, lambda h, mn, mx: h * .875, lambda h, mn, mx: 4 * mx]


class Open(Exception):
    pass


def compiled(ts, names):
    """python functions of the values of the named atoms for terms and literals; None where other atoms occur"""
    def code(x):
        if x in names:
            return names[x]
        if x is TRUE or x is FALSE:
            return str(x is TRUE)
        if x.op == 'num':
            c = x.args[0]
            return '(%r/%r)' % (c.numerator, c.denominator) if c.denominator != 1 else repr(c.numerator)
        if x.op == 'poly':
            ms = []
            for m, c in x.args[0]:
                k = code(num(c))
                for a, e in m:
                    if e < 0:
                        raise Open()
                    k += ''.join('*' + code(a) for _ in range(e))
                ms.append(k)
            return '(' + ' + '.join(ms) + ')'
        if x.op == 'cmp':
            o = {LT: '<', GT: '>', EQ: '==', LT | EQ: '<=', GT | EQ: '>=', LT | GT: '!='}[x.args[2]]
            return '(%s %s %s)' % (code(x.args[0]), o, code(num(x.args[1])))
        if x.op == 'not':
            return '(not %s)' % code(x.args[0])
        raise Open()
    out = []
    for t in ts:
        try:
            out.append(eval('lambda %s: %s' % (', '.join(names.values()), code(t))))
        except Open:
            out.append(None)
    return out


def simulate(ways, exits, S, numc, t, mn, mx, t0):
    """a history in which the loop breaks the rule, or None; histories it cannot follow are given up"""
    names = {t0: 'a0', t: 'a1', mn: 'a2', mx: 'a3', NH: 'a4'}
    for i, r in enumerate(numc):
        names[mk('mu', S.lp.uid, r)] = 'c%d' % i
    rest = [r for r in numc]
    pw = []
    for x in ways:
        g = compiled(x.guard, names)
        l = compiled([c for c in x.conds if c not in x.guard], names)
        nx = compiled([x.next[r] for r in rest], names)
        T = compiled([x.T1, x.T2], names)
        if None in g or None in l or None in T:
            return None
        pw.append((g, l, T, nx, x))
    pe = [compiled(e, names) for e in exits]
    if any(None in e for e in pe):
        return None
    init = compiled([S.init[r] for r in rest], names)
    pre = [c for c in compiled([c for c in S.pre if c.op == 'cmp'], names) if c]
    # runs about as long as the constants the loop compares with
    cs = {abs(float(s.args[1])) for x in ways for c in x.conds for s in subterms(c) if s.op == 'cmp'} | {abs(float(s.args[1])) for e in exits for c in e for s in subterms(c) if s.op == 'cmp'}
    for par in PARAMS + [(0., c * f, c * f / 8, 1.) for c in sorted(cs)[:6] if c for f in (.5, 2.)]:
        z = par + (0.,) + (0.,) * len(rest)
        if not all(c(*z) for c in pre):
            continue
        cells = tuple(c(*z) if c else None for c in init)
        r = follow(pw, pe, cells, par[0], par, [], None, False, 3)
        if r is not None:
            return r
    return None


def hist(tr):
    return 'history: ' + '; '.join('sub-step %s to %s, proposal %s' % x for x in tr)


def follow(pw, pe, cells, now_, par, trace, last, forced, depth):
    pars = 'current time, requested time, minimum and maximum step: %s %s %s %s' % par
    vt, mn, mx = par[1:]
    z = par + (0.,) + tuple(0. if c is None else c for c in cells)
    for e in pe:
        if all(c(*z) for c in e):
            if now_ != vt:
                return ('ends at the requested time', '%s: ended at %s; %s' % (pars, now_, hist(trace)))
            return None
    if len(trace) > 60:
        return None
    cand = [w for w in pw if all(c(*z) for c in w[0])]
    shape = {(w[2][0](*z), w[2][1](*z)) for w in cand}
    if len(shape) != 1:
        return None
    (a, b), = shape
    tr = trace + [(a, b, '?')]
    if a != now_:
        return ('each starts where the last accepted one ended', '%s: %s' % (pars, hist(tr)))
    if b <= a:
        return ('each is not empty', '%s: %s' % (pars, hist(tr)))
    if b > vt:
        return ('each stops at the requested time', '%s: %s' % (pars, hist(tr)))
    if b - a > mx:
        return ('each is at most the maximum step long', '%s: %s' % (pars, hist(tr)))
    if last is not None and (b >= last or b - a < mn):
        return ('a repeated one is shorter, but not below the minimum', '%s: %s' % (pars, hist(tr)))
    h = b - a
    for f in (ANSWERS if depth else ANSWERS[:1]):
        p = f(h, mn, mx)
        zz = z[:4] + (p,) + z[5:]
        hit = [w for w in cand if all(c(*zz) for c in w[1])]
        nxt = {tuple(v(*zz) if v else None for v in w[3]) for w in hit}
        if len(nxt) != 1:
            continue
        tr = trace + [(a, b, p)]
        accept = forced or p >= h or h <= mn
        r = follow(pw, pe, nxt.pop(), b if accept else a, par, tr, None if accept else b, not accept and p <= mn, depth - 1 if depth else 0)
        if r is not None:
            return r
    return None
