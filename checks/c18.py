"""C18: state is committed once per accepted step and never by trial evaluations"""
from substeps import *

RULE = """Every run is cut at the calls of the stepper (loop paths of consecutive iterations, and the paths leaving the loop, are combined; infeasible combinations are discarded by their
conditions). After an accepted sub-step exactly one commit follows before the next call of the stepper or the end of the run: all signals cleared, the stepper's result written to all states,
the model evaluated and post-step called, both at the end of the sub-step, with no pre-step in between. After a rejected one no post-step follows. Before every call of the stepper the signals
are cleared, inputs and pre-step are run at the start of the sub-step, and the states handed to the stepper are read from the signals. The derivative function only clears, sets the
trial states, and evaluates at the trial time without pre- and post-step. Runs without sub-steps commit once."""
ASSUME = ['evaluation passes do what C13 says', 'transfers of states use the right entries (C15)']


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(SB, P)
        R = Roles(P)
        done = set()
        for c in [SB] + simulators(P):
            g = ctx.need(c, 'run', P, np=3)
            if g['id'] not in done:
                done.add(g['id'])
                ctx.each('commits of a run (%s)' % P.config, ctx.where(g), one, ctx, P, R, g)


class Tok:
    def __init__(self, k, e, t=None, d=None, pm=False):
        self.k, self.e, self.t, self.d, self.pm = k, e, t, d, pm

    def __repr__(self):
        return '%s%s' % (self.k, '(%s)' % show(self.t) if self.t is not None else '[%s]' % self.d['list'] if self.d else '')


NSTATES = sym('number of state entries')


def lengths(x, R):
    """all versions of the state vectors have the same length"""
    m = {}
    for s in subterms(x):
        if s.op == 'size':
            v = s.args[0]
            while v.op in ('store', 'mapped'):
                v = v.args[0]
            if v.op in ('ld',) and v.args[0] in R.arrays or v.op in ('mufin', 'mu') and v.args[1] in R.arrays or v in (NS, CV) or v.op == 'ret' and str(v.args[0]).startswith('step.'):
                m[s] = NSTATES
    return subst(x, m) if m else x


def decide(x, conds, R):
    if x is TRUE or x is FALSE:
        return x
    cs = [lengths(c, R) for c in conds if c.op == 'cmp'] + [ge(NSTATES, ZERO)]
    x = lengths(x, R)
    if linear.entails(cs, x):
        return TRUE
    if linear.infeasible(cs + [x]):
        return FALSE
    return x


def flatten(events, R, f=lambda t: t, conds=()):
    out = []
    for x in tokens(events, R):
        k, e = x[0], x[1]
        if k in ('clear', 'set', 'get'):
            out.append(Tok(k, e, None, x[2]))
        elif k == 'inputs':
            out.append(Tok('inputs', e, f(e.args[-1])))
        elif k in ('input_cb', 'pre_step', 'post_step'):
            out.append(Tok(k, e, f(e.args[1])))
        elif k in ('process', 'activation_function'):
            out.append(Tok('process', e, f(e.args[1])))
        elif k == 'process_model':
            t, a, b = (f(z) for z in e.args[1:4])
            a, b = decide(a, conds, R), decide(b, conds, R)
            out.append(Tok('inputs', e, t, pm=True))
            out.append(Tok('input_cb', e, t, pm=True))
            for flag, name in ((a, 'pre_step'), (None, 'process'), (b, 'post_step')):
                if flag is None or flag is TRUE:
                    out.append(Tok(name, e, t, pm=True))
                elif flag is not FALSE:
                    raise Maybe('%s is called if %s' % (name, show(flag)))
        elif k in ('_mark_unprocessed', 'step'):
            out.append(Tok(k, e))
        elif k == 'loop':
            if any(y.kind in ('set', 'clear', 'fn') or (y.kind == 'call' and y.name in PASS) for y, l in walk([e])):
                raise Maybe('a loop that is not understood: %s' % repr(e)[:600])
        elif k == 'single':
            if e.kind in ('set', 'clear'):
                raise Maybe('a single signal is changed: %s' % repr(e)[:300])
    return out


def covers(toks, kind, R, pred):
    """do the transfers of this kind cover all states"""
    ls = sorted(t.d['list'] for t in toks if t.k == kind and t.d['full'] and t.d['straight'] and pred(t))
    return ls == ['array', 'scalar']


def committed(ctx, what, w, toks, R, isvec, istime, detail, paths, lead=()):
    """exactly one commit of the given states at the given time in a sequence"""
    posts = [i for i, t in enumerate(toks) if t.k == 'post_step']
    if not ctx.check('%s: exactly one commit' % what, w, len(posts) == 1, 'post-steps: %d\n%s' % (len(posts), detail), paths):
        return
    p = posts[0]
    seq = toks[:p]
    sets = [i for i, t in enumerate(seq) if t.k == 'set']
    ok = bool(sets)
    if not ctx.check('%s: the accepted states are written before the commit' % what, w, ok, detail, paths):
        return
    first, last = sets[0], sets[-1]
    # the last group of sets before the commit
    while first < last and any(t.k != 'set' for t in seq[first:last + 1]):
        first = sets[sets.index(first) + 1]
    v = [isvec(t) for t in seq[first:last + 1]]
    cov = covers(seq[first:last + 1], 'set', R, lambda t: True)
    ctx.check('%s: the states committed are those the stepper arrived at' % what, w, True if all(x is True for x in v) and cov else False if any(x is False for x in v) or not cov else None, detail, paths)
    cl = [i for i, t in enumerate(seq[:first]) if t.k == 'clear']
    full = cl and seq[cl[-1]].d['full'] and seq[cl[-1]].d['straight'] and seq[cl[-1]].d['list'] == 'value'
    mid = [t for t in seq[(cl[-1] if cl else 0):first] if t.k in ('set', 'inputs', 'input_cb', 'pre_step', 'process')]
    ctx.check('%s: all signals are cleared right before' % what, w, bool(full) and not mid, detail, paths)
    ev = [t for t in seq[last + 1:] if t.k == 'process']
    ctx.check('%s: the model is evaluated between' % what, w, len(ev) >= 1, detail, paths)
    bad = [t for t in seq[last + 1:] if t.k in ('pre_step', 'set', 'clear')]
    ctx.check('%s: nothing else publishes states between' % what, w, not bad, detail, paths)
    ts = [istime(t.t) for t in ev + [toks[p]]]
    ctx.check('%s: evaluation and commit are at its end time' % what, w, True if all(x is True for x in ts) else False if any(x is False for x in ts) else None, detail, paths)


def started(ctx, w, toks, R, it, detail, paths, null):
    """the sequence before a call of the stepper, from the last clear on"""
    what = 'before a sub-step'
    cl = [i for i, t in enumerate(toks) if t.k == 'clear']
    if not ctx.check('%s: signals are cleared' % what, w, bool(cl) and toks[cl[-1]].d['full'] and toks[cl[-1]].d['list'] == 'value' and toks[cl[-1]].d['straight'], detail, paths):
        return
    seq = toks[cl[-1] + 1:]
    ks = [t.k for t in seq if t.k in ('inputs', 'input_cb', 'pre_step', 'post_step', 'set')]
    explicit = [t.k for t in seq if t.k in ('inputs',)]
    want = (['inputs'] if (null is not True) and (explicit or null is False) else []) + ['input_cb', 'pre_step']
    ctx.check('%s: inputs and states are published' % what, w, ks == want, 'order: %s; %s' % (ks, detail), paths)
    c = it.hyp + it.conds
    ts = [t.t is it.T1 or linear.entails(c, eqn(t.t, it.T1)) or (False if sure(t.t, it.T1) or (sure(t.t) and it.T1.op == 'mu') or linear.infeasible(c + [eqn(t.t, it.T1)]) else None) for t in seq if t.t is not None]
    ctx.check('%s: at the start of the sub-step' % what, w, True if all(x is True for x in ts) else False if False in ts else None, detail, paths)
    pre = [i for i, t in enumerate(seq) if t.k == 'pre_step']
    gets = [t for t in seq[(pre[-1] if pre else 0):] if t.k == 'get' and not t.d['deriv']]
    roots = {t.d['root'] for t in gets if it.step.snap and it.step.snap.get(t.d['root']) is it.V0}
    mine = [t for t in gets if t.d['root'] in roots]
    ctx.check('%s: the states handed to the stepper are read from the signals' % what, w, covers(mine, 'get', R, lambda t: True), 'handed over: %s; %s' % (show(it.V0), detail), paths)


def nullcb(conds, R):
    for c in conds:
        if c.op == 'same' and R.cb in c.args and NULL in c.args:
            return True
        if c.op == 'not' and c.args[0].op == 'same' and R.cb in c.args[0].args and NULL in c.args[0].args:
            return False
    return None


def one(ctx, P, R, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs, cbs = mainrun(ctx, P, f)
    t, mn, mx = (sym(p['n']) for p in f['params'])
    t0 = mk('ld', R.tprev)
    for o in cbs:
        if o.kind == 'throw':
            continue
        ctx.each('derivative function', w, trial, ctx, w, R, o)
    if not cbs:
        raise Maybe('no derivative function')
    stepping = 0
    for o in outs:
        if o.kind != 'return' or any(e.kind == 'call' and e.name == 'init' for e in o.events):
            continue
        if any(e.kind == 'call' and e.name == 'step' for e, l in walk(o.events)):
            stepping += 1
            ctx.each('commits after sub-steps', w, windows, ctx, P, R, f, w, o, t, mn, mx, t0)
        else:
            ctx.each('commit of a run without sub-steps', w, single, ctx, w, R, o, t)
    if not stepping:
        raise Maybe('no sub-steps')


def trial(ctx, w, R, o):
    toks = flatten(o.events, R, conds=o.conds)
    d = '%s\n%s' % (toks, showout(o)[:1500])
    what = 'trial evaluation'
    ctx.check('%s: no pre-step and no post-step' % what, w, not any(x.k in ('pre_step', 'post_step') for x in toks), d, [o])
    ev = [i for i, x in enumerate(toks) if x.k == 'process']
    if not ctx.check('%s: evaluates the model' % what, w, len(ev) >= 1, d, [o]):
        return
    ts = [x.t is CT or (False if sure(x.t) or x.t is mk('trunc', CT) else None) for x in toks if x.t is not None]
    ctx.check('%s: at the trial time' % what, w, True if all(x is True for x in ts) else False if False in ts else None, d, [o])
    seq = toks[:ev[0]]
    sets = [x for x in seq if x.k == 'set']
    v = [x.d['vec'] is CV or (None if x.d['vec'] is None or not sure(x.d['vec']) else False) for x in sets]
    cov = covers(sets, 'set', R, lambda x: True)
    ctx.check('%s: the trial states are written to the signals' % what, w, True if cov and all(x is True for x in v) else False if not cov or False in v else None, d, [o])
    cl = [i for i, x in enumerate(seq) if x.k == 'clear']
    fs = [i for i, x in enumerate(seq) if x.k == 'set']
    ctx.check('%s: after all signals were cleared' % what, w, bool(cl) and bool(fs) and cl[-1] < fs[0] and seq[cl[-1]].d['full'] and seq[cl[-1]].d['list'] == 'value', d, [o])


def single(ctx, w, R, o, t):
    toks = flatten(o.events, R, conds=o.conds)
    d = '%s\n%s' % (toks, showout(o)[:1500])
    istime = lambda x: x is t or linear.entails([c for c in o.conds if c.op == 'cmp'], eqn(x, t)) or (False if sure(x) else None)
    posts = [x for x in toks if x.k == 'post_step']
    pres = [x for x in toks if x.k == 'pre_step']
    ctx.check('a run without sub-steps: one pre-step and one commit', w, len(posts) == 1 and len(pres) == 1, d, [o])
    ts = [istime(x.t) for x in toks if x.t is not None]
    ctx.check('a run without sub-steps: at the requested time', w, True if all(x is True for x in ts) else False if False in ts else None, d, [o])
    states = not any(c.op == 'cmp' and any(a in R.arrays for a in {s.args[0] for s in subterms(c) if s.op == 'ld'}) and linear.infeasible([c, gt(c.args[0], ZERO)]) for c in o.conds)
    if states and posts:
        # a repeated time: the states read back are the ones committed
        gets = [x for x in toks if x.k == 'get' and not x.d['deriv']]
        sets = [x for x in toks if x.k == 'set']
        roots = {x.d['root'] for x in gets}
        ok = len(roots) == 1 and all(x.d['vec'] is not None and value_of(o, x, roots) for x in sets)
        ctx.check('a repeated time: the states committed are the ones read', w, True if ok else None, d, [o])
        ctx.check('a repeated time: all states are read and written', w, covers(gets, 'get', R, lambda x: True) and covers(sets, 'set', R, lambda x: True), d, [o])
        order = [x.k for x in toks if x.k in ('pre_step', 'get', 'set', 'process', 'post_step')]
        want = ['pre_step', 'get', 'get', 'set', 'set', 'process', 'post_step']
        ctx.check('a repeated time: published, read, written, evaluated, committed', w, order == want, d, [o])


def value_of(o, x, roots):
    """does the vector written come from the roots read"""
    v = x.d['vec']
    return any(x.e.snap and x.e.snap.get(r) is v for r in roots)


def windows(ctx, P, R, f, w, o, t, mn, mx, t0):
    S = Substeps(ctx, P, R, f, o)
    if any(i.step is None and i.out.kind != 'throw' for i in S.iters):
        raise Maybe('iterations without a step')
    its = [i for i in S.iters if i.step is not None and i.kind != 'throw']
    par = [gt(mn, ZERO), lt(mn, mx), lt(t0, t)]
    at_ = o.events.index(S.ev)
    lead, tail = o.events[:at_], o.events[at_ + 1:]
    for i in its:
        k = i.out.events.index(i.step)
        i.before = flatten(i.out.events[:k], R, conds=o.conds + i.out.conds)
        i.after = flatten(i.out.events[k + 1:], R, lambda x: subst(x, i.m), o.conds + i.out.conds)
        i.hyp = [lt(i.T1, i.T2), le(i.T2, t)]
        kk = i.step
        i.nb = len([1 for c in i.conds])
    # shapes of what precedes a step
    shapes, seen = [], set()
    for j in its:
        G = [c for c in j.conds if not contains(c, NH) and not contains(c, NS)]
        key = (frozenset(G), tuple(repr(x) for x in j.before), j.T1)
        if key not in seen:
            seen.add(key)
            shapes.append((G, j))
            started(ctx, w, flatten(lead, R, conds=o.conds) + j.before if not any(x.k == 'clear' for x in j.before) else j.before, R, j, '%s\n%s' % (j.before, [show(c) for c in j.conds]), [S.o], nullcb(j.conds, R))
    exits = []
    for e in S.exits:
        exits.append((e.conds, e))
    tailt = flatten(tail, R, conds=o.conds)
    wseen = set()
    for i in its:
        m = S.shift(i)
        base = par + i.hyp + i.conds
        if linear.infeasible([c for c in base]):
            continue
        for G, j in shapes:
            c = base + [subst(x, m) for x in G]
            key = (tuple(repr(x) for x in i.after), tuple(repr(x) for x in j.before), frozenset(x for x in c if arith(x)))
            if key in wseen or linear.infeasible(c):
                continue
            wseen.add(key)
            a = subst(j.T1, m)
            acc, redo = linear.entails(c, eqn(a, i.T2)), linear.entails(c, eqn(a, i.T1))
            if acc == redo:
                raise Maybe('neither accepted nor repeated: %s' % show(a))
            seq = i.after + j.before
            # the commit ends where the publication of the next sub-step begins
            d = 'after a sub-step: %s; before the next: %s\nwhen %s' % (i.after, j.before, [show(x) for x in i.conds])
            if redo:
                ctx.check('a rejected sub-step is not committed', w, not any(x.k == 'post_step' for x in seq), d, [S.o])
            else:
                mm = lambda x: rep(x, i, m, j)
                committed(ctx, 'an accepted sub-step', w, seq, R, lambda x: arrived(mm(x.d['vec']), i),
                          lambda x: same_time(x, i.T2, m, c), d, [S.o])
        for ec, e in exits:
            c = base + [subst(x, m) for x in ec]
            key = (tuple(repr(x) for x in i.after), 'exit', frozenset(x for x in c if arith(x)))
            if key in wseen or linear.infeasible(c):
                continue
            wseen.add(key)
            mm = lambda x: rep(x, i, m, None)
            seq = i.after + flatten(e.out.events, R, conds=o.conds + e.out.conds) + tailt
            d = 'after the last sub-step: %s, %s\nwhen %s' % (i.after, tailt, [show(x) for x in i.conds])
            committed(ctx, 'the last sub-step', w, seq, R, lambda x: arrived(mm(x.d['vec']), i),
                      lambda x: same_time(mm(x), i.T2, {}, c), d, [S.o])


def rep(x, i, m, j):
    """a value seen after iteration i, in terms of i"""
    if x is None:
        return mk('undef')
    x = subst(x, i.m)
    mm = dict(m)
    for k, v in list(m.items()):
        mm[mk('mufin', k.args[0], k.args[1])] = v
    return subst(x, mm)


def arrived(v, i):
    """are these the states the stepper arrived at"""
    if v is NS:
        return True
    if v is i.V0 or v.op in ('mu', 'ld') or sure(v):
        return False
    return None


def same_time(x, want, m, conds):
    x2 = subst(x, m) if m and not linear.entails(conds, eqn(x, want)) else x
    if x2 is want or linear.entails(conds, eqn(x2, want)):
        return True
    return False if sure(x2) else None
