"""C24: memory, delay, derivative and initial-value blocks give the right past value"""
from blocks import *
from c21 import ok, published

RULE = """Sequences of the phases of each instance are followed symbolically from the constructed state and from an arbitrary later state (induction over commits).
Memory: evaluation outputs the initial value first and after a commit exactly the input of that commit. Derivative: the initial value until the first
commit, then (as rational identity) change of input over elapsed time, or the committed output when no time has elapsed. Initial value: the first input for
ever. Delay: for every number of recorded samples up to the bound and every order relation of the delayed time to them (all 2n+1 cases), the one path taken
outputs the documented value; a commit appends the time and the input together, erases the same leading samples of both, and only samples no
delayed time within the lifespan can need."""
ASSUME = ['recorded times increase', 'samples up to 4 (more when the code compares with a larger constant)', 'arithmetic over the reals']
IN0 = ibus_at(0)


def check(ctx):
    for t, fn in (('pooya::MemoryT', memory), ('pooya::DerivativeT', derivative), ('pooya::InitialValueT', initial), ('pooya::DelayT', delay)):
        for cls, sp, ctors in each_block(ctx, [t]):
            for c in ctors:
                ctx.each(cls, ctx.where(c), fn, ctx, cls, c)


def step(ctx, cls, s, ph, t, tag, what):
    return ok(ctx, cls, advance(ctx, cls, s, ph, sym(t), tag), what)


def named(o, sig):
    return {now(k): v for k, v in o.names.items()}.get(V(sig))


def silent(ctx, cls, steps, what):
    for s in steps:
        ctx.check('%s: %s assigns no signal' % (cls, what), ctx.where(s.outs[-1].m), not sets(s.outs[-1]), showout(s.outs[-1]), [s.outs[-1]])
    return steps


def memory(ctx, cls, c):
    ic = sym(c['params'][0]['n'])
    s0 = begin(ctx, cls, c, False)
    s0 = silent(ctx, cls, step(ctx, cls, s0, PRE, 't0', '@p', 'pre-step'), 'pre-step')
    for s in step(ctx, cls, s0, ACT, 't1', '@1', 'evaluation'):
        published(ctx, cls, s.outs[-1], ic, 'the first evaluation', s.conds)
        for s2 in step(ctx, cls, [s], ACT, 't1', '@2', 'evaluation'):
            published(ctx, cls, s2.outs[-1], ic, 'a repeated first evaluation', s2.conds)
    s1 = silent(ctx, cls, step(ctx, cls, begin(ctx, cls, c, True), POST, 't1', '@1', 'post-step'), 'post-step')
    for s in s1:
        o = s.outs[-1]
        want = named(o, IN0)
        if not ctx.check('%s: the commit reads the input' % cls, ctx.where(o.m), want is not None, showout(o), [o]):
            continue
        for s2 in step(ctx, cls, step(ctx, cls, [s], PRE, 't2', '@2', 'pre-step'), ACT, 't2', '@3', 'evaluation'):
            published(ctx, cls, s2.outs[-1], want, 'the evaluation after a commit', s2.conds)
            for s3 in step(ctx, cls, [s2], ACT, 't3', '@4', 'evaluation'):
                published(ctx, cls, s3.outs[-1], want, 'a repeated evaluation after a commit', s3.conds)


def derivative(ctx, cls, c):
    y0 = sym(c['params'][0]['n'])
    s0 = silent(ctx, cls, step(ctx, cls, begin(ctx, cls, c, False), PRE, 't0', '@p', 'pre-step'), 'pre-step')
    for s in step(ctx, cls, s0, ACT, 't1', '@1', 'evaluation'):
        published(ctx, cls, s.outs[-1], y0, 'the first evaluation', s.conds)
        for s2 in step(ctx, cls, [s], ACT, 't2', '@2', 'evaluation'):
            published(ctx, cls, s2.outs[-1], y0, 'a repeated evaluation before the first commit', s2.conds)
    for s in silent(ctx, cls, step(ctx, cls, begin(ctx, cls, c, True), POST, 'tc', '@1', 'post-step'), 'post-step'):
        o = s.outs[-1]
        x, y = named(o, IN0), named(o, OUT)
        if not ctx.check('%s: the commit reads input and output' % cls, ctx.where(o.m), x is not None and y is not None, showout(o), [o]):
            continue
        s2 = silent(ctx, cls, step(ctx, cls, [s], PRE, 't', '@2', 'pre-step'), 'pre-step')
        for rep in range(2):
            s2 = step(ctx, cls, s2, ACT, 't' if not rep else 'u', '@%d' % (3 + rep), 'evaluation')
            t = sym('t' if not rep else 'u')
            for z in s2:
                o2 = z.outs[-1]
                same_t = o2.pcend.decide(eqn(t, sym('tc')), z.I.facts)
                quot = div(sub(V(IN0), x), sub(t, sym('tc')))
                if same_t is not False:
                    cs = list(o2.conds) + [eqn(t, sym('tc'))]
                    published(ctx, cls, o2, y, 'an evaluation at the time of the commit', cs)
                if same_t is not True:
                    published(ctx, cls, o2, quot, 'an evaluation at a later time', [k for k in o2.conds if not (k.op == 'cmp' and k.args[2] == EQ)])


def initial(ctx, cls, c):
    s0 = silent(ctx, cls, step(ctx, cls, begin(ctx, cls, c, False), PRE, 't0', '@p', 'pre-step'), 'pre-step')
    for s in step(ctx, cls, s0, ACT, 't1', '@1', 'evaluation'):
        o = s.outs[-1]
        published(ctx, cls, o, V(IN0), 'the first evaluation', o.conds)
        want = named(o, IN0)
        if want is None:
            continue
        seq = [s]
        for i, ph in enumerate((POST, PRE, ACT, ACT, POST, PRE, ACT)):
            seq = step(ctx, cls, seq, ph, 't%d' % (i + 2), '@%d' % (i + 2), 'a later phase')
            for z in seq:
                if ph == ACT:
                    published(ctx, cls, z.outs[-1], want, 'a later evaluation', z.outs[-1].conds)
                else:
                    silent(ctx, cls, [z], 'a later phase')


DELAY, INIT, IN = ibus_named('delay'), ibus_named('initial'), ibus_named('in')


def delay(ctx, cls, c):
    P = ctx.R
    life = sym(c['params'][0]['n'])
    m, post = phase(ctx, cls, POST, ctors=[c])
    w = ctx.where(m)
    TF, XF = None, None
    for o in post:
        for r, v in o.cells.items():
            if r.op == 'H' and r.args[0] is this and v.op in ('append', 'erase'):
                last = v
                while last.op == 'erase':
                    last = last.args[0]
                if last.op == 'append':
                    it = now(last.args[1])
                    if it is sym('t'):
                        TF = r
                    elif it is V(IN):
                        XF = r
                    elif it.op == 'val':
                        ctx.check('%s records its input' % cls, w, False, 'it records %s\n%s' % (show(it), showout(o)), [o])
                        return
    if TF is None or XF is None:
        # nothing a commit leaves behind has anything to do with the time, or with the input
        done = [o for o in post if o.kind == 'return']
        kept = [v for o in done for r, v in o.cells.items() if r.op in ('H', 'G') and v is not mk('ld', r)] + [a for o in done for e, l in walk(o.events) for a in e.args if isinstance(a, T)]
        inside = set()
        for v in kept:
            inside |= set(subterms(now(v)))
        blind = any(x.op in ('mu', 'mufin', 'opaque', 'ret', 'comp') for x in inside) or any(e.kind in ('loop', 'call', 'store') for o in done for e, l in walk(o.events))
        for want, what in ((sym('t'), 'the time'), (V(IN), 'its input')):
            if done and want not in inside:
                ctx.check('%s records %s at every commit' % (cls, what), w, None if blind else False, '\n'.join(map(showout, done)), done)
        ctx.undecided('%s records time and input' % cls, w, 'no sequence of times and inputs found')
        return
    for ct in ctx.ctors(cls):
        I, outs = constructed(ctx, cls, ct)
        for o in outs:
            if o.kind == 'return':
                ctx.check('%s starts without samples' % cls, ctx.where(ct), all(o.cells.get(f, EMPTY) is EMPTY for f in (TF, XF)), showout(o), [o])
    for ph in (PRE, ACT):
        pm, po = phase(ctx, cls, ph, ctors=[c])
        for o in po:
            ctx.check('%s::%s leaves the samples alone' % (cls, ph), ctx.where(pm), all(o.cells.get(f, mk('ld', f)) is mk('ld', f) for f in (TF, XF)), showout(o), [o])
            if ph == PRE:
                ctx.check('%s::%s assigns no signal' % (cls, ph), ctx.where(pm), not sets(o), showout(o), [o])
    am, act = phase(ctx, cls, ACT, ctors=[c])
    for o in post:
        ctx.check('%s::post_step completes and assigns no signal' % cls, w, o.kind == 'return' and not sets(o), showout(o), [o])
    TS, XS = now(mk('ld', TF)), now(mk('ld', XF))
    sizes = set(range(5))
    for o in act + post:
        for k in o.conds:
            if k.op == 'cmp' and k.args[0] in (size(TS), size(XS)) and 4 < abs(k.args[1]) < 40:
                sizes |= {int(k.args[1]), int(k.args[1]) + 1}
    for n in sorted(sizes):
        times = [at(TS, num(i)) for i in range(n)]
        vals = [at(XS, num(i)) for i in range(n)]
        for rank in range(2 * n + 1):
            where = 'between samples %d and %d' % (rank // 2 - 1, rank // 2) if rank % 2 == 0 else 'at sample %d' % (rank // 2)
            if n == 0:
                where = 'without samples'
            ctx.each('%s with %d samples, delayed time %s' % (cls, n, where), ctx.where(am), output, ctx, cls, am, act, TS, XS, n, rank, times, vals, where)
            ctx.each('%s with %d samples, start of lifespan %s' % (cls, n, where), w, commit, ctx, cls, m, post, TF, XF, TS, XS, n, rank, times, vals, where, life)


def pick(outs, go, what):
    o = chosen(outs, go)
    if o is None:
        raise Maybe('the path taken is not clear: ' + what)
    return o


def output(ctx, cls, m, outs, TS, XS, n, rank, times, vals, where):
    t, d = sym('t'), V(DELAY)
    go = concretize(None, {TS: n, XS: n}, order_oracle(times, rank, (t, d)))
    o = pick(outs, go, 'evaluation')
    what = '%s with %d samples, delayed time %s' % (cls, n, where)
    st = sets(o)
    one = len(st) == 1 and not st[0][2] and samesig(st[0][0], OUT) and o.kind == 'return'
    if not ctx.check('%s: assigns its output once and nothing else' % what, ctx.where(m), one, showout(o), [o]):
        return
    got = go(now(st[0][1]))
    u = sub(t, d)
    if n == 0 or rank <= 1:
        want = V(INIT)
    elif rank >= 2 * n - 1:
        want = vals[-1]
    elif rank % 2:
        want = vals[rank // 2]
    else:
        k = rank // 2
        want = add(mul(sub(vals[k], vals[k - 1]), div(sub(u, times[k - 1]), sub(times[k], times[k - 1]))), vals[k - 1])
    if rank % 2:
        s = {t: add(times[rank // 2], d)}
        got, want = subst(got, s), subst(want, s)
    r = rateq(got, want)
    if not r and (not sure(got) or any(s.op in ('first', 'ex', 'sum', 'prod', 'comp') for s in subterms(got))):
        r = None
    ctx.check('%s: outputs %s' % (what, show(want)), ctx.where(m), r, 'outputs %s\n%s' % (show(got), showout(o)), [o])


def commit(ctx, cls, m, outs, TF, XF, TS, XS, n, rank, times, vals, where, life):
    t = sym('t')
    go = concretize(None, {TS: n, XS: n}, order_oracle(times, rank, (t, life)))
    o = pick(outs, go, 'commit')
    what = '%s: commit with %d samples, start of lifespan %s' % (cls, n, where)
    tt, xx = go.seq(now(o.cells.get(TF, mk('ld', TF)))), go.seq(now(o.cells.get(XF, mk('ld', XF))))
    if tt is None or xx is None:
        raise Maybe('sample sequences after the commit')
    d = 'times %s\nvalues %s\n%s' % ([show(x) for x in tt], [show(x) for x in xx], showout(o))
    e = n + 1 - len(tt)
    ctx.check(what + ' appends the time and the input', ctx.where(m), bool(tt) and bool(xx) and tt[-1] is t and xx[-1] is V(IN), d, [o])
    ctx.check(what + ' keeps times and values together', ctx.where(m), tt[:-1] == times[e:] and xx[:-1] == vals[e:] and e >= 0, d, [o])
    ctx.check(what + ' keeps the samples still needed', ctx.where(m), e == 0 or (e < n and 2 * e + 1 < rank), d, [o])
