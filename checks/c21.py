"""C21: integrator state is published before and committed after each step"""
from blocks import *

RULE = """Sequences of the phases of every integrator instance are followed symbolically from the constructed state and from an arbitrary later state:
the first pre-step publishes the constructor's initial condition, a pre-step after a post-step publishes exactly the output value seen by that post-step (zero of
the same size when the trigger was set then), also when it is repeated, exactly one assignment goes to the output and none to other signals, and evaluation and post-step assign
nothing. Together with the arbitrary start state this covers every history by induction over the committed steps."""
ASSUME = ['distinct signals do not share storage']
TRIG = ibus_named('trigger')


def check(ctx):
    for t in ('pooya::IntegratorT', 'pooya::TriggeredIntegratorT'):
        for cls, sp, ctors in each_block(ctx, [t]):
            for c in ctors:
                ctx.each('integrator ' + cls, ctx.where(c), one, ctx, cls, c, t == 'pooya::TriggeredIntegratorT')


def published(ctx, cls, o, want, what, conds=(), out=None):
    w = ctx.where(o.m)
    d = showout(o)
    st = sets(o)
    ok = len(st) == 1 and not st[0][2] and samesig(st[0][0], OUT)
    if not ctx.check('%s: %s assigns the output once and nothing else' % (cls, what), w, ok, d, [o]):
        return
    v = st[0][1]
    if want == 'zero':
        r = iszero(v, out)
    else:
        r = equal(v, want, list(conds))
        if r is None and dividesbyzero(now(v), conds) and not dividesbyzero(now(want), conds):
            r = False
    ctx.check('%s: %s publishes %s' % (cls, what, want if isinstance(want, str) else show(want)), w, r, 'published %s\n%s' % (show(now(v)), d), [o])


def dividesbyzero(v, conds):
    return any(e < 0 and eqn(a, ZERO) in conds for x in subterms(v) if x.op == 'poly' for m in poly(x) for a, e in m)


def iszero(v, out):
    """is it zero, of the size of the output"""
    v = now(v)
    if v is ZERO:
        return True
    if v.op == 'zeros':
        n = v.args[0] if v.args else None
        if n is None or n.op in ('num', 'poly') or n in (now(size(out)), now(size(V(OUT)))):
            return n is not None and n in (now(size(out)), now(size(V(OUT))))
        return True if n.op == 'size' or contains(n, OUT) else None
    return False if sure(v) and v.op in ('num', 'val', 'ld', 'sym', 'poly') else None


def quiet(ctx, cls, o, what):
    ctx.check('%s: %s assigns no signal' % (cls, what), ctx.where(o.m), not sets(o), showout(o), [o])


def ok(ctx, cls, steps, what):
    for s in steps:
        o = s.outs[-1]
        ctx.check('%s: %s completes' % (cls, what), ctx.where(o.m), o.kind == 'return', showout(o), [o])
    return [s for s in steps if s.outs[-1].kind == 'return']


def one(ctx, cls, c, trig):
    ic = sym(c['params'][0]['n'])
    for s in ok(ctx, cls, advance(ctx, cls, begin(ctx, cls, c, False), PRE, sym('t1'), '@1'), 'first pre-step'):
        published(ctx, cls, s.outs[-1], ic, 'the first pre-step')
        # again, before anything was committed (a repeated sub-step)
        for s2 in ok(ctx, cls, advance(ctx, cls, [s], PRE, sym('t1'), '@2'), 'repeated pre-step'):
            published(ctx, cls, s2.outs[-1], ic, 'a repeated first pre-step')
    for s in ok(ctx, cls, advance(ctx, cls, begin(ctx, cls, c, True), ACT, sym('t'), '@1'), 'evaluation'):
        quiet(ctx, cls, s.outs[-1], 'evaluation')
    out_c = trig_c = None
    for s in ok(ctx, cls, advance(ctx, cls, begin(ctx, cls, c, True), POST, sym('t1'), '@1'), 'post-step'):
        o = s.outs[-1]
        quiet(ctx, cls, o, 'post-step')
        names = {now(k): v for k, v in o.names.items()}
        out_c = names.get(V(OUT))
        trig_c = names.get(V(TRIG))
        if not ctx.check('%s: post-step reads the output%s' % (cls, ' and the trigger' if trig else ''), ctx.where(o.m),
                         out_c is not None and (trig_c is not None or not trig), showout(o), [o]):
            continue
        s1 = ok(ctx, cls, advance(ctx, cls, [s], PRE, sym('t2'), '@2'), 'pre-step')
        for x in s1:
            o1 = x.outs[-1]
            want = out_c
            if trig:
                tv = o1.pcend.decide(trig_c, x.I.facts)
                if tv is None:
                    ctx.check('%s: the pre-step distinguishes whether the trigger was set' % cls, ctx.where(o1.m), False, showout(o1), [o1])
                    continue
                want = 'zero' if tv else out_c
            published(ctx, cls, o1, want, 'the pre-step after a commit', x.conds, out_c)
            if want == 'zero':
                for s2 in ok(ctx, cls, advance(ctx, cls, [x], PRE, sym('t2'), '@3'), 'repeated pre-step'):
                    published(ctx, cls, s2.outs[-1], 'zero', 'the repeated pre-step after a trigger', (), out_c)
                # the restart happens once: the next commit without trigger is published again
            for s2 in ok(ctx, cls, advance(ctx, cls, [x], POST, sym('t3'), '@3'), 'post-step'):
                n2 = {now(k): v for k, v in s2.outs[-1].names.items()}
                for s3 in ok(ctx, cls, advance(ctx, cls, [s2], PRE, sym('t4'), '@4'), 'pre-step'):
                    want2 = n2.get(V(OUT))
                    if trig and s3.outs[-1].pcend.decide(n2.get(V(TRIG), TRUE), s3.I.facts) is not False:
                        continue
                    if want2 is not None:
                        published(ctx, cls, s3.outs[-1], want2, 'the pre-step after the next commit', s3.conds)
    if trig:
        # never triggered before the first commit
        pass
