"""C23: arithmetic and function blocks compute their documented formula"""
import re
from blocks import *

RULE = """For every instance of every formula block the value assigned to its output is computed symbolically from the typed
program (constructor, connect, activation function; helpers inlined, loops summarised) and compared, as a rational normal form,
with the documented formula over its ports and constructor parameters, on every path; each path assigns the output exactly once
and nothing else; a parameter of the formula (initial value, gain, constant) of a real block must not have an integer or single precision type, nor the time, inputs or result of its user function; user functions are called once with the documented arguments."""
ASSUME = ['arithmetic is compared over the reals', 'distinct signals of a bus do not share storage']
FORMULA = [t for t, s in SPEC.items() if not s.stateful]


def check(ctx):
    for cls, sp, ctors in each_block(ctx, FORMULA):
        for c in ctors:
            ctx.each('formula of ' + cls, ctx.where(c), one, ctx, cls, sp, c)
            ctx.each('parameters of ' + cls, ctx.where(c), parameters, ctx, cls, sp, c)


NARROW = re.compile(r'^(const )?((un)?signed |short |long )*(int|short|long|char|bool|float|(un)?signed|u?int\d+_t)( const)?&{0,2}$')


def parameters(ctx, cls, sp, c):
    """a parameter of the formula takes every value the formula is documented for"""
    whole = bool(re.search(r'[<, ](unsigned )?int\b', cls))
    if sp.fn:
        for p in c['params']:
            m = re.match(r'^(?:const )?std::function<(.*?) ?\((.*)\)>', p['ty'])
            if m:
                a = [x.strip() for x in m.group(2).split(',')]
                bad = [x for x in a if NARROW.match(x) and not (whole and len(a) > 1)] + ([m.group(1)] if NARROW.match(m.group(1)) and not whole else [])
                ctx.check('the user function of %s takes and gives real numbers' % cls, ctx.where(c), not bad, 'type: %s' % p['ty'])
        return
    if whole:
        return
    used = {s for s in subterms(now(sp.val(c))) if s.op == 'sym'}
    for p in c['params']:
        if sym(p['n']) in used:
            ctx.check('parameter %s of %s takes real numbers' % (p['n'], cls), ctx.where(c), not NARROW.match(p['ty'].strip()), 'type: %s' % p['ty'])


def one(ctx, cls, sp, c):
    m, outs = phase(ctx, cls, ACT, ctors=[c])
    w = ctx.where(m)
    if not outs:
        I, m2, con = connected(ctx, cls, c)
        ctx.check('%s can be connected and evaluated' % cls, ctx.where(m2), False if con and all(sure(*o.conds) for o in con) else None, '\n'.join(map(showout, con)), con)
        return
    for o in outs:
        d = showout(o)
        if not ctx.check('evaluation of %s completes' % cls, w, o.kind in ('return', 'ok'), d, [o]):
            continue
        fns = [(e, l) for e, l in walk(o.events) if e.kind == 'fn']
        if sp.fn:
            want = tuple(now(x) for x in sp.fn(c))
            ok = len(fns) == 1 and not fns[0][1] and len(want) == len(fns[0][0].args) and all(eq(x, y, o) for x, y in zip(fns[0][0].args, want))
            ctx.check('%s calls the user function exactly once with (%s)' % (cls, ', '.join(show(x) for x in want[1:])), w, ok, d, [o])
            if sp.outs != 1:
                ctx.check('%s leaves its outputs to the user function' % cls, w, not sets(o), d, [o])
                continue
            val = fns[0][0].ret if fns else None
        else:
            val = sp.val(c)
            ctx.check('%s calls nothing' % cls, w, not fns, d, [o])
        st = sets(o)
        one_set = len(st) == 1 and not st[0][2] and samesig(st[0][0], OUT)
        ctx.check('%s assigns its output exactly once and no other signal' % cls, w, one_set, d, [o])
        if one_set and val is not None:
            r = equal(st[0][1], val, o.conds, [N], o)
            ctx.check('%s outputs %s' % (cls, show(now(val))), w, r, 'assigned: %s\n%s' % (show(now(st[0][1])), d), [o])


def eq(a, b, o):
    return now(a) is b or equal(a, b, o.conds) is True
