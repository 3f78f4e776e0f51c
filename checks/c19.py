"""C19: evaluating a block never changes its remembered state"""
from blocks import *

RULE = """For every instance of every library leaf block and every path of its evaluation (activation function, helpers inlined) from an arbitrary
remembered state: no field of the block that any phase reads before writing (live-in of pre-step, evaluation or post-step), no static variable and no
field of another block is changed. The initial-value block is required to change nothing once its first input is latched, the derivative block nothing once it
has been committed."""
ASSUME = ['user functions called by function blocks are outside the library']
BOOK = ('@processed',)


def leaves(ctx, P=None):
    P = P or ctx.R
    for cls in sorted(P.recs):
        r = P.recs[cls]
        if r.get('complete', True) and P.derives(cls, 'pooya::Leaf') and cls.startswith('pooya::') and ctx.ctors(cls, P) and cls != 'pooya::Leaf':
            if not r.get('abstract') and P.template(cls) in SPEC:
                yield cls


def live(ctx, cls, P=None):
    """fields of the block whose value at the start of some phase matters"""
    out = {}
    for ph in (PRE, ACT, POST):
        m, outs = phase(ctx, cls, ph, P)
        for o in outs:
            for t in alltermsof(o):
                for s in subterms(t):
                    if s.op == 'ld' and s.args[0].op == 'H' and s.args[0].args[0] is this:
                        out.setdefault(s.args[0].args[1], ph)
                    elif s.op == 'ld' and s.args[0].op == 'G':
                        out.setdefault(s.args[0], ph)
    return out


def alltermsof(o):
    """terms that can matter to an observer: conditions, event arguments, final values other than a field's own initial value"""
    def conds(x):
        yield from x.conds
        for e, _ in [(e, None) for e in x.events]:
            yield from e.args
            if e.kind == 'loop':
                if e.x.n is not None:
                    yield e.x.n
                for y in e.x.outs:
                    yield from conds(y)
    yield from conds(o)
    for r, v in o.cells.items():
        if r.op in ('H', 'G') and v is not mk('ld', r) and v is not o.start.cells.get(r):
            yield v
    if isinstance(o.val, T):
        yield o.val


def changes(o, lv):
    """live state this path changes"""
    out = []
    for r, v in o.cells.items():
        if v is o.start.cells.get(r, mk('ld', r)) or (v.op == 'ld' and v.args[0] is r):
            continue
        if r.op == 'H' and r.args[0] is this:
            if r.args[1] in lv and r.args[1] not in BOOK:
                out.append((r, v))
        elif r.op == 'H' and r.args[1] in ('@value', '@assigned'):
            continue
        elif r.op == 'H' and r.args[0].op == 'new':
            continue
        elif r.op == 'G':
            if r in lv:
                out.append((r, v))
        elif r.op == 'H':
            out.append((r, v))
    for e, _ in walk(o.events):
        if e.kind in ('store', 'fset', 'link', 'deriv', 'clear'):
            root = e.args[0] if e.args else None
            out.append((mk('event', '%s %s' % (e.kind, e.name)), root if isinstance(root, T) else NULL))
    return out


def check(ctx):
    n = 0
    for cls in leaves(ctx):
        n += 1
        ctx.each('evaluation of ' + cls, cls, one, ctx, cls)
    if n < 20:
        raise Broken('only %d leaf blocks found' % n)


def one(ctx, cls):
    P = ctx.R
    t = P.template(cls)
    lv = live(ctx, cls)
    m, outs = phase(ctx, cls, ACT)
    w = ctx.where(m)
    if t == 'pooya::InitialValueT':
        for c in ctx.ctors(cls):
            for first in ('as constructed', 'arbitrary'):
                s = begin(ctx, cls, c, first == 'arbitrary')
                s = advance(ctx, cls, s, ACT, sym('t1'), '@1')
                s = [x for x in s if x.outs[-1].kind == 'return']
                s = advance(ctx, cls, s, ACT, sym('t2'), '@2')
                report(ctx, cls, w, [x.outs[-1] for x in s], lv, 'an evaluation after the first one (%s)' % first)
    elif t == 'pooya::DerivativeT':
        for c in ctx.ctors(cls):
            s = begin(ctx, cls, c, True)
            s = advance(ctx, cls, s, POST, sym('t1'), '@1')
            s = [x for x in s if x.outs[-1].kind == 'return']
            s = advance(ctx, cls, s, ACT, sym('t2'), '@2')
            report(ctx, cls, w, [x.outs[-1] for x in s], lv, 'an evaluation after a commit')
    else:
        report(ctx, cls, w, outs, lv, 'an evaluation')


def report(ctx, cls, w, outs, lv, what):
    if not outs:
        ctx.undecided('%s of %s' % (what, cls), w, 'no path')
    for o in outs:
        ch = changes(o, lv)
        ctx.check('%s of %s changes nothing it remembers (%s)' % (what, cls, ', '.join(sorted(f for f in lv if isinstance(f, str) and f[0] != '@')) or 'nothing'), w, not ch,
                  'changed: %s\n%s' % ('; '.join('%s := %s' % (show(a), show(b)) for a, b in ch), showout(o)), [o])
