"""C07: every block type enforces its arity and binds its named ports"""
from blocks import *

RULE = """For every instance of every library block: the port limits its constructor leaves in the fields that Block::connect compares with the
sizes of the buses (found by data flow) are the documented ones; on every path of its connect the general connection comes first, a failed one
makes it report failure with nothing bound, linked or changed, a successful one makes it report success with its signal handles bound to exactly
the documented ports; and each phase reads exactly the ports documented for it, with the operand order of Subtract and Divide."""
ASSUME = ['a block is constructed by its public constructor', 'distinct entries of a bus are distinct signals']
IN0, IN1 = ibus_at(0), ibus_at(1)
# signals each phase may read, and must read on some path
READS = {
    'pooya::DelayT': {ACT: [ibus_named('delay'), ibus_named('initial')], POST: [ibus_named('in')]},
    'pooya::MemoryT': {ACT: [], POST: [IN0]},
    'pooya::DerivativeT': {ACT: [IN0], POST: [IN0, OUT]},
    'pooya::InitialValueT': {ACT: [IN0], POST: []},
    'pooya::IntegratorT': {ACT: [], POST: [OUT]},
    'pooya::TriggeredIntegratorT': {ACT: [], POST: [OUT, ibus_named('trigger')]},
}


def limits(ctx, P):
    """the fields holding the required numbers of inputs and outputs: what Block::connect compares the bus sizes with"""
    f = ctx.need('pooya::Block', 'connect', P)
    I, outs = ctx.runs(f, 'pooya::Block', P, args=[IBUS, OBUS])
    found = {IBUS: set(), OBUS: set()}
    for o in outs:
        for c in o.conds:
            for s in subterms(c):
                if s.op == 'cmp':
                    fs = {x.args[0].args[1] for x in subterms(s) if x.op == 'ld' and x.args[0].op == 'H' and x.args[0].args[0] is this}
                    for b in found:
                        if any(x.op == 'size' and x.args[0] is mk('ld', H(b, '@signals')) for x in subterms(s)):
                            found[b] |= fs
    return found


def check(ctx):
    P = ctx.R
    lim = limits(ctx, P)
    w = ctx.where(ctx.need('pooya::Block', 'connect'))
    for b, n in ((IBUS, 'input'), (OBUS, 'output')):
        if len(lim[b]) != 1:
            ctx.violate('Block::connect compares the number of %ss with one required number' % n, w, 'compared with %s' % sorted(lim[b]))
            return
        ctx.hold('Block::connect compares the number of %ss with %s' % (n, sorted(lim[b])[0]), w)
    inf, outf = next(iter(lim[IBUS])), next(iter(lim[OBUS]))
    for t in SPEC:
        for cls, sp, ctors in each_block(ctx, [t]):
            for c in ctors:
                ctx.each('ports of ' + cls, ctx.where(c), one, ctx, t, cls, sp, c, inf, outf)


def limit(sp, c, side, t):
    n = sp.ins if side == 'in' else sp.outs
    if n is None:
        return None
    if isinstance(n, tuple):
        # a parameter: documented as the constructor's own port-count parameter, in order
        ps = [p for p in c['params'] if strip(p['ty']) in ('unsigned short', 'uint16_t', 'unsigned int', 'int', 'unsigned long')]
        k = 0 if side == 'in' or t == 'pooya::Sources' else 1
        return sym(ps[k]['n']) if k < len(ps) else num(ANY)
    return num(n)


def one(ctx, t, cls, sp, c, inf, outf):
    w = ctx.where(c)
    I, m, outs = connected(ctx, cls, c)
    for ct in {id(x.ctor): x.ctor for x in outs}.values():
        for side, f in (('in', inf), ('out', outf)):
            want = limit(sp, c, side, t)
            if want is None:
                continue
            got = ct.cells.get(H(this, f))
            r = None if got is None else (got is want or (False if sure(got) else None))
            ctx.check('%s requires %s %sputs' % (cls, 'any number of' if want is num(ANY) else show(want), side), w, r, 'the constructor sets %s to %s\n%s' % (f, show(got) if got is not None else '?', showout(ct)), [ct])
    mw = ctx.where(m)
    gs = good(outs)
    if not gs:
        ctx.check('%s can be connected' % cls, mw, False if outs else None, '\n'.join(showout(o) for o in outs), outs)
        return
    hf = handles(ctx.R, cls)
    ports = expected(sp, cls, ctx.R)
    for o in outs:
        d = showout(o)
        calls = [e for e in o.events if e.kind == 'call' and e.name == 'Block::connect']
        if m['q'] != 'pooya::Block::connect':
            ctx.check('connecting %s makes the general connection exactly once with the given buses' % cls, mw,
                      len(calls) == 1 and calls[0].args == (this, IBUS, OBUS), d, [o])
            if len(calls) != 1:
                continue
            e = calls[0]
            i = o.events.index(e)
            early = [x for x in o.events[:i] if x.kind in ('link', 'deriv', 'set')] + [r for r, v in e.snap.items() if r.op == 'H' and r.args[0] is this and v is not o.ctor.cells.get(r, mk('ld', r)) and r.args[1] != '@linked_signals']
            ctx.check('%s binds nothing before the general connection succeeded' % cls, mw, not early, d, [o])
        if mk('connects', this, IBUS, OBUS) in o.conds:
            ctx.check('%s reports success after connecting' % cls, mw, o.kind == 'throw' or o.val is TRUE, d, [o])
        else:
            changed = [show(r) for r, v in o.cells.items() if r.op == 'H' and r.args[0] is this and v is not o.ctor.cells.get(r, mk('ld', r))]
            ok = o.kind == 'return' and o.val is FALSE and not changed and not [e for e in o.events if e.kind in ('link', 'deriv', 'set')]
            ctx.check('%s reports failure and stays unbound when the general connection failed' % cls, mw, ok, 'changed: %s\n%s' % (changed, d), [o])
    for o in gs:
        got = sorted(show(now(o.cells.get(H(this, f), NULL))) for f in hf)
        want = sorted(show(now(x)) for x in ports)
        ok = True if got == want else (False if all(isport(o.cells.get(H(this, f), NULL)) for f in hf) else None)
        ctx.check('%s binds its handles to exactly its ports' % cls, mw, ok, 'bound: %s\nports: %s\n%s' % (got, want, showout(o)), [o])
        ibs, obs = o.cells.get(H(this, '@ibus')), o.cells.get(H(this, '@obus'))
        ctx.check('%s keeps its own buses' % cls, mw, ibs is IBUS and obs is OBUS, showout(o), [o])
    # the ports each phase reads
    rd = READS.get(t)
    if rd:
        for ph, want in rd.items():
            pm, po = phase(ctx, cls, ph, ctors=[c])
            seen = set()
            for o in po:
                r = reads(o)
                seen |= r
                ctx.check('%s::%s reads no other port than %s' % (cls, ph, [show(x) for x in want]), ctx.where(pm), r <= set(map(now, want)), '%s\n%s' % ([show(x) for x in r], showout(o)), [o])
            ctx.check('%s::%s reads %s' % (cls, ph, [show(x) for x in want]), ctx.where(pm), seen == set(map(now, want)), [show(x) for x in seen], po)
    if t in ('pooya::SubtractT', 'pooya::DivideT'):
        pm, po = phase(ctx, cls, ACT, ctors=[c])
        for o in po:
            st = sets(o)
            if len(st) == 1:
                want = sp.val(c)
                sw = sub(io(1), io(0)) if t == 'pooya::SubtractT' else div(io(1), io(0))
                r = equal(st[0][1], sw, o.conds)
                ctx.check('%s takes its first input first' % cls, ctx.where(pm), not r, showout(o), [o])


def handles(P, cls):
    return [P.canon(c, f['f']) for c, f in P.all_fields(cls) if P.derives(strip(f['ty']), 'pooya::Signal') and strip(f['ty']) != 'pooya::Bus']


def isport(t):
    t = now(t)
    return t.op in ('busat', 'fld', 'new') and sure(t)


def expected(sp, cls, P):
    hs = handles(P, cls)
    out = [OUT] if sp.outs == 1 else []
    ins = list(sp.inports or [])
    # an integrator only needs its input while connecting; blocks keep the ports they use later
    t = P.template(cls)
    if t in ('pooya::IntegratorT', 'pooya::TriggeredIntegratorT'):
        ins = [x for x in ins if x is not IN0]
    if len(hs) == len(out):       # the inputs are taken from the bus when they are used
        ins = []
    return out + ins


def reads(o):
    out = set()
    for t in terms_of(o):
        for s in subterms(now(t)):
            if s.op == 'val':
                out.add(s.args[0])
    return out


def terms_of(o):
    yield from o.conds
    for e, _ in walk(o.events):
        yield from e.args
        if e.kind == 'loop':
            for x in e.x.outs:
                yield from x.conds
    for r, v in o.cells.items():
        if r.op == 'H' and r.args[0] is this and v is not o.start.cells.get(r):
            yield v
    if isinstance(o.val, T):
        yield o.val
