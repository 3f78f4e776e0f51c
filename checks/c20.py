"""C20: integrators and memories break algebraic loops"""
from blocks import *
from c07 import reads
from c19 import leaves

RULE = """The role bits every library leaf block leaves on each of its linked signals after connecting are computed along every path of its connect
(Block::connect, link_signal and find_linked_signal by their summaries, which C06 decides): every input keeps the required role except the input of a memory or
integrator; no output is required except an integrator's, which is; an integrator registers its first input as the derivative of its output exactly once;
evaluation reads only required signals and the pre-step phase reads none."""
ASSUME = ['distinct entries of the input and output bus are distinct signals', 'the inputs are value signals']
REQ = 8
IN0 = ibus_at(0)
FREE = {'pooya::MemoryT', 'pooya::IntegratorT', 'pooya::TriggeredIntegratorT'}
INTEG = {'pooya::IntegratorT', 'pooya::TriggeredIntegratorT'}


def role(sig):
    """roles Block::connect gives"""
    b = bus_of(sig)
    return 9 if b is IBUS else 2 if b is OBUS else None


def bus_of(sig):
    for s in subterms(sig):
        if s in (IBUS, OBUS):
            return s
    return None


def required_enum(ctx):
    """the value of the Required bit"""
    return REQ


def final_roles(o):
    out = {}
    for r, v in o.cells.items():
        if r.op == 'Lnk':
            out[r.args[0]] = bitval(fld(v, 'second'), role)
    return out


def check(ctx):
    n = 0
    for cls in leaves(ctx):
        n += 1
        ctx.each('roles of ' + cls, cls, one, ctx, cls)
    if n < 20:
        raise Broken('only %d leaf blocks found' % n)


def one(ctx, cls):
    P = ctx.R
    t = P.template(cls)
    sp = SPEC[t]
    for c in ctx.ctors(cls):
        I, m, outs = connected(ctx, cls, c)
        w = ctx.where(m)
        gs = [o for o in good(outs) if not any(x.op == 'not' and x.args[0].op == 'isa' and x.args[0].args[1] == 'pooya::ValueSignalImpl' for x in o.conds)]
        if not gs:
            ctx.check('%s can be connected to value signals' % cls, w, None, '\n'.join(map(showout, outs)))
            continue
        for o in gs:
            d = showout(o)
            if any(x.op == 'not' and x.args[0].op == 'linked' for x in o.conds):
                continue      # the inputs and outputs of a connected block are linked
            ro = final_roles(o)
            for sig, b in sorted(ro.items(), key=lambda x: show(x[0])):
                who = bus_of(sig)
                if b is None or who is None:
                    ctx.undecided('role of %s' % show(sig), w, d)
                    continue
                if who is IBUS:
                    free = t in FREE and sig is IN0
                    ok = bool(b & REQ) != free and b & 1 and not b & 2
                    ctx.check('%s %s its input %s (and keeps it linked as an input)' % (cls, 'does not require' if free else 'requires', show(sig)), w, bool(ok), 'roles %s\n%s' % (b, d), [o])
                else:
                    need = t in INTEG and sig is OUT
                    ok = bool(b & REQ) == need and b & 2 and not b & 1
                    ctx.check('%s %s its output %s (and keeps it linked as an output)' % (cls, 'requires' if need else 'does not require', show(sig)), w, bool(ok), 'roles %s\n%s' % (b, d), [o])
            if t in FREE:
                ctx.check('%s releases its input' % cls, w, IN0 in ro, d, [o])
            ls = o.cells.get(H(this, '@linked_signals'))
            if ls is not None and ls is not o.ctor.cells.get(H(this, '@linked_signals')) and ls.op != 'ld':
                ctx.undecided('%s changes its linked signals directly' % cls, w, d)
            de = [(e, l) for e, l in walk(o.events) if e.kind == 'deriv']
            if t in INTEG:
                ok = len(de) == 1 and not de[0][1] and now(de[0][0].args[0]) is OUT and now(de[0][0].args[1]) is IN0
                ctx.check('%s registers its input as the derivative of its output' % cls, w, ok, d, [o])
            else:
                ctx.check('%s registers no derivative' % cls, w, not de, d, [o])
        for ph in (ACT, PRE):
            pm, po = phase(ctx, cls, ph, ctors=[c])
            for o in po:
                if any(x.op == 'not' and x.args[0].op == 'isa' and x.args[0].args[1] == 'pooya::ValueSignalImpl' for x in o.connect.conds):
                    continue
                ro = final_roles(o.connect)
                bad = [show(s) for s in reads(o) if ph == PRE or not (ro.get(s, role(s) if bus_of(s) is not None else 8) or 0) & REQ]
                ctx.check('%s::%s reads %s' % (cls, ph, 'no signal' if ph == PRE else 'required signals only'), ctx.where(pm), not bad, 'reads %s\n%s' % (bad, showout(o)), [o])
