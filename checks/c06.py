"""C06: connecting a block is all-or-nothing and records every value signal"""
from blocks import *
from c07 import limits

RULE = """Block::connect is followed along every path, exception paths included, in both build modes: it succeeds exactly when the block is not
connected and both required numbers match, the rejected paths change nothing, and the successful path links exactly the value signals of the input
bus as required inputs and those of the output bus as outputs, makes the given buses the block's own and marks it connected. link_signal is decided for every number of entries up to the
bound and every position of the signal among them: it accumulates the roles of the one entry or adds one entry, and ignores signals that are not value signals. io_at, input and output
return the bus entry and link it with the given roles."""
ASSUME = ['a signal is listed at most once before the operation (established by the same rule)', 'up to 4 linked signals in the list cases']
CONN = mk('ld', H(this, '@connected'))
LS = mk('ld', H(this, '@linked_signals'))
VS = 'pooya::ValueSignalImpl'


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.each('Block::connect (%s)' % P.config, 'Block::connect', connect, ctx, P)
        ctx.each('link_signal (%s)' % P.config, 'Block::link_signal', linking, ctx, P)
        for n in ('input', 'output', 'io_at'):
            fs = [f for f in P.fns.values() if f['q'] == 'pooya::Block::' + n and 'body' in f]
            if not fs:
                raise Broken('no instance of Block::' + n)
            for f in fs:
                ctx.each('Block::%s (%s)' % (n, P.config), ctx.where(f), access, ctx, P, f, n)


def connect(ctx, P):
    f = ctx.need('pooya::Block', 'connect', P)
    w = ctx.where(f) + ' (%s)' % P.config
    lim = limits(ctx, P)
    if any(len(lim[b]) != 1 for b in lim):
        ctx.check('the required numbers of ports are compared with the bus sizes', w, False, str(lim))
        return
    LI, LO = (mk('ld', H(this, next(iter(lim[b])))) for b in (IBUS, OBUS))
    I = Interp(P, 'pooya::Block')
    I.hooks['pooya::Block::link_signal'] = link_summary
    I.hooks['pooya::Block::find_linked_signal'] = find_summary
    for b in (IBUS, OBUS):
        I.facts.ty[b] = 'pooya::Bus'
        I.facts.nonnulls.add(b)
    outs = I.run(f['id'], args=[IBUS, OBUS])
    ctx.note(I, outs)
    si, so = (size(mk('ld', H(b, '@signals'))) for b in (IBUS, OBUS))
    any_i, any_o, ok_i, ok_o = eqn(LI, num(ANY)), eqn(LO, num(ANY)), eqn(LI, si), eqn(LO, so)
    want = {frozenset({notb(CONN), a, b}) for a in (any_i, ok_i) for b in (any_o, ok_o)}
    got = {frozenset(o.conds) for o in outs if o.kind == 'return'}
    r = sameconds(got, want)
    ctx.check('connecting succeeds exactly when the block is unconnected and both port counts fit', w, r,
              '\n'.join(showout(o)[:800] for o in outs if o.kind == 'return'), outs)
    for o in outs:
        d = showout(o)
        if o.kind == 'throw':
            ch = [show(k) for k, v in o.cells.items() if k.op in ('H', 'Lnk') and v is not mk('ld', k) and not (k.op == 'H' and k.args[0].op == 'new')]
            ctx.check('a rejected connection changes nothing', w, not ch and not o.events, 'changed %s\n%s' % (ch, d), [o])
            continue
        ctx.check('connect returns true', w, o.val is TRUE, d, [o])
        c = o.cells
        ctx.check('the block is connected to the given buses', w, c.get(H(this, '@connected')) is TRUE and c.get(H(this, '@ibus')) is IBUS and c.get(H(this, '@obus')) is OBUS, d, [o])
        ctx.check('the list of linked signals changes only by linking', w, c.get(H(this, '@linked_signals'), LS) is LS or None, d, [o])
        other = [show(k) for k, v in c.items() if k.op == 'H' and v is not mk('ld', k) and k.args[0].op != 'new' and k.args[1] not in ('@connected', '@ibus', '@obus', '@linked_signals')]
        ctx.check('connecting changes nothing else', w, not other or None, '%s\n%s' % (other, d), [o])
        seen = {}
        for e in o.events:
            if e.kind == 'link':
                ctx.check('linking happens for every entry of a bus', w, False, d, [o])
            elif e.kind != 'loop':
                ctx.check('connecting does nothing but linking', w, None, repr(e) + d, [o])
            else:
                lp = e.x
                bus = IBUS if lp.n is si else OBUS if lp.n is so else None
                if bus is None or any(x.kind not in ('ok', 'exhaust') for x in lp.outs) or lp.inds and False:
                    ctx.check('the entries of a bus are all visited', w, None if bus is None else False, d, [o])
                    continue
                role = 9 if bus is IBUS else 2
                sig = fld(at(mk('ld', H(bus, '@signals')), mk('k', lp.uid)), 'second')
                seen[bus] = seen.get(bus, 0) + 1
                for x in lp.outs:
                    if x.kind == 'exhaust':
                        continue
                    lk = [y for y in x.events if y.kind == 'link']
                    isv = mk('isa', sig, VS)
                    if isv in x.conds:
                        good = len(lk) == 1 and lk[0].args[0] is this and lk[0].args[1] is sig and lk[0].args[2] is num(role) and len(x.conds) == 1
                        ctx.check('every value signal of the %s bus is linked as %s' % (('input', 'a required input') if bus is IBUS else ('output', 'an output')), w, good, repr(x) + '\n' + d, [o])
                    elif notb(isv) in x.conds and not lk and len(x.conds) == 1:
                        ctx.hold('entries that are not value signals are not linked', w)
                    else:
                        ctx.check('every value signal of the %s bus is linked' % ('input' if bus is IBUS else 'output'), w, False, repr(x) + '\n' + d, [o])
        for b in (IBUS, OBUS):
            ctx.check('the %s bus is linked in one pass' % ('input' if b is IBUS else 'output'), w, seen.get(b) == 1 or (False if not seen.get(b) else None), d, [o])


def linking(ctx, P):
    f = ctx.need('pooya::Block', 'link_signal', P, np=2)
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, 'pooya::Block', P)
    sig, bits_ = sym(f['params'][0]['n']), sym(f['params'][1]['n'])
    g = ctx.method('pooya::Block', 'find_linked_signal', P, np=1)
    if g is not None:
        J, fo = ctx.runs(g, 'pooya::Block', P)
        fsig = sym(g['params'][0]['n'])
    for o in outs:
        ctx.check('linking completes', w, o.kind == 'return', showout(o), [o])
        other = [show(k) for k, v in o.cells.items() if k.op == 'H' and v is not mk('ld', k) and k is not H(this, '@linked_signals')]
        ctx.check('linking changes only the list of linked signals', w, not other, '%s\n%s' % (other, showout(o)), [o])
    for n in range(5):
        ents = [at(LS, num(i)) for i in range(n)]
        for hit in [None] + list(range(n)):
            def oracle(s, value=True):
                def orc(l):
                    if l.op == 'isa' and l.args[0] is s and l.args[1] == VS:
                        return value
                    if l.op == 'same' and s in l.args:
                        y = l.args[0] if l.args[1] is s else l.args[1]
                        for i, e in enumerate(ents):
                            if y is fld(e, 'first'):
                                return i == hit
                    return None
                return orc
            what = 'a signal %s %d linked ones' % ('not among' if hit is None else 'at position %d of' % hit, n)
            for value in ((True, False) if hit is None else (True,)):
                ctx.each('linking ' + what, w, one_link, ctx, w, outs, oracle(sig, value), n, hit, value, sig, bits_, ents, what, I)
            if g is not None:
                ctx.each('finding ' + what, ctx.where(g), one_find, ctx, ctx.where(g), fo, oracle(fsig), n, hit, what)


def one_link(ctx, w, outs, orc, n, hit, value, sig, bits_, ents, what, I):
    W = World(orc, {LS: n})
    ps = W.paths(outs)
    if not ps:
        raise Maybe('path not clear')
    for o in ps:
        one_path(ctx, w, W, o, hit, value, n, sig, bits_, ents, what, I)


def one_path(ctx, w, W, o, hit, value, n, sig, bits_, ents, what, I):
    now_ = W.seq(o.cells.get(H(this, '@linked_signals'), LS))
    if now_ is not None:
        now_ = [W.norm(x) for x in now_]
    if now_ is None:
        raise Maybe('list of linked signals')
    d = '%s\n%s' % ([show(x) for x in now_], showout(o))
    if not value:
        ctx.check('linking ignores what is not a value signal', w, now_ == ents, d, [o])
        return
    if hit is None:
        good = len(now_) == n + 1 and now_[:-1] == ents and fld(now_[-1], 'first') is sig and fld(now_[-1], 'second') is bits_
    else:
        want = I.bitop('|', fld(ents[hit], 'second'), bits_)
        good = len(now_) == n and all((x is y) if i != hit else (fld(x, 'first') is fld(y, 'first') or fld(x, 'first') is sig) and fld(x, 'second') is want for i, (x, y) in enumerate(zip(now_, ents)))
    ctx.check('linking %s %s' % (what, 'adds one entry with the given roles' if hit is None else 'adds the roles to its entry'), w, good, d, [o])


def one_find(ctx, w, outs, orc, n, hit, what):
    go = concretize(None, {LS: n}, orc)
    o = chosen(outs, go)
    if o is None:
        raise Maybe('path not clear')
    v = go(o.val)
    want = NULL if hit is None else mk('addr', loc(H(this, '@linked_signals'), (('i', num(hit)),)))
    ctx.check('finding %s gives %s' % (what, 'nothing' if hit is None else 'its entry'), w, v is want, '%s\n%s' % (show(v), showout(o)), [o])


def access(ctx, P, f, n):
    w = ctx.where(f) + ' (%s)' % P.config
    I = Interp(P, 'pooya::Block')
    I.hooks['pooya::Block::link_signal'] = link_summary
    outs = I.run(f['id'])
    ctx.note(I, outs)
    ps = f['params']
    bus = mk('ld', H(this, '@ibus' if n == 'input' else '@obus')) if n != 'io_at' else sym(ps[0]['n'])
    key = sym(ps[0 if n != 'io_at' else 1]['n'])
    forms = {now(fld(at(mk('ld', H(bus, '@signals')), key), 'second')), now(mk('busat', bus, key))}
    for o in outs:
        d = showout(o)
        if o.kind != 'return' or now(o.val) not in forms:
            ctx.check('%s returns the bus entry' % f['n'], w, None if o.kind == 'return' and o.val.op not in ('ld', 'fld', 'busat', 'at') else False, d, [o])
            continue
        ctx.hold('%s returns the bus entry' % f['n'], w)
        isv = mk('isa', o.val, VS)
        lk = [e for e in o.events if e.kind == 'link']
        if n == 'io_at':
            t = sym(ps[2]['n'])
            want = mk('optval', t)
            should = mk('hasval', t) in o.conds and isv in o.conds
        else:
            want = num(9 if n == 'input' else 2)
            should = isv in o.conds
        good = (len(lk) == 1 and now(lk[0].args[1]) is now(o.val) and lk[0].args[2] is want) if should else not lk
        ctx.check('%s links the entry with its role' % f['n'], w, good, d, [o])
