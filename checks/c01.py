"""C01: a value signal is written once per evaluation and never read before that"""
from sigs import *

RULE = """Every operation of the four kinds of value signal and every operator and conversion of their handles is summarised path by path as plain code, exception
paths included, in both build modes.  The effect of each path (cells changed, value returned, exception) is compared with the specified one for every combination of
'assigned before' and agreement of sizes: construction leaves the signal unassigned, assignment stores exactly the argument and marks the signal, reading returns exactly
the stored value and changes nothing, clearing unmarks; with debug checks a second assignment, a read of an unassigned signal and an array of another size throw and change nothing."""
ASSUME = ['the array held by an array signal has the size of the signal before the operation (established by construction and kept by assignment, both checked)']


def check(ctx):
    for P in (ctx.R, ctx.D):
        dbg = P.config == 'debug'
        for c in impls(ctx, P):
            arr = c == ARR
            for k in ctx.ctors(c, P):
                ctx.each('a new signal is unassigned (%s)' % P.config, ctx.where(k), construct, ctx, P, c, k, arr)
            for name, np in (('set_value', 1), ('get_value', 0), ('clear', 0), ('assigned', 0)) + ((('get_value', 1),) if arr else ()):
                f = ctx.need(c, name, P, np=np)
                ctx.each('%s (%s)' % (name, P.config), ctx.where(f), operation, ctx, P, c, f, this, dbg, arr, None)
        for h, c in sorted(handles(ctx, P, bus=False).items()):
            n = 0
            for f in sorted((m for m in P.methods.get(h, []) if 'body' in m and not m.get('isctor')), key=lambda m: m['id']):
                if f['n'].startswith('~') or f.get('static'):
                    continue
                if f['n'] == 'operator=' or f.get('conv') or f['n'] == 'operator[]':
                    n += 1
                    ctx.each('%s (%s)' % (f['n'], P.config), ctx.where(f), operation, ctx, P, h, f, sym('sig'), dbg, c == ARR, c)
            if n < 3:
                raise Broken('%s offers only %d operators' % (h, n))


def construct(ctx, P, c, k, arr):
    I = interp(P, c)
    st = State()
    base(I, st, c)
    outs = I.run(k['id'], st0=st)
    ctx.note(I, outs)
    for o in outs:
        if o.kind == 'throw':
            continue
        v = o.cells.get(H(this, '@assigned'))
        ctx.check('a new signal is unassigned', ctx.where(k), None if v is None or v not in (TRUE, FALSE) else v is FALSE, showout(o), [o])
        if arr:
            a, s = o.cells.get(H(this, '@value')), o.cells.get(H(this, '@size'))
            ok = a is not None and s is not None and equal(size(a), s)
            ctx.check('the array of a new signal has its size', ctx.where(k), ok if ok is not None else None, showout(o), [o])
    if not any(o.kind == 'return' for o in outs):
        ctx.violate('a signal can be constructed', ctx.where(k), showout(outs[0]) if outs else '')


def kind(P, h, f, impl):
    """what an operation has to do"""
    n, ps = f['n'], [strip(p['ty']) for p in f['params']]
    if n in ('set_value', 'clear', 'assigned'):
        return n
    if n == 'get_value':
        return 'element' if ps else 'get'
    if n == 'operator=':
        return 'copy' if ps and ps[0] == h else 'set_value'
    if n == 'operator[]':
        return 'element'
    return 'get'


def operation(ctx, P, cls, f, S, dbg, arr, impl):
    I = interp(P, cls)
    st = State()
    A = sym('other')
    args = None
    k = kind(P, cls, f, impl)
    if impl is not None:
        for x in (S, A):
            know(I, x, impl)
        for n in viewfields(P, cls):
            st.cells[H(this, n)] = S
        if k == 'copy':
            st.cells[mk('A', 'src')] = rootobj(P, cls, A)
            args = [loc(mk('A', 'src'))]
    outs = I.run(f['id'], st0=st, args=args)
    ctx.note(I, outs)
    w = ctx.where(f)
    arg = args[0] if args else None
    pname = f['params'][0]['n'] if f['params'] else None
    value = sym(pname or 'arg0')
    sz, val = mk('ld', H(S, '@size')), mk('val', S)
    dims = [(1, 1), (1, 2), (2, 1), (3, 3), (0, 0), (0, 1)] if arr else [(1, 1)]
    for was in (False, True):
        for src in ((False, True) if k == 'copy' else (None,)):
            for n, m in dims:
                tab = {mk('asg', S): was}
                tab[now(sz)] = Fr(n)
                tab[size(val)] = Fr(n)
                tab[size(value)] = Fr(m)
                if src is not None:
                    tab[mk('asg', A)] = src
                    tab[now(mk('ld', H(A, '@size')))] = Fr(m)
                    tab[size(mk('val', A))] = Fr(m)
                W = World(lambda t, tab=tab: tab.get(now(t)), {})
                yes, maybe = taken(outs, W)
                sit = '%s assigned=%s%s%s' % (f['q'], was, '' if src is None else ' source assigned=%s' % src, ' sizes %d/%d' % (n, m) if arr else '')
                if not yes and not maybe:
                    raise Maybe('no path for ' + sit)
                bad = (k in ('get', 'element') and not was) or (k == 'set_value' and (was or (arr and n != m))) or (k == 'copy' and (was or not src or (arr and n != m)))
                for o in yes:
                    one(ctx, w, sit, k, o, S, A, value, dbg, bad, W)
                for o in maybe:      # paths that also depend on values or names: every one of them may be taken
                    if not sure(*o.conds):
                        raise Maybe('%s: %s' % (sit, [show(c)[:200] for c in o.conds]))
                    one(ctx, w, sit, k, o, S, A, value, dbg, bad, W)


def isbool(v, exp, W):
    """whether a truth value certainly is the expected one; a condition on something free is not"""
    if v is None:
        return False
    try:
        return bool(W.val(v)) == exp
    except Unknown:
        return False if sure(v) else None


def one(ctx, w, sit, k, o, S, A, value, dbg, bad, W):
    ch = {r: v for r, v in changed(o).items() if not (r.op == 'H' and r.args[0] is this and S is not this)}
    if S is not this:
        for r, v in o.cells.items():
            if r.op == 'H' and r.args[0] is this and v is not S:
                ctx.violate('an operator of a handle leaves it on its signal', w, sit + '\n' + showout(o))
                return
    show_ = sit + '\n' + showout(o) + '\nchanged: ' + '; '.join('%s := %s' % (show(r), show(v)) for r, v in ch.items())
    AS, VA = H(S, '@assigned'), H(S, '@value')
    if bad:
        if not dbg:
            return     # without the debug checks nothing is promised
        ctx.check('a forbidden operation is rejected', w, o.kind == 'throw', show_, [o])
        if o.kind == 'throw':
            ctx.check('a rejected operation changes nothing', w, not ch, show_, [o])
        return
    if o.kind == 'throw':
        ctx.violate('an allowed operation is not rejected', w, show_)
        return
    if k in ('get', 'element', 'assigned'):
        ctx.check('reading changes nothing', w, not ch, show_, [o])
        v = o.val
        if isinstance(v, T) and v.op == 'loc':
            v = mk('ld', v.args[0]) if not v.args[1] else None
        if v is None:
            raise Maybe('returns a part of the signal')
        exp = mk('asg', S) if k == 'assigned' else mk('val', S)
        v = now(v)
        if k == 'element':
            ok = v.op == 'at' and v.args[0] is mk('val', S) and v.args[1].op == 'sym'
        elif k == 'assigned':
            ok = v is exp or isbool(v, W.val(exp), W)
        else:
            ok = v is exp or equal(v, exp)
        ctx.check('reading returns exactly the stored value', w, ok, show_, [o])
        return
    if k == 'clear':
        ctx.check('clearing unmarks the signal', w, isbool(o.cells.get(AS, mk('asg', S)), False, W), show_, [o])
        ctx.check('clearing changes nothing else', w, not (set(ch) - {AS, VA}), show_, [o])
        return
    exp = value if k == 'set_value' else mk('val', A)
    got = ch.get(VA)
    ctx.check('assigning marks the signal', w, isbool(ch.get(AS), True, W), show_, [o])
    ok = got is not None and (now(got) is exp or equal(now(got), exp))
    ctx.check('assigning stores exactly the given value', w, ok if got is None or ok is not None else None, show_, [o])
    ctx.check('assigning changes nothing else', w, not (set(ch) - {AS, VA}), show_, [o])
