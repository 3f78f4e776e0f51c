"""C22: state and derivative signals are paired only when type and size agree"""
from sigs import *

RULE = """The constructors, the factory, set_deriv_signal and every other public operation of scalar and array signals are summarised path by path as plain code, in both
build modes: a new signal has no derivative and the size it was created with (1 for scalars); registering succeeds exactly for signals of the same type and size, records
that very signal and changes nothing else; every refusal leaves the registration as it was; no other operation changes the registration or the size; state_variable,
deriv_signal and size report exactly these."""
ASSUME = ['the registered signal has the type and size of the signal before the operation (induction over operations)']
DER, SZ = '@deriv', '@size'


def check(ctx):
    for P in (ctx.R, ctx.D):
        for c in ('pooya::ScalarSignalImpl', ARR):
            ctx.cls(c, P)
            arr = c == ARR
            for k in ctx.ctors(c, P):
                ctx.each('construction (%s)' % P.config, ctx.where(k), construct, ctx, P, c, k, arr)
            f = ctx.need(c, 'create_new', P)
            ctx.each('factory (%s)' % P.config, ctx.where(f), factory, ctx, P, c, f, arr)
            f = ctx.need(c, 'set_deriv_signal', P, np=1)
            ctx.each('registration (%s)' % P.config, ctx.where(f), register, ctx, P, c, f)
            for name in ('state_variable', 'deriv_signal', 'size'):
                f = ctx.need(c, name, P, np=0)
                ctx.each('%s (%s)' % (name, P.config), ctx.where(f), report, ctx, P, c, f, name)
            others(ctx, P, c)
        for h, c in sorted(handles(ctx, P, bus=False).items()):
            if c in ('pooya::ScalarSignalImpl', ARR):
                for k in P.methods.get(h, []):
                    if k.get('isctor') and 'body' in k and not any(strip(p['ty']) in P.handles or P.derives(strip(p['ty']), SIGT) for p in k['params']):
                        ctx.each('signals made by handles (%s)' % P.config, ctx.where(k), made, ctx, P, h, c, k)


def sized(ctx, w, P, o, root_s, f, arr, what):
    v = o.cells.get(root_s)
    if v is None:
        raise Maybe('size not known')
    exp = num(1)
    if arr:
        ps = [p for p in f['params'] if strip(p['ty']) in ('unsigned long', 'unsigned int', 'int', 'long')]
        if len(ps) != 1:
            raise Maybe('which parameter is the size?')
        exp = sym(ps[0]['n'])
    r = equal(v, exp)
    ctx.check(what, w, r, showout(o), [o])


def construct(ctx, P, c, k, arr):
    I = interp(P, c)
    st = State()
    base(I, st, c)
    outs = I.run(k['id'], st0=st)
    ctx.note(I, outs)
    w = ctx.where(k)
    for o in outs:
        if o.kind != 'return':
            continue
        d = o.cells.get(H(this, DER))
        ctx.check('a new signal has no derivative signal', w, d is NULL if d is not None and d.op in ('null', 'sym', 'new') else None, showout(o), [o])
        sized(ctx, w, P, o, H(this, SZ), k, arr, 'a new signal has the given size')


def factory(ctx, P, c, f, arr):
    I = interp(P, None)
    outs = I.run(f['id'])
    ctx.note(I, outs)
    w = ctx.where(f)
    for o in outs:
        if o.kind != 'return':
            continue
        v = o.val
        if not isinstance(v, T) or v.op != 'new':
            raise Maybe('what the factory returns is not known')
        ctx.check('the factory makes a signal of its class', w, P.derives(v.args[1], c), showout(o), [o])
        sized(ctx, w, P, o, H(v, SZ), f, arr, 'the factory makes a signal of the given size')
        d = o.cells.get(H(v, DER))
        ctx.check('the factory makes a signal without derivative signal', w, d is NULL if d is not None and d.op in ('null', 'sym', 'new') else None, showout(o), [o])


def made(ctx, P, h, c, k):
    I = interp(P, h)
    outs = I.run(k['id'])
    ctx.note(I, outs)
    w = ctx.where(k)
    for o in outs:
        if o.kind != 'return':
            continue
        vs = {v for n in viewfields(P, h) for v in [o.cells.get(H(this, n))]}
        for v in vs:
            if v is None or v.op != 'new':
                raise Maybe('the signal of a new handle is not known')
            s = o.cells.get(H(v, SZ))
            ps = [p for p in k['params'] if strip(p['ty']) in ('unsigned long', 'unsigned int', 'int', 'long')]
            if c == ARR and len(ps) != 1:
                raise Maybe('which parameter is the size?')
            ctx.check('a handle makes a signal of the size asked for', w, None if s is None else equal(s, sym(ps[0]['n']) if c == ARR else num(1)), showout(o), [o])


def register(ctx, P, c, f):
    I = interp(P, c)
    A = sym('derivative')
    I.facts.ty[A] = SIGT + ' *'
    I.facts.nonnulls.add(A)
    st = State()
    p = f['params'][0]
    t = strip(p['ty'])
    if t == 'pooya::Signal' or t in P.handles:
        I.facts.ty[sym('src')] = t + ' *'
        I.facts.nonnulls.add(sym('src'))
        for n in viewfields(P, t):
            st.cells[H(sym('src'), n)] = A
        args = [loc(mk('D', sym('src')))]
    else:
        args = None
        A = sym(p['n'])
    outs = I.run(f['id'], st0=st, args=args)
    ctx.note(I, outs)
    w = ctx.where(f)
    D0 = H(this, DER)
    for typed in (True, False):
        for n, m in ((1, 1), (1, 2), (2, 1), (0, 0), (3, 0), (2, 2)):
            for before in (True, False):
                tab = {mk('isa', A, c): typed}
                old = mk('ld', D0)

                def atom(t):
                    if t.op == 'isa' and t.args[0] is A:
                        return typed if t.args[1] == c else True if P.derives(c, t.args[1]) and typed else typed if t.args[1] in P.ancestors(c) else False
                    if t.op == 'ld' and t.args[0].op == 'H' and t.args[0].args[1] == SZ:
                        return Fr(n) if t.args[0].args[0] is this else Fr(m) if t.args[0].args[0] is A else None
                    if t.op == 'same' and NULL in t.args:
                        x = [y for y in t.args if y is not NULL]
                        if x == [A]:
                            return False
                        if x and x[0].op == 'ld' and x[0].args[0] is D0:
                            return not before
                    return None
                W = World(atom, {})
                yes, maybe = taken(outs, W)
                sit = 'type %s, sizes %d and %d, %s' % ('same' if typed else 'other', n, m, 'registered before' if before else 'none before')
                ctx.each('registration', w, situation, ctx, w, sit, yes, maybe, typed and n == m, A, D0)


def situation(ctx, w, sit, yes, maybe, ok, A, D0):
    if len(yes) != 1 or maybe:
        # several paths may differ in diagnostics only
        if not yes or maybe:
            raise Maybe('%d/%d paths for %s' % (len(yes), len(maybe), sit))
    for o in yes:
        ch = changed(o)
        ch = {r: v for r, v in ch.items() if not (r.op == 'H' and r.args[0] is sym('src'))}
        d = sit + '\n' + showout(o)
        if ok:
            if o.kind != 'return':
                ctx.violate('a signal of the same type and size is accepted as derivative', w, d)
                continue
            v = ch.get(D0)
            ctx.check('registering records exactly the given signal', w, v is A if v is None or v.op in ('sym', 'null', 'new', 'ld') else None, d, [o])
            ctx.check('registering changes nothing else', w, not (set(ch) - {D0}), d, [o])
        else:
            ctx.check('a signal of another type or size is refused', w, o.kind == 'throw', d, [o])
            if o.kind == 'throw':
                ctx.check('a refused registration keeps the previous one', w, not ch, d, [o])


def report(ctx, P, c, f, name):
    I = interp(P, c)
    outs = I.run(f['id'])
    ctx.note(I, outs)
    w = ctx.where(f)
    for o in outs:
        if o.kind != 'return':
            ctx.violate('%s does not throw' % name, w, showout(o))
            continue
        ctx.check('%s changes nothing' % name, w, not changed(o), showout(o), [o])
        v = o.val
        if v.op == 'loc' and not v.args[1]:
            v = mk('ld', v.args[0])
        old = mk('ld', H(this, SZ if name == 'size' else DER))
        if name == 'size':
            ctx.check('size reports the size the signal was created with', w, equal(now(v), now(old)), showout(o), [o])
            continue
        st = strip(f['rt'])
        if st == 'bool':
            for reg in (True, False):
                W = World(lambda t: (not reg) if t.op == 'same' and NULL in t.args else None, {})
                yes, maybe = taken([o], W)
                if maybe:
                    raise Maybe('condition of %s' % name)
                if yes:
                    ctx.check('%s is true exactly when a derivative signal is registered' % name, w, bool(W.val(v)) == reg, showout(o), [o])
            continue
        # a pointer: null exactly when none is registered
        for reg in (True, False):
            def atom(t):
                if t.op == 'same' and NULL in t.args:
                    x = [y for y in t.args if y is not NULL]
                    if x and now(x[0]) is now(old):
                        return not reg
                if t.op == 'isa' and now(t.args[0]) is now(old):
                    return reg
                return None
            yes, maybe = taken([o], World(atom, {}))
            if maybe and sure(*o.conds):
                yes = maybe          # also depends on something free
            elif maybe:
                raise Maybe('condition of %s' % name)
            if not yes:
                continue
            isnull = True if v is NULL else (not reg) if now(v) is now(old) else None
            ctx.check('%s is null exactly when no derivative signal is registered' % name, w, None if isnull is None else isnull == (not reg), showout(o), [o])
            if name == 'deriv_signal' and reg:
                ctx.check('deriv_signal is the registered signal', w, now(v) is now(old) if v.op in ('ld', 'null', 'sym', 'new') else None, showout(o), [o])


def others(ctx, P, c):
    for a in P.ancestors(c):
        for f in P.methods.get(a, []):
            if 'body' not in f or f.get('isctor') or f.get('static') or f.get('access') != 'public' or f['n'].startswith('~') or f['n'] == 'set_deriv_signal' or f.get('const'):
                continue
            ctx.each('%s keeps the pairing (%s)' % (f['n'], P.config), ctx.where(f), keeps, ctx, P, c, f)


def keeps(ctx, P, c, f):
    I = interp(P, c)
    outs = I.run(f['id'])
    ctx.note(I, outs)
    for o in outs:
        ch = changed(o)
        for n in (DER, SZ):
            v = ch.get(H(this, n))
            ctx.check('no other operation changes the derivative signal or the size', ctx.where(f), v is None or (None if v.op not in ('null', 'num', 'sym', 'new') else False), showout(o), [o])
