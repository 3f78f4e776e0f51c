"""C02: a signal handle always refers to a live signal of its own type"""
from sigs import *

RULE = """Every public operation of the five typed handles (their base classes included) - constructors, copies, moves, assignments, reset - is summarised path by path
as plain code in both build modes.  The handle is observed before and after through its own accessors: the generic view (those of the base handle) and the typed view.
After every normal path both views are the same, existing signal, which is known to be of the handle's type (created so, or tested by dynamic cast on that path); after an
exceptional path they are what they were; the source of a copy or move keeps its views; no operation with a signal of the right type is refused."""
ASSUME = ['a handle refers to a signal of its type in both views before the operation (induction over operations)']


def check(ctx):
    for P in (ctx.R, ctx.D):
        for h, c in sorted(handles(ctx, P).items()) + [('pooya::Signal', SIGT)]:
            acc = accessors(ctx, P, h)
            ms = ops(P, h)
            if len(ms) < 4:
                raise Broken('only %d operations of %s' % (len(ms), h))
            for f in ms:
                ctx.each('%s (%s)' % (f['q'], P.config), ctx.where(f), operation, ctx, P, h, c, f, acc)


def ops(P, h):
    out = []
    for a in P.ancestors(h):
        for f in P.methods.get(a, []):
            if 'body' not in f or f.get('static') or f.get('access') != 'public' or f['n'].startswith('~'):
                continue
            if f.get('isctor') and a != h:
                continue
            out.append(f)
    return sorted(out, key=lambda f: f['id'])


def accessors(ctx, P, h):
    """(generic accessors, typed accessors)"""
    g, t = [], []
    for a in P.ancestors(h):
        for f in P.methods.get(a, []):
            if f['n'] in ('impl', 'operator*', 'operator->') and not f['params'] and 'body' in f and f.get('const'):
                (g if a == 'pooya::Signal' else t).append(f)
    if not g or not t and h != 'pooya::Signal':
        raise Broken('accessors of %s not found' % h)
    return g, t


def look(I, cells, pc, fs, who=this):
    """what the accessors return on a given state"""
    res = []
    for f in fs:
        st = State()
        st.cells = dict(cells)
        st.pc = pc.copy()
        for o in I.run(f['id'], this=who, st0=st):
            v = o.val if o.kind == 'return' else None
            if isinstance(v, T) and v.op == 'loc':
                r = v.args[0]
                v = r.args[0] if r.op == 'D' and not v.args[1] else v
                if v.op == 'loc':
                    x = mk('addr', v)
                    v = x
            res.append((f, v))
    return res


def operation(ctx, P, h, c, f, acc):
    I = interp(P, h)
    S, A = sym('self_signal'), sym('other_signal')
    ctor = f.get('isctor')
    w = ctx.where(f)
    st = State()
    ps = f['params']
    args = [None] * len(ps)
    src = None
    same = None                 # the argument is a handle of the same type
    SRC = mk('D', sym('src'))
    handle_arg = None
    for i, p in enumerate(ps):
        t = strip(p['ty'])
        if t in P.handles or t == 'pooya::Signal' or (P.recs.get(t, {}).get('ct') == 'pooya::SignalT'):
            handle_arg = i
            src = t
            same = t != 'pooya::Signal'
    if not ctor:
        know(I, S, c)
        for n in viewfields(P, h):
            st.cells[H(this, n)] = S
    if handle_arg is not None:
        if same:
            know(I, A, P.handles.get(src) or c)
        else:
            I.facts.ty[A] = SIGT + ' *'
            I.facts.nonnulls.add(A)
        I.facts.ty[sym('src')] = src + ' *'
        I.facts.nonnulls.add(sym('src'))
        for n in viewfields(P, src):
            st.cells[H(sym('src'), n)] = A
        args[handle_arg] = loc(SRC)
    outs = I.run(f['id'], st0=st, args=args)
    ctx.note(I, outs)
    g, t = acc
    refused = [o for o in outs if o.kind == 'throw']
    live = [o for o in outs if o.kind == 'return']
    target = A if handle_arg is not None else sym(ps[0]['n']) if len(ps) == 1 and P.derives(strip(ps[0]['ty']), SIGT) else None
    tests = handle_arg is not None and not same or (target is not None and handle_arg is None)
    if not live:
        ctx.violate('the operation can succeed', w, showout(outs[0]) if outs else '')
        return
    for o in live:
        seen = look(I, o.cells, o.st.pc, g + t)
        ctx.npaths += len(seen)
        vs = {v for _, v in seen}
        d = showout(o) + '\nviews: ' + '; '.join('%s = %s' % (x['q'], 'throws' if v is None else show(v)) for x, v in seen)
        if any(v is None for v in vs):
            ctx.check('the views of the handle exist', w, False, d, [o])
            continue
        if len(vs) != 1:
            ctx.check('both views of the handle are the same signal', w, False if all(simple(v) for v in vs) else None, d, [o])
            continue
        ctx.hold('both views of the handle are the same signal', w)
        v = vs.pop()
        if v is NULL:
            ctx.check('no operation leaves a handle empty', w, False, d, [o])
            continue
        ok = typed(I, o, v, c, P)
        ctx.check('the handle refers to a signal of its own type', w, ok, d, [o])
        if not ctor and f['n'] not in ('reset',) and h != 'pooya::Signal' and not f['n'].startswith('operator=') and ok:
            ctx.check('only re-pointing changes what a handle refers to', w, v is S if simple(v) else None, d, [o])
        if (ctor or f['n'] == 'reset') and target is not None:
            ctx.check('the handle refers to the given signal', w, v is target if simple(v) else None, d, [o])
        if handle_arg is not None:
            s2 = {v for _, v in look(I, o.cells, o.st.pc, g + (t if same else []), sym('src'))}
            ctx.check('the source of a copy or move keeps referring to its signal', w, s2 == {A} if all(x is not None and (simple(x)) for x in s2) else None, d, [o])
    for o in refused:
        bad = [x for x in o.conds if x.op == 'not' and x.args[0].op in ('isa',)]
        if not ctor:
            seen = look(I, o.cells, o.st.pc, g + t)
            d = showout(o) + '\nviews: ' + '; '.join('%s = %s' % (x['q'], 'throws' if v is None else show(v)) for x, v in seen)
            ctx.check('a refused operation leaves the handle as it was', w, all(v is S for _, v in seen) if all(v is not None and simple(v) for _, v in seen) else None, d, [o])
        if tests and o.kind == 'throw':
            # is a signal of the right type refused?
            right = not any(x.op == 'not' and x.args[0] is mk('isa', target, c) for x in o.conds) and not any(x.op == 'same' and NULL in x.args for x in o.conds)
            ctx.check('a signal of the right type is not refused', w, not right if right is not None else None, showout(o), [o])


def simple(v):
    return v.op in ('sym', 'new', 'null')


def typed(I, o, v, c, P):
    if v.op == 'new':
        k = v.args[1] if len(v.args) > 1 else None
        return P.derives(k, c) if isinstance(k, str) else None
    if mk('isa', v, c) in o.conds:
        return True
    ty = pointee(I.facts.ty.get(v, '') or '')
    if ty and P.derives(ty, c):
        return True
    if v.op == 'sym':
        return False
    return None
