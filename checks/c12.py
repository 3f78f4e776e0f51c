"""C12: the fast simulator runs each leaf once, in an order that works, or refuses"""
from c11 import models, family, truth, long, SMALL
from c13 import steps, current
from simrun import *
from machine import *
import itertools

RULE = """The paths of the initialisation of the fast simulator (with the loops they contain) are followed on all models of up to 3 blocks and some of 4 (leaf blocks that can run at once, that
need others, also in circles, that have nothing to compute, that can never run, and submodels), from a state in which nothing and in which everything counts as processed, and on longer chains when the code compares with larger numbers (scaled down). If some block
with something to compute cannot run, it must throw; otherwise it must return with an order that holds every such leaf exactly once and after the blocks it needs. All signals must have been
cleared before. The pass is followed on orders of up to 4 blocks in every grouping: it must run the activation function of every entry once, in order, at the time of the pass."""
ASSUME = ['a leaf asked to process runs if all its required signals are there and it is not processed yet (C07)', 'visiting and marking reach every block (C09)']
SIM = 'pooya::FastSimulator'


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(SIM, P)
        R = Roles(P)
        g = ctx.need(SIM, 'init', P, np=1)
        f = ctx.need(SIM, 'process_model', P, np=3)
        ctx.each('the order determined (%s)' % P.config, ctx.where(g), order, ctx, P, R, g)
        ctx.each('signals are cleared first (%s)' % P.config, ctx.where(g), cleared, ctx, P, R, g)
        ctx.each('a pass (%s)' % P.config, ctx.where(f), passes, ctx, P, R, f)


def list_member(P):
    c = [(H(this, P.canon(SIM, x['f'])), x['ty']) for x in P.recs[SIM]['fields'] if 'pooya::Leaf *' in x['ty'] or 'pooya::Block *' in x['ty']]
    if len(c) != 1:
        raise Maybe('the member that holds the order: %s' % [show(r) for r, t in c])
    r, ty = c[0]
    d = ty.split('pooya::')[0].count('std::vector<')
    if d not in (1, 2) or not ty.startswith('std::vector<'):
        raise Maybe('the order is a ' + ty)
    return r, d


def flat(M, v):
    s = M.seq(v)
    if s is None:
        raise Maybe('the order: ' + show(v)[:300])
    out = []
    for x in s:
        y = M.seq(x)
        out += [x] if y is None else flat(M, x)
    return out


def order(ctx, P, R, f):
    I = Interp(P, SIM, events_on_this={'process_model'}, noinline={SB + '::init'}, nosolve=True)
    outs = I.run(f['id'])
    ctx.note(I, outs)
    for o in outs:
        ts = list(o.conds) + [e.x.n for e, ls in walk(o.events) if e.kind == 'loop' and e.x.n is not None] + [a for e, ls in walk(o.events) for a in e.args if isinstance(a, T)]
        lim = [y for x in ts for y in subterms(x) if y.op == 'visited' and len(y.args) > 2 and is_num(y.args[2])]
        if lim:
            ctx.check('the order is made of blocks at any depth', ctx.where(f) + ' (%s)' % P.config, False, 'blocks below level %s are not visited\n%s' % (show(lim[0].args[2]), showout(o)[:600]), [o])
            return
    ordered(ctx, P, R, f, outs, family(ctx.tier), '')
    # a limit that is too large for these models: the same paths with the limit scaled down, on longer models
    big = {v: SMALL for v in I.literals if SMALL < v < 2 ** 31}
    if big:
        I = Interp(P, SIM, events_on_this={'process_model'}, noinline={SB + '::init'}, nosolve=True)
        I.scale = big
        outs = I.run(f['id'])
        ordered(ctx, P, R, f, outs, [x for x in long() for _ in range(3)], ' (with the constants %s scaled down to %d)' % (sorted(big), SMALL))


def ordered(ctx, P, R, f, outs, fam, extra):
    w = ctx.where(f) + ' (%s)' % P.config
    r, depth = list_member(P)
    outs = [o for o in outs if cbnull(o, R) is not True]
    bad, n = {}, 0
    names = ('the initialisation ends', 'a model that has no working order is refused', 'a model that has a working order is accepted', 'the order holds every leaf that has something to compute exactly once',
             'every leaf comes after the blocks it needs', 'blocks are evaluated at the initial time')
    seen = set()
    for m, perm in fam:
        m = tuple(m)
        if m in seen:
            continue
        seen.add(m)
        for entry in (frozenset(), frozenset(range(len(m)))):
            if P.config == 'debug' and ctx.tier != 'thorough' and (len(seen) % 3 or entry):
                continue
            n += 1
            for what, ok in one(P, R, outs, m, entry, r, sym(f['params'][0]['n'])):
                if not ok:
                    bad.setdefault(what, (m, 'processed' if entry else 'not processed'))
    for what in names:
        ctx.check(what + extra, w, what not in bad, 'blocks: %s, before: %s\n' % bad.get(what, ('', '')))
    ctx.hold('%d models followed' % n, w)


def cbnull(o, R):
    a = truth(o, mk('same', R.cb, NULL))
    return truth(o, mk('same', NULL, R.cb)) if a is None else a


def one(P, R, outs, m, entry, r, t):
    def extra(x):
        if x.op == 'same' and R.cb in x.args and NULL in x.args:
            return False
        return None
    M = Machine(m, R.model, extra)
    M.entry = entry
    M.bind[mk('ld', r)] = mk('lst', ())
    M.lens[R.VL] = M.lens[R.SL] = M.lens[R.AL] = 0
    want = [i for i, b in enumerate(m) if b.kind in ('leaf', 'never')]
    # what can run at all
    can, go = [], True
    while go:
        go = False
        for i in want:
            if i not in can and m[i].kind == 'leaf' and all(j in can for j in m[i].needs):
                can.append(i)
                go = True
    possible = len(can) == len(want)
    try:
        o = M.start(outs)
    except Endless:
        return [('the initialisation ends', False)]
    except Stuck:
        raise Maybe('no path for %s' % (m,))
    if not possible:
        return [('a model that has no working order is refused', o.kind == 'throw')]
    out = [('a model that has a working order is accepted', o.kind == 'return')]
    if o.kind != 'return':
        return out
    pm = [e for e in o.events if e.kind == 'call' and e.name == 'process_model']
    if len(pm) != 1:
        raise Maybe('the first pass')
    v = pm[0].snap.get(r, mk('ld', r))
    s = flat(M, M.canon(v))
    if any(x not in M.idx for x in s):
        raise Maybe('the order: %s' % [show(x)[:100] for x in s])
    ids = [M.idx[x] for x in s]
    out.append(('the order holds every leaf that has something to compute exactly once', sorted(ids) == sorted(want)))
    out.append(('every leaf comes after the blocks it needs', all(j in ids[:ids.index(i)] for i in ids for j in m[i].needs)))
    out.append(('blocks are evaluated at the initial time', all(x is t for i, x in M.calls)))
    return out


def cleared(ctx, P, R0, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I = Interp(P, SIM, events_on_this={'process_model'})
    outs = I.run(f['id'])
    ctx.note(I, outs)
    for o in outs:
        if o.kind != 'return':
            continue
        R = current(R0, o)
        ss = steps(o.events, R)
        d = '%s\n%s' % ([s[0] for s in ss], showout(o)[:800])
        ks = [s[0] for s in ss]
        first = [i for i, k in enumerate(ks) if k in ('inputs', 'input_cb', 'pre_step', 'evaluate', 'pass')]
        cl = [i for i, s in enumerate(ss) if s[0] == 'clear' and s[1]['list'] == 'value' and s[1]['full'] and s[1]['straight']]
        ctx.check('all signals are cleared before inputs are supplied', w, bool(first and cl and cl[0] < first[0]), d, [o])


def passes(ctx, P, R, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I = Interp(P, SIM, nosolve=True)
    outs = I.run(f['id'])
    ctx.note(I, outs)
    r, depth = list_member(P)
    t = sym(f['params'][0]['n'])
    outs = [o for o in outs if cbnull(o, R) is not True]
    n = 0
    for k in range(5):
        groupings = [[k]] if depth == 1 else [g for g in compositions(k)]
        for g in groupings:
            vals = {sym(f['params'][1]['n']): n % 2 == 0, sym(f['params'][2]['n']): n // 2 % 2 == 0}
            M = Machine([B('leaf') for i in range(k)], R.model, lambda x: vals.get(x) if x in vals else False if x.op == 'same' and R.cb in x.args and NULL in x.args else None)
            M.entry = frozenset(range(k))
            ids = list(reversed(range(k)))
            it = iter(ids)
            lists = [mk('lst', tuple(M.b[next(it)] for j in range(s))) for s in g]
            M.bind[mk('ld', r)] = lists[0] if depth == 1 else mk('lst', tuple(lists))
            try:
                o = M.start(outs)
            except Endless:
                ctx.check('a pass ends', w, False, 'order: %s' % lists)
                return
            except Stuck:
                raise Maybe('no path for %s' % g)
            n += 1
            d = 'order: %s, grouped %s; evaluated: %s\n%s' % (ids, g, [(i, show(x)) for i, x in M.trace], showout(o)[:1000])
            ctx.check('a pass evaluates every entry of the order once and in order', w, [i for i, x in M.trace] == ids, d, [o])
            ctx.check('a pass evaluates at its own time', w, all(x is t for i, x in M.trace), d, [o])
            ctx.check('a pass returns normally', w, o.kind == 'return', d, [o])


def compositions(k):
    if k == 0:
        yield []
        return
    for a in range(1, k + 1):
        for rest in compositions(k - a):
            yield [a] + rest
