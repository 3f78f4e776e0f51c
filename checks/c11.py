"""C11: the simulator keeps evaluating until no further block can run"""
from simrun import *
from machine import *
import itertools
import c08, c09

RULE = """The paths of the evaluation pass of the simulator (with the loops they contain) are followed on all models of up to 3 blocks and many of 4, in every mix of blocks that can run at
once, that need others, that have nothing to compute, that can never run, and submodels, in every order of the remembered list, and on longer chains when the code compares with larger numbers (those are scaled down). Afterwards no block that can run may be left; with order
re-use the remembered list must hold every block exactly once, the blocks evaluated in this pass in the order of their evaluation, and the list to be filled next must be another one.
What the models take for granted is decided on the paths of the functions that process one leaf block and one submodel: a leaf block runs
exactly when it can and reports it, a submodel passes the call on to each block it holds, reports the total of what they report and is processed exactly when all of them are.
Initialisation must fill the remembered list with every block of the model once."""
ASSUME = ['blocks assign what they compute (C07)', 'visiting and marking reach every block (C09)']
SIM = 'pooya::Simulator'


def models(n):
    """models with n blocks"""
    opts = []
    for i in range(n):
        o = [B('leaf'), B('start'), B('never'), B('sub')]
        need = {(), (i - 1,) if i else (), (i + 1,) if i + 1 < n else (), tuple(j for j in range(n) if j != i)}
        o += [B('leaf', x) for x in sorted(need) if x]
        opts.append(o)
    # nothing is computed by a submodel itself
    return [m for m in itertools.product(*opts) if not any(m[j].kind == 'sub' for b in m for j in b.needs)]


def family(tier):
    out = []
    for n in range(3):
        for m in models(n):
            for p in itertools.permutations(range(n)):
                out.append((m, p))
    ms = list(models(3))
    for j, m in enumerate(ms):
        ps = list(itertools.permutations(range(3)))
        out += [(m, p) for i, p in enumerate(ps)]
    ms = list(models(4))
    for j, m in enumerate(ms):
        if j % (5 if tier == 'thorough' else 37) == 0:
            ps = list(itertools.permutations(range(4)))
            out += [(m, ps[(j * 7) % 24]), (m, ps[(j * 11 + 5) % 24])]
    chain = tuple(B('leaf', (i - 1,) if i else ()) for i in range(4))
    back = tuple(B('leaf', (i + 1,) if i < 3 else ()) for i in range(4))
    for m in (chain, back, (B('sub'),) + back[1:], (B('never'), B('sub')) + back[2:], (B('never'),) + chain[1:]):
        for p in itertools.permutations(range(4)):
            out.append((m, p))
    return out


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(SIM, P)
        R = Roles(P)
        g = ctx.need(SIM, 'init', P, np=1)
        f = ctx.need(SIM, 'process_model', P, np=3)
        BL = mk('ld', c09.blocklist(ctx, P))
        for cls in sorted(c for c in P.recs if P.derives(c, 'pooya::Submodel') and c.startswith('pooya::')):
            h = ctx.need(cls, 'process', P, np=2)
            ctx.each('%s::process (%s)' % (cls, P.config), ctx.where(h), c09.process, ctx, P, cls, h, BL)
        h = ctx.need('pooya::Leaf', 'process', P, np=2)
        ctx.each('Leaf::process (%s)' % P.config, ctx.where(h), c08.process, ctx, P, h)
        res = {}
        ctx.each('the list at initialisation (%s)' % P.config, ctx.where(g), initial, ctx, P, R, g, res)
        if res:
            ctx.each('evaluation pass (%s)' % P.config, ctx.where(f), passes, ctx, P, R, f, res)


def initial(ctx, P, R, f, res):
    w = ctx.where(f) + ' (%s)' % P.config
    I = Interp(P, SIM, events_on_this={'process_model'})
    outs = I.run(f['id'])
    ctx.note(I, outs)
    fields = [(H(this, P.canon(SIM, x['f'])), x['ty']) for x in P.recs[SIM]['fields']]
    isvec = lambda ty: ty.startswith('std::vector<pooya::Block *')
    bufs = [r for r, ty in fields if isvec(ty) and not ty.endswith('*')]
    ptrs = [r for r, ty in fields if isvec(ty) and ty.endswith('*')]
    flags = [r for r, ty in fields if ty in ('const bool', 'bool')]
    if len(flags) != 1:
        raise Maybe('which member asks for re-use of the order: %s' % flags)
    flag = mk('ld', flags[0])
    res['flag'] = flag
    for o in outs:
        if o.kind != 'return':
            continue
        d = showout(o)[:1200]
        on = truth(o, flag)
        # an initialisation which does not ask is one with re-use, too
        if on is False:
            continue
        pms = [e for e in o.events if e.kind == 'call' and e.name == 'process_model']
        if len(pms) != 1:
            raise Maybe('the first pass')
        snap = pms[0].snap
        # on entry the buffers are empty: a simulator is initialised once
        M = {mk('ld', r): mk('empty') for r in bufs}
        content = {r: subst(snap[r], M) if r in snap else mk('empty') for r in bufs}
        target = {}
        for p in ptrs:
            v = snap.get(p)
            if v is None:
                continue
            if v.op != 'addr' or v.args[0].args[1] or v.args[0].args[0] not in bufs:
                raise Maybe('what %s points at: %s' % (show(p), v is not None and show(v)))
            target[p] = v.args[0].args[0]
        full = [r for r in bufs if filled(content[r], R)]
        other = [r for r in bufs if r not in full]
        if not ctx.check('initialisation lists every block of the model exactly once', w, True if full else False if all(sure(content[r]) for r in bufs) else None,
                         'lists: %s\n%s' % ([(show(r), show(content[r])) for r in bufs], d), [o]):
            continue
        if ptrs:
            cur = [p for p in ptrs if p in target and target[p] in full]
            nxt = [p for p in ptrs if p in target and target[p] not in full]
            ctx.check('the list of the next pass is another one than the remembered list', w, len(cur) == 1 and len(nxt) == 1, d, [o])
            if len(cur) == 1 and len(nxt) == 1:
                res['cur'], res['next'] = ('ptr', cur[0]), ('ptr', nxt[0])
        elif len(full) == 1:
            res['cur'] = ('buf', full[0])
            res['next'] = ('buf', other[0]) if len(other) == 1 else None
    if 'cur' not in res:
        res.clear()
        ctx.check('re-use of the order is set up', w, None)


def filled(v, R):
    """is this list all blocks below the model, in any fixed order, once"""
    for n in range(4):
        W = World(lambda t: None, {mk('visited', R.model): n})
        try:
            s = W.seq(W.norm(v))
        except Unknown:
            return False
        if s is None or sorted(map(show, s)) != sorted(show(at(mk('visited', R.model), num(i))) for i in range(n)):
            return False
    return True


def truth(o, x):
    for c in o.conds:
        if c is x:
            return True
        if c.op == 'not' and c.args[0] is x:
            return False
    return None


def content(role):
    """the entries of a list on entry of a pass"""
    k, r = role
    return mk('ld', mk('D', mk('ld', r))) if k == 'ptr' else mk('ld', r)


def passes(ctx, P, R, f, res):
    I = Interp(P, SIM, nosolve=True)
    outs = I.run(f['id'])
    ctx.note(I, outs)
    followed(ctx, P, R, f, res, outs, list(family(ctx.tier)), '')
    # a limit that is too large for these models: the same paths with the limit scaled down, on longer models
    big = {v: SMALL for v in I.literals if SMALL < v < 2 ** 31}
    if big:
        I = Interp(P, SIM, nosolve=True)
        I.scale = big
        outs = I.run(f['id'])
        followed(ctx, P, R, f, res, outs, long(), ' (with the constants %s scaled down to %d)' % (sorted(big), SMALL))


SMALL = 8


def long():
    n = SMALL + 4
    chain = tuple(B('leaf', (i - 1,) if i else ()) for i in range(n))
    back = tuple(B('leaf', (i + 1,) if i < n - 1 else ()) for i in range(n))
    ids = tuple(range(n))
    return [(m, p) for m in (chain, back, (B('leaf'),) * n) for p in (ids, ids[::-1]) for _ in range(5)]


def followed(ctx, P, R, f, res, outs, fam, extra):
    w = ctx.where(f) + ' (%s)' % P.config
    t, pre, post = (sym(p['n']) for p in f['params'])
    fl = res['flag']
    null = mk('same', R.cb, NULL)
    null2 = mk('same', NULL, R.cb)
    sel = {}
    for on in (True, False):
        sel[on] = [o for o in outs if truth(o, fl) is not (not on) and truth(o, null) is not True and truth(o, null2) is not True]
    if not sel[True] or not sel[False]:
        raise Maybe('no paths')
    seen = set()
    for on in (False, True):
        bad = {}
        n = 0
        for m, perm in fam:
            if not on and perm != tuple(range(len(m))):
                continue
            n += 1
            if P.config == 'debug' and ctx.tier != 'thorough' and n % 5:
                continue
            r = one(P, R, sel[on], m, perm, on, res, t, {pre: n % 2 == 0, post: n // 2 % 2 == 0, fl: on})
            if r is None:
                continue
            for what, ok in r:
                if not ok:
                    bad.setdefault(what, (m, perm, 'pre-step %s, post-step %s' % (n % 2 == 0, n // 2 % 2 == 0)))
        kind = ('with order re-use' if on else 'without order re-use') + extra
        for what in ('the pass ends', 'no block that can run is left', 'blocks are evaluated at the time of the pass', 'the pass returns normally') + (
                ('the remembered list holds every block exactly once', 'blocks are remembered in the order of their evaluation', 'the list to be filled next is another one') if on else ()):
            ctx.check('%s: %s' % (kind, what), w, what not in bad, 'model: %s, listed as %s, %s\n' % bad.get(what, ('', '', '')))
        ctx.hold('%s: %d models and orders' % (kind, n), w)


def one(P, R, outs, m, perm, on, res, t, given):
    vals = given

    def extra(x):
        if x in vals:
            return vals[x]
        if x.op == 'same' and R.cb in x.args and NULL in x.args:
            return False
        if x.op == 'same' and all(y.op == 'ld' or y.op == 'addr' for y in x.args):
            return x.args[0] is x.args[1]
        if x.op == 'app' and x.args[0] == 'capacity':
            return Fr(len(m))
        return None
    M = Machine(m, R.model, extra)
    # after an earlier pass everything counts as processed
    M.entry = frozenset(range(len(m)))
    cur = content(res['cur'])
    M.lens[cur] = len(m)
    for i, j in enumerate(perm):
        M.alias[at(cur, num(i))] = M.b[j]
    if res.get('next'):
        # left over from the pass before the last
        old = content(res['next'])
        M.bind[old] = mk('lst', tuple(M.b[j] for j in reversed(perm)))
    try:
        o = M.start(outs)
    except Endless:
        return [('the pass ends', False)]
    except Stuck:
        raise Maybe('no path for %s' % (m,))
    out = [('the pass ends', True), ('the pass returns normally', o.kind == 'return')]
    if o.kind != 'return':
        return out
    ran = [i for i, x in M.trace]
    left = [i for i, b in enumerate(m) if i not in ran and (b.kind == 'leaf' and M.ready(i) or b.kind == 'sub')]
    for i in M.done:
        if i not in ran and m[i].kind in ('leaf', 'sub', 'never'):
            left.append(i)
    out.append(('no block that can run is left', not left))
    out.append(('blocks are evaluated at the time of the pass', all(x is t for i, x in M.calls)))
    if on:
        k, r = res['cur']
        if k == 'ptr':
            p = o.cells.get(r, mk('ld', r))
            q = o.cells.get(res['next'][1], mk('ld', res['next'][1]))
            out.append(('the list to be filled next is another one', p is not q))
            root = mk('D', p) if p.op != 'addr' else p.args[0].args[0]
        else:
            root = r
        v = o.cells.get(root, mk('ld', root))
        s = M.seq(M.norm(v))
        if s is None:
            raise Maybe('the list remembered: %s' % show(v)[:300])
        out.append(('the remembered list holds every block exactly once', sorted(map(show, s)) == sorted(map(show, M.b))))
        ran = [M.b[i] for i, x in M.trace]
        out.append(('blocks are remembered in the order of their evaluation', [x for x in s if x in ran] == ran))
    return out
