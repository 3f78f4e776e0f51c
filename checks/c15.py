"""C15: state values, signals and derivatives always line up in the state vector"""
from simrun import *

RULE = """Every loop of the simulator that moves values between state signals (or their derivative signals) and a vector is summarised: which signal of which list, which entries of which
vector. Each such transfer must run over its whole list from the front; the scalar and the array transfer of one vector together must cover the vector without gap or overlap, and every
transfer of the simulator must use the same entries for the same signal (checked on all models with up to 2 scalar and 3 array states of sizes 0 to 3). The length given to the
vectors at initialisation is evaluated on the same family of models."""
ASSUME = ['a derivative signal has the size of its state (C22)', 'the stepper hands on vectors of the length it was given']
SIZES = ((), (1,), (3,), (2, 3), (3, 1), (2, 0, 1), (1, 2, 3))


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(SB, P)
        R = Roles(P)
        done = set()
        for c in [SB] + simulators(P):
            g = ctx.need(c, 'run', P, np=3)
            if g['id'] not in done:
                done.add(g['id'])
                ctx.each('transfers of states (%s)' % P.config, ctx.where(g), moves, ctx, P, R, g)
        f = ctx.need(SB, 'init', P, np=1)
        ctx.each('length of the state vector (%s)' % P.config, ctx.where(f), length, ctx, P, R, f)


def allgroups(ctx, w, o, events, R, out):
    """groups of consecutive transfers of one kind to or from one vector"""
    cur = None
    for t in tokens(events, R):
        if t[0] in ('set', 'get'):
            d = t[2]
            d['R'] = R
            key = (t[0], d['vec'] if t[0] == 'set' else d['root'], d.get('deriv', False))
            if cur is not None and cur[0] == key:
                cur[1].append(d)
            else:
                cur = (key, [d], o)
                out.append(cur)
            continue
        if t[0] == 'loop':
            for x in t[1].x.outs:
                allgroups(ctx, w, x, x.events, R, out)
        if t[0] in ('process_model', 'pre_step', 'step', 'clear'):
            cur = None


def moves(ctx, P, R, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs, cbs = mainrun(ctx, P, f)
    groups = []
    for o in outs + cbs:
        allgroups(ctx, w, o, o.events, R, groups)
    seen, uniq = set(), []
    for key, ds, o in groups:
        k = (key[0], key[2], tuple((d['list'], d['off'], d['len'], d['straight'], d['full'], d['e'].where) for d in ds))
        if k not in seen:
            seen.add(k)
            uniq.append((key, ds, o))
    kinds = {(k[0], k[2]) for k, d, o in uniq}
    strange = [e for o in outs + cbs for e, l in walk(o.events) if e.kind in ('set', 'store') and isinstance(e.x, object) and not known(e, uniq)]
    for want, what in ((('set', False), 'written to the signals'), (('get', False), 'read from the signals'), (('get', True), 'collected from the derivatives')):
        ctx.check('states are %s' % what, w, True if want in kinds else None, 'transfers found: %s' % sorted(kinds))
    ref = {}
    for key, ds, o in uniq:
        kind, vec, deriv = key
        name = {('set', False): 'writing states to the signals', ('get', False): 'reading states from the signals', ('get', True): 'collecting derivatives', ('set', True): 'writing derivatives'}[(kind, deriv)]
        where = ds[0]['e'].where or w
        if any(d['kind'] == 'set' and d['vec'] is None for d in ds):
            ctx.undecided('%s moves entries of the state vector' % name, where, repr(ds[0]['e'])[:800])
            continue
        lists = [d['list'] for d in ds]
        ctx.check('%s covers scalar and array states once each' % name, where, sorted(lists) == ['array', 'scalar'], 'lists: %s' % lists, [o])
        for d in ds:
            ctx.check('%s runs over all %s states' % (name, d['list']), where, True if d['full'] and d['straight'] else None if d['straight'] else False if sure(d['e'].args[0]) and d['full'] else None, repr(d['e'])[:600], [o])
        bad = None
        for ns in range(3):
            for sizes in SIZES:
                hit, N = {}, ns + sum(sizes)
                for d in ds:
                    if d['list'] not in ('scalar', 'array'):
                        continue
                    rs = offset(d, ns, sizes)
                    if rs is None:
                        bad = bad or (None, 'entries not understood: offset %s length %s' % (show(d['off']), show(d['len'])))
                        continue
                    for i, (a, l) in enumerate(rs):
                        if l != (1 if d['list'] == 'scalar' else sizes[i]):
                            bad = (False, '%s scalar states and arrays of sizes %s: %s state %d uses %d entries' % (ns, sizes, d['list'], i, l))
                        for x in range(a, a + l):
                            if x in hit or not 0 <= x < N:
                                bad = (False, '%s scalar states and arrays of sizes %s: entry %d of %d is %s' % (ns, sizes, x, N, 'used twice' if x in hit else 'outside'))
                            hit[x] = (d['list'], i, x - a)
                        k = (d['list'], i, ns, sizes)
                        if ref.setdefault(k, (a, where))[0] != a and l:
                            bad = (False, '%s scalar states and arrays of sizes %s: %s state %d is at entry %d here, but at %d in %s' % (ns, sizes, d['list'], i, a, ref[k][0], ref[k][1]))
                if bad:
                    break
            if bad:
                break
        ctx.check('%s uses the same entries for the same state, without gap or overlap (%d models)' % (name, 3 * len(SIZES)), where, True if bad is None else bad[0], bad and bad[1], [o])
    for e in strange[:3]:
        ctx.undecided('every transfer of a state is understood', e.where or w, repr(e)[:500])
    # what the derivative function returns
    for o in cbs:
        roots = {k[1] for k, ds, oo in groups if k[0] == 'get' and k[2]}
        v = o.val
        ok = None
        if isinstance(v, T):
            if v.op == 'loc':
                ok = v.args[0] in roots and not v.args[1]
            else:
                ok = any(v is o.cells.get(r) for r in roots) or None
        ctx.check('the derivative function returns the collected derivatives', w, True if ok else None, showout(o)[:1500], [o])


def known(e, uniq):
    return any(d['e'] is e or d['e'].where == e.where for k, ds, o in uniq for d in ds)


def length(ctx, P, R, f):
    w = ctx.where(f) + ' (%s)' % P.config
    g = ctx.need(SB, 'run', P, np=3)
    I, outs, cbs = mainrun(ctx, P, g)
    groups = []
    for o in outs + cbs:
        allgroups(ctx, w, o, o.events, R, groups)
    used = {k[1] for k, ds, o in groups if k[0] == 'get'}
    steps = [e for o in outs for e, l in walk(o.events) if e.kind == 'call' and e.name == 'step']
    roots = [r for r in R.arrays if r in used or any(r in (x[0].args[0] for x in [(a,) for a in (e.x or [()])[0]] if x[0].op == 'loc') for e in steps)]
    if not roots:
        raise Maybe('no state vectors')
    I2, io = ctx.runs(f, SB, P)
    for o in io:
        if o.kind != 'return':
            continue
        for r in R.arrays:
            if r not in roots:
                continue
            v = o.cells.get(r)
            if v is None:
                ctx.check('initialisation gives the state vectors their length', w, False, '%s is not resized\n%s' % (show(r), showout(o)[:1500]), [o])
                continue
            bad = None
            for mdl, shift in ((m, j) for m in MODELS for j in range(len(LINKS))):
                W = network(R, mdl, P, shift=shift)
                cs = sorted({c for b in mdl for c in b})
                want = sum(SIGS[c].size for c in cs if SIGS[c].state)
                try:
                    if not all(x is not False for x in conds(W, o)):
                        continue
                    got = W.number(now(size(v)))
                except Unknown as x:
                    bad = (None, 'model %s: %s: %s' % (mdl, x, show(size(v))[:600]))
                    break
                if got != want:
                    bad = (False if sure(v) else None, 'model %s (signals linked to each block): the vector gets %s entries, the states have %s\n%s' % (mdl, got, want, show(v)[:1500]))
                    break
            ctx.check('the state vectors have one entry per state entry (%d models)' % (len(MODELS) * len(LINKS)), w, True if bad is None else bad[0], bad and bad[1], [o])
