"""C09: a submodel passes every phase and visit to all of its blocks"""
import itertools
from blocks import *

RULE = """Every path of the submodel's pre-step, post-step, start-of-pass, process and visit functions (of every library submodel class, both build modes) is summarised
with its loop over the blocks it lists: the loop must run over the whole list from the front, forward exactly once per block with the same time (level + 1 and the same
visitor for visits), stop a visit exactly at the first refusal and report it, total the reported counts, and leave the submodel processed exactly when all blocks are
(every combination of up to 3 blocks). A visit that is not given a limit must not have one."""
ASSUME = ['blocks do not change the list of blocks of their submodel while it is traversed']
PR = H(this, '@processed')


def blocklist(ctx, P):
    """the field listing the blocks of a submodel"""
    fs = [P.canon('pooya::Submodel', f['f']) for f in P.recs['pooya::Submodel']['fields'] if re_list(f['ty'])]
    if len(fs) != 1:
        raise Broken('the list of blocks of a submodel is not a single field: %s' % fs)
    return H(this, fs[0])


def re_list(ty):
    return 'pooya::Block *' in ty and ty.startswith(('std::vector<', 'std::list<', 'std::deque<'))


def check(ctx):
    ctx.cls('pooya::Submodel')
    for P in (ctx.R, ctx.D):
        BL = mk('ld', blocklist(ctx, P))
        for cls in sorted(c for c in P.recs if P.derives(c, 'pooya::Submodel') and c.startswith('pooya::')):
            for n, k in (('pre_step', 1), ('post_step', 1), ('_mark_unprocessed', 0)):
                f = ctx.need(cls, n, P, np=k)
                ctx.each('%s::%s (%s)' % (cls, n, P.config), ctx.where(f), forward, ctx, P, cls, f, BL)
            f = ctx.need(cls, 'process', P, np=2)
            ctx.each('%s::process (%s)' % (cls, P.config), ctx.where(f), process, ctx, P, cls, f, BL)
            for n in ('visit', 'const_visit'):
                f = ctx.need(cls, n, P, np=3)
                ctx.each('%s::%s (%s)' % (cls, n, P.config), ctx.where(f), visiting, ctx, P, cls, f, BL)
        for n in ('visit', 'const_visit'):
            f = ctx.need('pooya::Block', n, P, np=3)
            ctx.each('Block::%s (%s)' % (n, P.config), ctx.where(f), visiting, ctx, P, 'pooya::Block', f, None)
        # library leaf blocks must not change how they are visited
        for cls in sorted(c for c in P.recs if c.startswith('pooya::') and P.derives(c, 'pooya::Block') and not P.derives(c, 'pooya::Submodel')):
            for n in ('visit', 'const_visit'):
                f = ctx.need(cls, n, P, np=3)
                if f['cls'] != 'pooya::Block':
                    ctx.each('%s::%s' % (cls, n), ctx.where(f), visiting, ctx, P, cls, f, None)


def over(lp, BL, x, uid):
    """does the object x stand for block number k of the list (True / 'reverse' / None)"""
    k = mk('k', uid)
    if x is at(BL, k):
        return True
    if x is at(BL, sub(sub(size(BL), ONE), k)):
        return 'reverse'
    return None


FOREIGN = ('set', 'clear', 'fset', 'link', 'deriv', 'warn', 'store')


def forward(ctx, P, cls, f, BL):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, cls, P)
    name = f['n']
    args = [sym(p['n'] or 'arg%d' % i) for i, p in enumerate(f['params'])]
    for o in outs:
        d = showout(o)
        if o.kind != 'return':
            ctx.check('%s of a submodel does not fail by itself' % name, w, False, d, [o])
            continue
        if size(BL) in [c.args[0] for c in o.conds if c.op == 'cmp' and c is not TRUE] and not top(o, ('loop',)):
            W = World(lambda t: None, {BL: 0})
            if W.chosen([o]) is o and World(lambda t: None, {BL: 1}).chosen([o]) is None:
                continue
        loops = [e for e in top(o, ('loop',))]
        direct = [e for e in o.events if e.kind == 'call' and e.name == name]
        fw = [lp for lp in loops if any(e.kind == 'call' and e.name == name for e, _ in walk([lp]))]
        ctx.check('%s is forwarded in exactly one traversal of the blocks' % name, w, len(fw) == 1 and not direct, d, [o])
        if len(fw) == 1:
            traversal(ctx, w, name, fw[0].x, BL, args, d, o)
        others = [e for e, l in walk(o.events) if e.kind == 'call' and e.name != name]
        ctx.check('%s calls nothing else on the blocks' % name, w, (not others) or None, d, [o])
        if name == '_mark_unprocessed':
            ctx.check('the submodel itself becomes unprocessed', w, o.cells.get(PR, mk('ld', PR)) is FALSE, d, [o])
        ch = [show(r) for r, v in o.cells.items() if r.op == 'H' and r.args[0] is this and v is not mk('ld', r) and r is not PR and now(v) is not now(mk('ld', r))]
        ctx.check('%s keeps the list of blocks' % name, w, BL.args[0] not in o.cells or now(o.cells[BL.args[0]]) is BL, d, [o])


def traversal(ctx, w, name, lp, BL, args, d, o):
    ctx.check('%s reaches every block' % name, w, lp.n is size(BL) or (None if lp.n is None else False), d, [o])
    for x in lp.outs:
        if x.kind == 'exhaust':
            continue
        cs = [e for e in x.events if e.kind == 'call' and e.name == name]
        inner = [e for e in x.events if e.kind == 'loop']
        if inner:
            ctx.undecided('%s is forwarded to each block' % name, w, d)
            continue
        ctx.check('%s is forwarded to each block exactly once' % name, w, len(cs) == 1, d, [o, x])
        ctx.check('%s is forwarded to all blocks, whatever they do' % name, w, x.kind == 'ok', d, [o, x])
        for e in cs:
            pos = over(lp, BL, e.args[0], lp.uid)
            ctx.check('%s reaches the blocks in the order they were added' % name, w, True if pos is True else False if pos == 'reverse' else None if not sure(e.args[0]) else False, d, [o, x])
            ctx.check('%s passes the time on' % name, w, list(e.args[1:]) == args, d, [o, x])


def process(ctx, P, cls, f, BL):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, cls, P)
    t, deep = (sym(p['n'] or 'arg%d' % i) for i, p in enumerate(f['params']))
    what = 'processing a submodel leaves it processed exactly when all of its blocks are'
    bad = unclear = total = 0
    # every combination of blocks before and after being processed
    for n in range(4):
        for combo in itertools.product(((True, True), (False, True), (False, False)), repeat=n):
            for pr in (True, False):
                for dp in (True, False):
                    total += 1
                    epochs = set()

                    def atom(x):
                        if x is deep:
                            return dp
                        if x is mk('ld', PR):
                            return pr
                        if x.op == 'ld' and x.args[0].op == 'H' and x.args[0].args[1] == '@processed':
                            b = x.args[0].args[0]
                            for i in range(n):
                                if b is at(BL, num(i)):
                                    return combo[i][1 if late(x) else 0]
                        return None
                    W = World(atom, {BL: n})
                    want = True if pr else all(a for b, a in combo) if dp else True
                    for o in W.paths(outs, lambda x: x) or [None]:
                        if o is None:
                            unclear += 1
                            continue
                        v = o.cells.get(PR, mk('ld', PR))
                        try:
                            v = W.val(v)
                        except Unknown:
                            unclear += 1
                            continue
                        if v == want:
                            continue
                        bad += 1
                        if bad == 1:
                            ctx.check(what, w, False, 'blocks (processed before, after) %s, submodel processed=%s go_deep=%s: left %s\n%s' % (combo, pr, dp, v, showout(o)), [o])
    if unclear:
        ctx.undecided(what, w, '%d of %d cases not clear\n%s' % (unclear, total, '\n'.join(map(showout, outs))))
    if not bad and not unclear:
        ctx.hold(what + ' (%d cases)' % total, w)
    for o in outs:
        d = showout(o)
        calls = [(e, l) for e, l in walk(o.events) if e.kind == 'call' and e.name == 'process']
        pr, dp = mk('ld', PR) in o.conds, deep in o.conds
        npr, ndp = notb(mk('ld', PR)) in o.conds, notb(deep) in o.conds
        if o.kind != 'return':
            ctx.check('processing a submodel does not fail by itself', w, False, d, [o])
            continue
        if pr or ndp:
            ctx.check('a submodel processes no block when %s' % ('it is processed already' if pr else 'asked to process only itself'), w, not calls, d, [o])
            ctx.check('... and reports no progress', w, o.val is ZERO if isinstance(o.val, T) else None, d, [o])
            continue
        if not (npr and dp):
            ctx.undecided('when a submodel processes its blocks', w, d)
            continue
        loops = [e.x for e in top(o, ('loop',)) if any(y.name == 'process' for y, _ in walk([e]))]
        if len(loops) != 1:
            if loops or calls or not emptycase(o, BL):
                ctx.check('every block is processed in one traversal', w, False if not loops else None, d, [o])
            continue
        lp = loops[0]
        ctx.check('the traversal covers every block', w, lp.n is size(BL) or (None if lp.n is None else False), d, [o])
        contrib = []
        for x in lp.outs:
            if x.kind == 'exhaust':
                continue
            ctx.check('the traversal is never cut short', w, x.kind == 'ok', d, [o, x])
            cs = [e for e in x.events if e.kind == 'call' and e.name == 'process']
            b = at(BL, mk('k', lp.uid))
            if not cs:
                skip = [c for c in x.conds if c.op == 'ld' and c.args[0] is H(b, '@processed') or c.op == 'ld' and c.args[0].op == 'H' and c.args[0].args == (b, '@processed')]
                ctx.check('a block is skipped only when it is processed', w, bool(skip), d, [o, x])
                continue
            good = len(cs) == 1 and cs[0].args[1] is t and cs[0].args[2] in (TRUE, deep)
            ctx.check('each block is processed once, with the time of the pass and all below it', w, good, d, [o, x])
            pos = over(lp, BL, cs[0].args[0], lp.uid)
            ctx.check('the blocks are processed in the order they were added', w, True if pos is True else False if pos else None, d, [o, x])
            contrib.append((frozenset(x.conds), cs[0].ret))
        v = o.val
        ok = None
        if isinstance(v, T):
            if v.op == 'sum' and v.args[0] is size(BL):
                items = {(c, e) for c, e in v.args[1]}
                rets = {e for c, e in items}
                ok = all(r.op == 'ret' and r.args[0] == 'process' and r.args[1][0] is at(BL, mk('bk', v.args[2])) for r in rets) and len(rets) == 1
                if ok:
                    (c, e), = items
                    if c != frozenset([frozenset()]):
                        want = frozenset(frozenset(subst(y, {mk('k', lp.uid): mk('bk', v.args[2])}) for y in cj) for cj, _ in contrib)
                        ok = sameconds(set(c), set(want))
            elif v.op == 'mufin' and v.args[0] == lp.uid:
                m = mk('mu', *v.args)
                if any(x.cells.get(v.args[1], m) is not add(m, e.ret) for x in lp.outs if x.kind == 'ok' for e in x.events if e.kind == 'call' and e.name == 'process'):
                    ok = False
            elif not mentions(v, {'mufin', 'mu'}):
                ok = False
        ctx.check('processing reports the total of what the blocks report', w, ok, d, [o])


def late(x):
    """is this read of a flag one after the call within the iteration"""
    return not (len(x.args) > 1 and show(x.args[1]).startswith(('ep(it', 'ep(0', 'ep(before')))


def emptycase(o, BL):
    return any(c in o.conds for c in (eqn(size(BL), ZERO), le(size(BL), ZERO)))


def visiting(ctx, P, cls, f, BL):
    w = ctx.where(f) + ' (%s)' % P.config
    name = f['n']
    I, outs = ctx.runs(f, cls, P)
    cb, lv, mx = (sym(p['n'] or 'arg%d' % i) for i, p in enumerate(f['params']))
    # a visit which names no maximum reaches every level
    for x in f['params'][1:]:
        if 'dflt' in x:
            lim = x is f['params'][2]
            v = x['dflt']
            if v is not None and v < 0:
                v += 2 ** 32
            ctx.check('a visit without a limit reaches every level', w, (None if v is None else v >= 2 ** 32 - 1) if lim else True, 'default of %s: %s' % (x['n'], v))
    for o in outs:
        d = showout(o)
        pos = []
        for a, b, n in ((1, 0, 'above'), (0, 0, 'at'), (0, 1, 'below')):
            def atom(x):
                if x is lv:
                    return Fr(a)
                if x is mx:
                    return Fr(b)
                return None
            W = World(atom)
            possible = True
            for c in o.conds:
                try:
                    if not W.val(c):
                        possible = False
                        break
                except Unknown:
                    pass
            if possible:
                pos.append(n)
        if not pos:
            continue
        fns = [e for e in o.events if e.kind == 'fn']
        deepfn = [e for e, l in walk(o.events) if e.kind == 'fn' and l]
        vis = [e for e, l in walk(o.events) if e.kind == 'call']
        if o.kind != 'return' or not isinstance(o.val, T):
            ctx.check('%s returns' % name, w, False, d, [o])
            continue
        if 'above' in pos:
            ctx.check('nothing is presented beyond the maximum level', w, not fns and not vis and not deepfn, d, [o])
            ctx.check('... and the visit goes on', w, o.val is TRUE, d, [o])
            if pos == ['above']:
                continue
        good = len(fns) == 1 and not deepfn and fns[0].args[0] is cb and list(fns[0].args[1:]) == [this, lv]
        ctx.check('the object itself is presented once, with its level', w, good, d, [o])
        if not good:
            continue
        ctx.check('the object is presented before what is below it', w, [e for e in o.events if e.kind in ('fn', 'loop', 'call')][0].kind == 'fn', d, [o])
        r = fns[0].ret
        if BL is None:
            ctx.check('the visitor\'s answer is returned', w, o.val is r or (o.val is TRUE and r in o.conds) or (o.val is FALSE and notb(r) in o.conds), d, [o])
            ctx.check('nothing else is visited', w, not vis, d, [o])
            continue
        if notb(r) in o.conds:
            ctx.check('a refused visit stops at once and reports it', w, o.val is FALSE and not vis, d, [o])
            continue
        if r not in o.conds and not (o.val is r):
            ctx.check('a refused visit stops at once and reports it', w, False, d, [o])
            continue
        loops = [e.x for e in top(o, ('loop',)) if any(y.kind == 'call' for y, _ in walk([e]))]
        direct = [e for e in o.events if e.kind == 'call']
        if not loops:
            ctx.check('the blocks below are visited', w, 'below' not in pos and not direct or emptycase(o, BL), d, [o])
            ctx.check('... and the visit goes on', w, o.val is TRUE or o.val is r, d, [o])
            continue
        if len(loops) != 1 or direct:
            ctx.check('every block is visited in one traversal', w, False, d, [o])
            continue
        lp = loops[0]
        ctx.check('the traversal covers every block', w, lp.n is size(BL) or (None if lp.n is None else False), d, [o])
        if 'at' in pos and False:
            pass
        for x in lp.outs:
            if x.kind == 'exhaust':
                continue
            cs = [e for e in x.events if e.kind == 'call']
            b = at(BL, mk('k', lp.uid))
            good = len(cs) == 1 and cs[0].name == name
            ctx.check('each block is visited once', w, good, d, [o, x])
            if not good:
                continue
            p = over(lp, BL, cs[0].args[0], lp.uid)
            ctx.check('the blocks are visited in the order they were added', w, True if p is True else False if p else None, d, [o, x])
            ctx.check('each block is visited one level deeper, with the same visitor and limit', w, cs[0].args[1] is cb and cs[0].args[2] is add(lv, ONE) and cs[0].args[3] is mx, d, [o, x])
            rr = cs[0].ret
            if x.kind == 'ok':
                ctx.check('the visit goes on only while blocks accept it', w, rr in x.conds, d, [o, x])
            else:
                ctx.check('the visit stops only at a refusal', w, notb(rr) in x.conds, d, [o, x])
        kind = lp.exit[0]
        if kind == 'exhaust':
            ctx.check('a completed visit is reported', w, o.val is TRUE, d, [o])
        else:
            ctx.check('a refused visit is reported', w, o.val is FALSE or (o.val.op == 'ret' and notb(o.val) in o.conds), d, [o])
