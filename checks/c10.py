"""C10: a block belongs to one parent, which lists it exactly once"""
from blocks import *
from c09 import blocklist

RULE = """The paths of the block constructors (of every library block type that takes a parent), Block::set_parent, Submodel::link_block and Submodel::add_block are compared
with the specified registration for every list of up to 3 blocks of the parent, with the block at each position of it or absent, and for no parent, the same parent and another
parent before: the block ends up listed exactly once by its parent, a different parent is refused with a warning and without any effect, and add_block connects with the given buses
exactly when the parent was accepted."""
ASSUME = ['a parent lists a block at most once before the operation (established by the same rule)', 'up to 3 blocks in the case analysis']
PAR = H(this, '@parent')


def check(ctx):
    for P in (ctx.R, ctx.D):
        root = blocklist(ctx, P)
        fld_ = root.args[1]
        f = ctx.need('pooya::Submodel', 'link_block', P, np=1)
        ctx.each('link_block (%s)' % P.config, ctx.where(f), link, ctx, P, f, root)
        done = set()
        for cls in sorted(c for c in P.recs if c.startswith('pooya::') and P.derives(c, 'pooya::Block')):
            g = ctx.need(cls, 'set_parent', P, np=1)
            if g['id'] not in done:
                done.add(g['id'])
                ctx.each('set_parent (%s)' % P.config, ctx.where(g), parent, ctx, P, g, fld_)
        f = ctx.need('pooya::Submodel', 'add_block', P, np=3)
        ctx.each('add_block (%s)' % P.config, ctx.where(f), adding, ctx, P, f)
    P = ctx.R
    n = 0
    fld_ = blocklist(ctx, P).args[1]
    for cls in sorted(c for c in P.recs if c.startswith('pooya::') and P.derives(c, 'pooya::Block')):
        for c in ctx.ctors(cls, P):
            ps = [p for p in c['params'] if 'pooya::Submodel' in p['ty']]
            if len(ps) != 1:
                continue
            n += 1
            ctx.each('construction of ' + cls, ctx.where(c), building, ctx, P, cls, c, ps[0], fld_)
    if n < 15:
        raise Broken('only %d block constructors' % n)


class Sit:
    """one situation: a list of n blocks with the block at position hit, and facts about pointers"""

    def __init__(self, lst, n, hit, me, facts):
        ents = [at(lst, num(i)) for i in range(n)]
        self.ents, self.hit, self.lst, self.n = ents, hit, lst, n

        def atom(t):
            if t.op == 'same':
                a, b = t.args
                for x, y in ((a, b), (b, a)):
                    if x is me and y in ents:
                        return ents.index(y) == hit
                if t in facts:
                    return facts[t]
                # the names of blocks need not differ: here they are all the same, and not empty
                nm = [x.op == 'ld' and x.args[0].op == 'H' and x.args[0].args[1] == '@name' for x in t.args]
                if all(nm):
                    return True
                if any(nm) and any(x.op == 'str' for x in t.args):
                    return False
            return facts.get(t)
        self.W = World(atom, {lst: n})

    def entries(self, o, root, old):
        v = o.cells.get(root, old)
        return self.W.seq(now(v))

    def expected(self, me, add_):
        if self.hit is None and add_:
            return self.ents + [me]
        return list(self.ents)


def situations(lst, me, facts):
    for n in range(4):
        for hit in [None] + list(range(n)):
            yield Sit(lst, n, hit, me, facts)


def compare(ctx, w, what, outs, lst, root, old, me, facts, add_, extra):
    unclear = total = bad = 0
    for s in situations(lst, me, facts):
        total += 1
        ps = s.W.paths(outs)
        if ps is None:
            unclear += 1
            continue
        for o in ps:
            e = s.entries(o, root, old)
            ok = extra(o)
            if e is None or ok is None:
                unclear += 1
                break
            if e != s.expected(me, add_) or not ok:
                bad += 1
                if bad == 1:
                    ctx.check(what, w, False, '%d blocks, the block %s: list becomes %s%s\n%s' % (s.n, 'not listed' if s.hit is None else 'listed at %d' % s.hit, [show(x) for x in e], '' if ok else ' (wrong result, parent or warning)', showout(o)), [o])
                break
    if unclear:
        ctx.undecided(what, w, '%d of %d cases not clear\n%s' % (unclear, total, '\n'.join(map(showout, outs))))
    if not bad and not unclear:
        ctx.hold(what + ' (%d cases)' % total, w)


def warned(o):
    return bool([e for e, l in walk(o.events) if e.kind == 'warn'])


def link(ctx, P, f, root):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, 'pooya::Submodel', P)
    b = sym(f['params'][0]['n'])
    old = mk('ld', root)
    own = same(mk('ld', H(b, '@parent')), this)
    for mine in (True, False):
        # any read of the parent, at whatever point in time
        compare(ctx, w, 'a submodel lists its own block exactly once' if mine else 'a submodel refuses the block of another parent with a warning', outs, old, root, old, b,
                {own: mine}, mine,
                lambda o: o.kind == 'return' and (o.val is TRUE) == mine and (o.val is FALSE) == (not mine) and warned(o) == (not mine))
    for o in outs:
        oth = [show(r) for r, v in o.cells.items() if r.op == 'H' and r is not root and now(v) is not now(mk('ld', r)) and r.args[0].op != 'new']
        ctx.check('listing a block changes nothing else', w, not oth, '%s\n%s' % (oth, showout(o)), [o])


def parent(ctx, P, f, fld_):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, f['cls'], P)
    p = sym(f['params'][0]['n'])
    root = H(p, fld_)
    old = mk('ld', root)
    pr = mk('ld', PAR)
    for who in ('none', 'same', 'other'):
        facts = {same(pr, NULL): who == 'none', same(pr, p): who == 'same', same(p, pr): who == 'same', same(p, NULL): False}

        def extra(o, who=who):
            par = o.cells.get(PAR, pr)
            if who == 'other':
                return o.kind == 'return' and o.val is FALSE and par is pr and warned(o)
            return o.kind == 'return' and o.val is TRUE and (par is p or (par is pr and who == 'same')) and not warned(o)
        compare(ctx, w, {'none': 'a block given its first parent is listed by it exactly once', 'same': 'a block given its own parent again is listed exactly once',
                         'other': 'a different parent is refused with a warning and nothing changes'}[who], outs, old, root, old, this, facts, who != 'other', extra)
    for o in outs:
        oth = [show(r) for r, v in o.cells.items() if r.op == 'H' and r not in (root, PAR) and now(v) is not now(mk('ld', r)) and r.args[0].op != 'new']
        ctx.check('giving a parent changes nothing else', w, not oth, '%s\n%s' % (oth, showout(o)), [o])


def adding(ctx, P, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, 'pooya::Submodel', P)
    b, ib, ob = (sym(p['n']) for p in f['params'])
    for o in outs:
        d = showout(o)
        calls = [e for e, l in walk(o.events) if e.kind == 'call']
        sp = [e for e in calls if e.name == 'set_parent']
        co = [e for e in calls if e.name == 'connect']
        good = len(sp) == 1 and sp[0].args[0] is b and sp[0].args[1] is this
        ctx.check('adding a block gives it this parent', w, good, d, [o])
        if not good:
            continue
        r = sp[0].ret
        if notb(r) in o.conds:
            ctx.check('a refused block is not connected', w, not co, d, [o])
            ctx.check('a refused block is reported', w, o.kind == 'return' and o.val is FALSE, d, [o])
        elif r in o.conds:
            ok = len(co) == 1 and co[0].args[0] is b and co[0].args[1] is ib and co[0].args[2] is ob and calls.index(sp[0]) < calls.index(co[0])
            ctx.check('an accepted block is connected to the given buses', w, ok, d, [o])
            ctx.check('an accepted block is reported', w, o.kind == 'return' and (o.val is TRUE or (ok and (o.val is co[0].ret or (o.val is FALSE and notb(co[0].ret) in o.conds)))), d, [o])
        else:
            ctx.check('a refused block is not connected', w, False if co else None, d, [o])


def building(ctx, P, cls, c, ps, fld_):
    w = ctx.where(c)
    st = State()
    I = Interp(P, cls)
    I.hooks['pooya::Block::connect'] = connect_summary
    I.hooks['pooya::Block::link_signal'] = link_summary
    I.hooks['pooya::Block::find_linked_signal'] = find_summary
    import lib
    lib.base(I, st, cls)
    outs = I.run(c['id'], st0=st)
    ctx.note(I, outs)
    p = sym(ps['n'] or 'arg%d' % c['params'].index(ps))
    root = H(p, fld_)
    old = mk('ld', root)
    ptr = ps['ty'].rstrip().endswith('*')
    good_, seen = [], set()
    for o in outs:
        if o.kind == 'throw':
            continue
        o.conds = [x for x in o.conds if contains(x, p)]      # what does not depend on the parent
        key = (tuple(o.conds), o.cells.get(root), o.cells.get(PAR), len(o.events))
        if key not in seen:
            seen.add(key)
            good_.append(o)
    for given in ((True, False) if ptr else (True,)):
        facts = {same(p, NULL): not given}

        def extra(o, given=given):
            par = o.cells.get(PAR)
            return par is (p if given else NULL) or (par is p and not given)
        if not given:
            s = Sit(old, 1, None, this, facts)
            o = s.W.chosen(good_)
            if o is None:
                ctx.undecided('%s can be built without a parent' % cls, w, '\n'.join(map(showout, good_)))
            else:
                ctx.check('%s built without a parent has none' % cls, w, extra(o), showout(o), [o])
            continue
        compare(ctx, w, '%s built with a parent is listed by it exactly once' % cls, good_, old, root, old, this, facts, True, extra)
