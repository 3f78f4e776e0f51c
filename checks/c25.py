"""C25: bus memories and bus pipes build one matching block per bus entry"""
from hist import *
import c26

RULE = """The constructors, connect and the building functions of the bus memory and the bus pipe are summarised path by path (both build modes).  The extracted summaries are followed -
recursive and virtual calls included - on model buses: entries of every kind at depths 1 to 3, equal labels at different depths, empty nested buses, outputs in another order and with
entries to spare, exclusion lists naming entries, nested buses, nothing that exists; initial values for none, some and all entries and for labels that get no block.  What must be left:
for each entry not excluded exactly one new block of its kind, kept by the bus block, under the same parent, named after the full label, connected once from the input signal to the
equally labelled output signal, starting from its initial value or else from zero; nothing for the others; every initial value used is gone, and with debug checks left-over ones raise."""
ASSUME = ['the summaries are uniform in the shape of the bus: right on the model buses means right on larger ones', 'connecting and naming a block do what C04 and C10 state',
          'the output bus has an entry of the same kind for every label that is not excluded']
BB = 'pooya::BusBlockBuilder'
NOINLINE = ('pooya::BusImpl::at', 'pooya::BusImpl::operator[]', 'pooya::BusImpl::try_at', 'pooya::NamedObject::rename', 'pooya::Block::connect', 'pooya::Block::set_parent',
            'pooya::Submodel::link_block', 'pooya::Block::full_name')
KIND = {'S': 'double', 'I': 'int', 'B': 'bool', 'A': 'Array'}


class Bus:
    """entries: (label, signal or bus)"""

    def __init__(self, entries):
        self.entries = list(entries)
        self.kind, self.name, self.size = 'bus', '', len(self.entries)

    def isa(self, c):
        return c in ('pooya::BusImpl', 'pooya::SignalImpl', 'pooya::SignalImplBase', 'pooya::NamedObject')

    def leaves(self, pre=''):
        for l, x in self.entries:
            if isinstance(x, Bus):
                yield from x.leaves(pre + l + '.')
            else:
                yield pre + l, x

    def at(self, key):
        if isinstance(key, (int, Fr)):
            if not 0 <= key < len(self.entries):
                raise Bad('entry %s of a bus of %d is asked for' % (key, len(self.entries)))
            return self.entries[int(key)][1]
        head, _, rest = key.partition('.')
        for l, x in self.entries:
            if l == head:
                if not _:
                    return x
                if isinstance(x, Bus):
                    return x.at(rest)
                raise Bad('%r is looked up in the signal %s' % (key, l))
        raise Bad('no entry %r in the bus with %s' % (key, [l for l, x in self.entries]))

    def __repr__(self):
        return 'bus{%s}' % ', '.join('%s: %r' % (l, x) if isinstance(x, Bus) else '%s: %s' % (l, x.kind) for l, x in self.entries)


class Made:
    """a block that was created"""

    def __init__(self, cls, args):
        self.cls, self.args = cls, args
        self.names, self.parents, self.links = [], [], []

    def isa(self, c):
        return None

    def __repr__(self):
        return 'new ' + self.cls


class Var:
    """an initial value given: it holds one kind"""

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __repr__(self):
        return '%s value %r' % (KIND[self.kind], self.v)


class Parent:
    def __init__(self):
        self.children = []

    def isa(self, c):
        return None

    def __repr__(self):
        return 'the parent'


class Thrown(Exception):
    pass


class Net(Machine):
    """Machine that also carries out the calls a path makes, in their order"""

    def __init__(self, P, cls):
        Machine.__init__(self, P, cls)
        self.made, self.obus, self.bus = [], None, None
        self.connects = 0
        self.depth = 0
        self.virtuals = {m['n'] for c in P.ancestors(cls) for m in P.methods.get(c, []) if m.get('pure') and P.derives(c, BB)}

    def summary(self, ctx, f):
        k = 'c25', self.P.config, self.cls, f['id']
        if k not in SUMS:
            I = Interp(self.P, self.cls, noinline=NOINLINE, events_on_this=tuple(self.virtuals))
            o = I.run(f['id'])
            ctx.note(I, o)
            SUMS[k] = o
        return SUMS[k]

    def snapshot(self):
        return (dict(self.mem), list(self.made), self.connects, [(m, list(m.names), list(m.parents), list(m.links)) for m in self.made], list(self.parent.children), self.bus, self.obus)

    def restore(self, s):
        self.mem, self.made, self.connects, ms, self.parent.children, self.bus, self.obus = dict(s[0]), list(s[1]), s[2], s[3], list(s[4]), s[5], s[6]
        for m, a, b, c in ms:
            m.names, m.parents, m.links = list(a), list(b), list(c)

    def invoke(self, ctx, f, args):
        self.depth += 1
        if self.depth > 12:
            raise Bad('the recursion does not end')
        try:
            env = sub_env({sym(p['n']): a for p, a in zip(f['params'], args)})
            o, env = self.take(self.summary(ctx, f), env)
            if o.unk:
                raise Unknown(str(o.unk[0])[:300])
            val = self.ev(o.val, env) if isinstance(o.val, T) and o.val.op != 'void' and o.kind == 'return' else None
            self.commit(o.cells, env)
            return (o.kind, val if o.kind == 'return' else getattr(o.val, 'what', o.val))
        finally:
            self.depth -= 1

    def call(self, ctx, f, *args):
        self.ctx = ctx
        return self.invoke(ctx, f, args)

    def commit(self, cells, env):
        new = {}
        for r, v in cells.items():
            if r.op == 'H' and r.args[0] is this:
                if v is mk('ld', r) or v.op == 'mu' and v.args[1] is r or v.op == 'mufin' and v.args[1] is r and ('mufin', v.args[0], r) not in env:
                    continue
                new[r.args[1]] = self.ev(v, env)
        for k, v in new.items():
            if self.written.get(k, 0) and k in self.mem and self.mem[k] is not v and isinstance(v, (int, Fr)):
                raise Unknown('member %s is changed here and in a call' % k)
        self.mem.update(new)

    written = {}

    def take(self, outs, env):
        hits = []
        s0 = self.snapshot()
        for o in outs:
            self.restore(s0)
            e = sub_env(env)
            try:
                self.follow(o, e)
                hits.append((o, e, self.snapshot()))
            except Miss:
                pass
        if len(hits) != 1:
            self.restore(s0)
            raise Unknown('%d paths at once' % len(hits) if hits else 'no path')
        o, e, s = hits[0]
        self.restore(s)
        return o, e

    def follow(self, o, env):
        n0 = len(o.st.pc.log) - len(o.conds)
        done = 0
        env['loops'] = {**env.get('loops', {}), **o.st.loops}
        for x in o.events:
            done = self.conds(o, done, x.pcn - n0, env)
            self.event(x, env, o)
        self.conds(o, done, len(o.conds), env)

    def conds(self, o, lo, hi, env):
        for c in o.conds[lo:hi]:
            if c.op in ('lexit', 'loopset'):
                continue
            if not self.truth(c, env):
                raise Miss()
        return max(lo, hi)

    def event(self, x, env, o):
        if x.kind == 'loop':
            if x.x.uid not in env:
                self.loop(x.x, env)
        elif x.kind == 'make':
            if x.ret is None:
                raise Unknown('%r' % (x,))
            m = Made(x.name, [self.ev(a, env) for a in x.args])
            env[x.ret] = m
            self.made.append(m)
        elif x.kind in ('call', 'rec'):
            self.commit(x.snap, env)
            vals = [self.ev(a, env) for a in x.args]
            obj, args = vals[0], vals[1:]
            r = self.perform(x, obj, args)
            if x.ret is not None:
                env[x.ret] = r
            env['memo'] = [{} for _ in env['memo']]
        elif x.kind in ('store', 'get', 'warn'):
            pass
        else:
            raise Unknown('%r' % (x,))

    def perform(self, x, obj, args):
        n = x.name.split('::')[-1]
        if n == 'full_name':
            return 'its name'
        if obj is self:
            if n == 'connect':
                self.connects += 1
                if self.connects > 1:
                    raise Thrown('a block is connected twice')
                self.mem['@ibus'], self.mem['@obus'] = args
                self.mem['@connected'] = True
                return True
            if n == 'rename':
                return None
            f = self.P.fns.get(x.x[1]['id'])
            f = f and self.P.fns.get(self.P.final(self.cls, f['id']) if f.get('virt') or f.get('pure') else f['id'])
            if f is None or 'body' not in f:
                raise Unknown('%r' % (x,))
            k, v = self.invoke(self.ctx, f, args)
            if k == 'throw':
                raise Thrown(v)
            return v
        if isinstance(obj, Made):
            if n == 'rename':
                obj.names.append(args[0])
                return None
            if n == 'connect':
                obj.links.append(tuple(args[:2]))
                return True
            if n == 'set_parent':
                if obj.parents and obj.parents[-1] is not args[0]:
                    return False
                obj.parents.append(args[0])
                return True
            if n == 'parent':
                return obj.parents[-1] if obj.parents else None
        if isinstance(obj, Parent) and n == 'link_block':
            obj.children.append(args[0])
            return True
        if isinstance(obj, Bus) and n in ('at', 'operator[]'):
            return obj.at(args[0])
        raise Unknown('%r' % (x,))

    def loop(self, lp, env):
        for r in lp.carried:
            if r not in lp.inds and r.op == 'H' and r.args[0] is this:
                v = self.ev(lp.init[r], env)
                self.mem[r.args[1]] = v
        n = None
        if lp.n is not None:
            n = self.num(lp.n, env)
            if n > self.LIM:
                raise Unknown('too many iterations')
        mine = [r for r in lp.carried if r not in lp.inds and r.op == 'H' and r.args[0] is this]
        roots = [r for r in lp.carried if r not in lp.inds and r not in mine]
        cur = {r: self.ev(lp.init[r], env) for r in roots}
        body = [o for o in lp.outs if o.kind != 'exhaust' or n is None]
        k, kind, last = 0, None, None
        while True:
            if n is not None and k >= n:
                kind = 'exhaust'
                break
            if k > self.LIM:
                raise Bad('a loop does not end')
            e = sub_env(env)
            e[('k', lp.uid)] = k
            for r in roots:
                e[('mu', lp.uid, r)] = cur[r]
            for r in mine:
                e[('mine', lp.uid, r)] = True
            o, e2 = self.take(body, e)
            new = {r: self.ev(o.cells[r], e2) if r in o.cells else cur[r] for r in roots}
            self.commit({r: v for r, v in o.cells.items() if r in mine}, e2)
            cur = new
            if o.kind == 'ok':
                k += 1
                continue
            kind, last = o.kind, o
            break
        if kind == 'throw':
            raise Thrown(getattr(last.val, 'what', last.val))
        if kind != lp.exit[0] or (kind != 'exhaust' and not any(x is last for x in lp.group)):
            raise Miss()
        for r in roots:
            env[('mufin', lp.uid, r)] = cur[r]
        env[('kend', lp.uid)] = k
        env[lp.uid] = True

    def own(self, r):
        return r.op == 'H' and r.args[0] is this

    def v_mu(self, t, env):
        if self.own(t.args[1]):
            return self.mem[t.args[1].args[1]]
        return Machine.v_mu(self, t, env)

    def v_mufin(self, t, env):
        if self.own(t.args[1]):
            return self.mem[t.args[1].args[1]]
        self.settle(t.args[0], env)
        return Machine.v_mufin(self, t, env)

    def v_kend(self, t, env):
        self.settle(t.args[0], env)
        return Machine.v_kend(self, t, env)

    def settle(self, uid, env):
        lp = env.get('loops', {}).get(uid)
        if lp is not None and uid not in env:
            self.loop(lp, env)

    def v_ret(self, t, env):
        raise Unknown(show(t)[:200])

    def v_new(self, t, env):
        raise Unknown(show(t)[:200])

    def field(self, o, f, t):
        if isinstance(o, Bus) and f == '@signals':
            return Tab(o.entries)
        if isinstance(o, Bus) and f == '@size':
            return len(o.entries)
        if isinstance(o, Made) and f == '@parent':
            return o.parents[-1] if o.parents else None
        return Machine.field(self, o, f, t)

    def pairs(self, m):
        return sorted(m.items())

    def v_busat(self, t, env):
        b, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if not isinstance(b, Bus):
            raise Unknown(show(t)[:200])
        return b.at(k)

    def v_newbus(self, t, env):
        v = self.ev(t.args[0], env)
        if not isinstance(v, list):
            raise Unknown(show(t)[:200])
        return Bus((('sig%d' % i, x) if not isinstance(x, tuple) else x) for i, x in enumerate(v))

    def v_same(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if any(isinstance(x, (Bus, Made, Parent, Net)) for x in (a, b)):
            return a is b
        return Machine.v_same(self, t, env)

    def v_isa(self, t, env):
        o = self.ev(t.args[0], env)
        if isinstance(o, Bus):
            return o.isa(t.args[1])
        return Machine.v_isa(self, t, env)

    def v_cat(self, t, env):
        r = Machine.v_cat(self, t, env)
        return ''.join(r) if all(isinstance(x, str) for x in r) else r

    def v_tostr(self, t, env):
        v = self.ev(t.args[0], env)
        return v if isinstance(v, str) else [Tok(v)]

    def v_vget(self, t, env):
        v = self.ev(t.args[0], env)
        if not isinstance(v, Var):
            raise Unknown(show(t)[:200])
        want = t.args[1]
        kind = {'double': 'S', 'int': 'I', 'bool': 'B'}.get(want, 'A' if 'Array' in want else None)
        if kind is None:
            raise Unknown(show(t)[:200])
        if v.kind != kind:
            raise Thrown('the initial value does not hold a %s' % want)
        return v.v

    def v_merase(self, t, env):
        m, k = dict(self.ev(t.args[0], env)), self.ev(t.args[1], env)
        if not isinstance(k, str):
            raise Unknown(show(t)[:200])
        m.pop(k, None)
        return m

    def v_sfind(self, t, env):
        s, x = self.ev(t.args[0], env), self.ev(t.args[1], env)
        p = self.num(t.args[2], env) if len(t.args) > 2 else 0
        return NPOS if s.find(x, p) < 0 else s.find(x, p)

    def v_srfind(self, t, env):
        s, x = self.ev(t.args[0], env), self.ev(t.args[1], env)
        i = s.rfind(x, 0, self.num(t.args[2], env) + len(x)) if len(t.args) > 2 else s.rfind(x)
        return NPOS if i < 0 else i

    def v_npos(self, t, env):
        return NPOS

    def v_substr(self, t, env):
        s, a, n = self.ev(t.args[0], env), self.num(t.args[1], env), self.num(t.args[2], env)
        if a > len(s):
            raise Thrown('substr')
        return s[a:] if n >= len(s) else s[a:a + n]


NPOS = 2 ** 64 - 1


def valid(s):
    return ''.join(ch if ord(ch) < 128 and (ch.isalnum() or ch == '_') else '_' for ch in s)


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(BB, P)
        kinds = [k for k, m in (('S', None), ('I', 'pooya::IntSignalImpl'), ('B', 'pooya::BoolSignalImpl'), ('A', 'pooya::ArraySignalImpl')) if m is None or m in P.recs]
        for cls, what in (('pooya::BusMemory', 'memory'), ('pooya::BusPipe', 'pipe')):
            ctx.cls(cls, P)
            f = final(ctx, P, cls)
            w = ctx.where(f)
            for name, ib, ob in shapes():
                for ex in exclusions(ib):
                    for iv in (inits(ib, ex) if what == 'memory' else [()]):
                        c26.run(ctx, '%s blocks for %s%s%s (%s)' % (what, name, ', excluding %s' % list(ex) if ex else '', ', initial values for %s' % list(iv) if iv else '', P.config),
                                w, build, ctx, P, cls, f, what, ib, ob, ex, iv)


def final(ctx, P, cls):
    base = [m for m in P.methods.get('pooya::Block', []) if m['n'] == 'connect' and len(m['params']) == 2]
    if len(base) != 1:
        raise Broken('Block::connect')
    f = P.fns.get(P.final(cls, base[0]['id']))
    if f is None or 'body' not in f:
        raise Broken('connect of ' + cls)
    return f


def S(kind, n):
    return Sig(kind, n, 3 if kind == 'A' else 1)


def shapes():
    def flat(kinds, labels, pre):
        return [(l, S(k, pre + l)) for k, l in zip(kinds, labels)]

    def mirror(b, pre, shuffle):
        e = [(l, mirror(x, pre + l + '_', shuffle) if isinstance(x, Bus) else S(x.kind, pre + l)) for l, x in b.entries]
        if shuffle:
            e = [('spare', S('S', pre + 'spare'))] + list(reversed(e))
        return Bus(e)
    out = []
    for name, b in (('no entry', Bus([])),
                    ('one scalar', Bus(flat('S', ['x'], 'in_'))),
                    ('one integer', Bus(flat('I', ['x'], 'in_'))),
                    ('one boolean', Bus(flat('B', ['x'], 'in_'))),
                    ('one array', Bus(flat('A', ['x'], 'in_'))),
                    ('every kind', Bus(flat('ASBI', ['q', 'a', 'z', 'm'], 'in_'))),
                    ('two scalars', Bus(flat('SS', ['x', 'y'], 'in_'))),
                    ('a nested bus', Bus([('x', S('S', 'in_x')), ('b', Bus(flat('AS', ['x', 'y'], 'in_b_'))), ('y', S('I', 'in_y'))])),
                    ('two nested buses with equal labels', Bus([('b', Bus(flat('SI', ['x', 'y'], 'in_b_'))), ('c', Bus(flat('BS', ['x', 'y'], 'in_c_')))])),
                    ('three levels', Bus([('b', Bus([('c', Bus(flat('SA', ['x', 'y'], 'in_bc_'))), ('x', S('B', 'in_b_x'))])), ('c', Bus(flat('S', ['x'], 'in_c_'))), ('x', S('I', 'in_x'))])),
                    ('five levels', Bus([('a', Bus([('b', Bus([('c', Bus([('d', Bus(flat('S', ['x'], 'in_abcd_'))), ('x', S('A', 'in_abc_x'))])), ('x', S('B', 'in_ab_x'))]))])), ('d', Bus(flat('S', ['x'], 'in_d_')))])),
                    ('the same label at every level', Bus([('b', Bus([('b', Bus([('b', Bus(flat('SA', ['b', 'bb'], 'in_bbb_'))), ('bb', S('I', 'in_bbbb'))]))])), ('bb', Bus(flat('S', ['b'], 'in_bb_')))])),
                    ('an empty nested bus', Bus([('b', Bus([])), ('x', S('S', 'in_x'))]))):
        out.append((name, b, mirror(b, 'out_', False)))
        if len(b.entries) > 1:
            out.append((name + ', outputs in another order', b, mirror(b, 'out_', True)))
    return out


def exclusions(b):
    ls = [l for l, x in b.leaves()]
    yield ()
    for l in ls[:4]:
        yield (l,)
    if len(ls) > 1:
        yield (ls[-1], ls[0])
        yield tuple(ls)
    nested = sorted({l[:i + 1] for l in ls for i, ch in enumerate(l) if ch == '.'})
    for n in nested:
        yield (n,)
    if nested:
        yield (ls[0], nested[-1])
        yield ('nothing', ls[-1])


def excluded(label, ex):
    return label in ex or any(label[:i + 1] in ex for i, ch in enumerate(label) if ch == '.')


def inits(b, ex):
    ls = [l for l, x in b.leaves() if not excluded(l, ex)]
    out = [l for l, x in b.leaves() if excluded(l, ex)]
    yield ()
    if ls:
        yield tuple(ls)
    if len(ls) > 1:
        yield (ls[0],)
        yield (ls[-1],)
    yield ('unknown',)
    if ls:
        yield tuple(ls) + ('zzz.unknown',)
    if out:
        yield (out[0],)


def build(said, ctx, P, cls, f, what, ib, ob, ex, iv):
    said.append('%r' % ib)
    m = Net(P, cls)
    m.parent = Parent()
    sigs = dict(ib.leaves())
    vals = {}
    for i, l in enumerate(iv):
        k = sigs[l].kind if l in sigs else 'S'
        vals[l] = Var(k, {'S': Fr(2 * i + 5, 7), 'I': 3 + i, 'B': True, 'A': Tab([Fr(i + 1), Fr(-1), Fr(1, 3)])}[k])
    ks = [k for k in ctx.ctors(cls, P) if k['params'] and 'Submodel' in k['params'][0]['ty'] and 'body' in k]
    if len(ks) != 1:
        raise Unknown('%d constructors' % len(ks))
    args = []
    for p in ks[0]['params']:
        args.append(m.parent if 'Submodel' in p['ty'] else dict(vals) if 'variant' in p['ty'] or 'LabelValue' in p['ty'] else Tab(ex) if 'string' in p['ty'] else None)
    if any(a is None for a in args):
        raise Unknown('constructor parameters')
    m.ctx = ctx
    r = m.invoke(ctx, ks[0], args)
    if r[0] == 'throw':
        raise Bad('the constructor raises an exception')
    if m.made:
        raise Bad('the constructor creates %s' % m.made)
    left = [l for l in iv if l not in sigs or excluded(l, ex)]
    try:
        r = m.invoke(ctx, f, [ib, ob])
    except Thrown as x:
        r = ('throw', x)
    debug = P.config == 'debug'
    if r[0] == 'throw' and not (debug and left):
        raise Bad('an exception is raised: %s' % (show(r[1]) if isinstance(r[1], T) else r[1]))
    if r[0] != 'throw' and debug and left:
        raise Bad('no exception although the initial values for %s were not used' % left)
    if r[0] != 'throw' and r[1] is not True:
        raise Bad('connect returns %r' % (r[1],))
    if m.connects != 1:
        raise Bad('the bus block itself is connected %d times' % m.connects)
    want = {l: x for l, x in sigs.items() if not excluded(l, ex)}
    outs = dict(ob.leaves())
    kept = [x for v in m.mem.values() if isinstance(v, (list, dict)) for x in (v.values() if isinstance(v, dict) else v)]
    found = {}
    for b in m.made:
        if len(b.links) != 1:
            raise Bad('%r is connected %d times' % (b, len(b.links)))
        i, o = b.links[0]
        if not (isinstance(i, Bus) and isinstance(o, Bus) and len(i.entries) == 1 and len(o.entries) == 1):
            raise Bad('%r is connected from %r to %r' % (b, i, o))
        i, o = i.entries[0][1], o.entries[0][1]
        ls = [l for l, x in sigs.items() if x is i]
        if len(ls) != 1:
            raise Bad('%r is connected from %r' % (b, i))
        l = ls[0]
        if l not in want:
            raise Bad('a block is created for the excluded label %s' % l)
        if l in found:
            raise Bad('two blocks are created for %s' % l)
        found[l] = b
        if o is not outs[l]:
            raise Bad('the block for %s is connected to %r' % (l, o))
        k = i.kind
        base = 'pooya::MemoryT' if what == 'memory' else 'pooya::PipeT'
        if not any(a == '%s<%s>' % (base, KIND[k]) or k == 'A' and a.startswith(base + '<Eigen::Array<double') for a in [b.cls] + list(P.ancestors(b.cls))):
            raise Bad('the block for %s, which is a %s, is a %s' % (l, KIND[k], b.cls))
        a = list(b.args)
        if what == 'memory':
            init = a.pop(0)
            w = vals[l].v if l in vals else {'S': 0, 'I': 0, 'B': False, 'A': Tab([0] * i.size)}[k]
            same = init == w if not isinstance(w, bool) else init is w or init == int(w)
            if not same:
                raise Bad('the memory for %s starts from %r, not from %r' % (l, init, w))
        ps = [x for x in (a[:1] if a else []) if x is not None] + b.parents
        if not ps or any(p is not m.parent for p in ps):
            raise Bad('the block for %s is put under %s' % (l, ps or 'no parent'))
        names = b.names[-1:] or a[1:2] or ['']
        if not isinstance(names[0], str):
            raise Unknown('the name of the block for %s: %r' % (l, names[0]))
        if valid(names[0]) != valid(l):
            raise Bad('the block for %s is named %r' % (l, names[0]))
        if not any(x is b for x in kept):
            raise Bad('the block for %s is not kept: it is destroyed at once' % l)
    if set(found) != set(want):
        raise Bad('no block for %s' % sorted(set(want) - set(found)))
    if what == 'memory' and iv:
        maps = [v for v in m.mem.values() if isinstance(v, dict)]
        if len(maps) == 1 and set(maps[0]) != set(left) and r[0] != 'throw':
            raise Bad('the initial values left are %s, not used are %s' % (sorted(maps[0]), left))
