"""C05: bus lookup finds exactly the labelled signal, at any nesting depth"""
import itertools
from sigs import *
from words import *

RULE = """Construction and every lookup of a bus are summarised path by path (both build modes).  The extracted summaries are followed on model buses - nested three deep, with empty
buses, duplicate labels, labels that are prefixes of others, the same signal under several labels - for every label composed of up to four parts of the model's alphabet (present,
absent, empty), and for every index up to one past the end; recursive calls are followed on the nested bus.  The outcome must be the first entry under the label, one part at a time; an
exception (throwing lookups) or an empty result (try_at) otherwise.  Construction is followed for all lists of up to three signals, named and unnamed, repeated and not, and for a list
of twelve: entries in the given order, labels valid, unnamed signals take the label, named ones keep their name."""
ASSUME = ['lookups are uniform: a summary that is right on the models is right on larger buses', 'text is made valid as C04 decides']
BI = 'pooya::BusImpl'


class Model(Words):
    """buses: {object: [(label, object)]}"""

    lookup = plain = None
    depth = 0

    def __init__(self, buses, given=None, names=None):
        Words.__init__(self, given or {})
        self.real = {}
        self.buses = buses
        self.names = dict(names or {})
        for o, entries in buses.items():
            S = mk('ld', H(o, '@signals'))
            self.lens[S] = len(entries)
            for i, (l, x) in enumerate(entries):
                self.alias[fld(at(S, num(i)), 'first')] = mk('lst', chars(l))
                self.alias[fld(at(S, num(i)), 'second')] = x

    def value(self, t):
        if t.op == 'isa':
            o = self.obj(t.args[0])
            if o is not None:
                if t.args[1] == BI:
                    return o in self.buses
                if t.args[1] in VALUE or t.args[1] == VP:
                    return False if o in self.buses else None
        if t.op == 'same':
            a, b = self.obj(t.args[0]), self.obj(t.args[1])
            if NULL in (a, b) and (a is None or b is None):
                raise Unknown(show(t))
            if a is not None and b is not None:
                return a is b
        if t.op == 'same':
            a, b = self.norm(t.args[0]), self.norm(t.args[1])
            if a.op == b.op == 'it' and a.args[0] is b.args[0]:
                return self.number(a.args[1]) == self.number(b.args[1])
        if t.op == 'hasval':
            x = self.norm(t.args[0])
            if x.op == 'ret':
                return self.inner(x)[0] == 'value'
            if x.op in ('some', 'none'):
                return x.op == 'some'
        r = Words.value(self, t)
        if r is None:
            raise Unknown(show(t))
        return r

    def norm(self, t):
        x = Words.norm(self, t)
        # what an iterator refers to
        m = {s: at(mk('ld', s.args[0].args[0].args[0].args[0]), s.args[0].args[0].args[1]) for s in subterms(x)
             if s.op == 'ld' and s.args[0].op == 'D' and s.args[0].args[0].op == 'it' and not s.args[0].args[0].args[0].args[1]}
        return Words.norm(self, subst(x, m)) if m else x

    def inner(self, t):
        """the outcome of a recursive call"""
        if self.lookup is None or len(t.args[1]) < 2:
            raise Unknown(show(t))
        o = self.obj(t.args[1][0])
        if o not in self.buses:
            raise Unknown('%s of %s' % (t.args[0], show(t.args[1][0])))
        return self.lookup.text(BI, self.lookup.byname(t.args[0]), self.plain, self.real.get(o, o), self.text(t.args[1][1]), self.depth + 1)

    def obj(self, t):
        x = self.norm(t)
        if x.op == 'optval' and x.args[0].op in ('some', 'lst'):
            x = x.args[0].args[0]
        if x.op == 'optval' and x.args[0].op == 'ret':
            r = self.inner(x.args[0])
            if r[0] != 'value':
                raise Unknown('no value in %s' % show(x))
            return r[1]
        while x.op == 'D' or x.op == 'ld' and x.args[0].op == 'D' and x not in self.buses:
            x = x.args[0]
        if x is NULL or x in self.buses or (x.op == 'sym' and x.args[0].startswith('signal ')):
            return x
        return None

    def seq(self, v):
        if v.op == 'app' and v.args[0] == 'emend':
            return list(chars(valid(self.text(v.args[1]))))
        if v.op == 'ld' and v.args[0].op == 'H' and v.args[0].args[1] == '@name':
            o = self.obj(v.args[0].args[0])
            if o is not None and o in self.names:
                return list(chars(self.names[o]))
        s = Words.seq(self, v)
        if s is None and v.op in ('fld', 'at', 'ld'):
            x = self.norm(v)
            if x is not v:
                return self.seq(x)
        return s

    # names change while a constructor runs
    def save(self):
        return Words.save(self) + (dict(self.names),)

    def restore(self, s):
        Words.restore(self, s)
        self.names = dict(s[8])

    def take(self, outs):
        """conditions speak of the state before the events of the path"""
        hits = []
        s0 = self.save()
        for o in outs:
            ok, unk = True, None
            self.restore(s0)
            try:
                late = self.quiet(o)
            except Stuck:
                continue
            for c in o.conds:
                if c.op in ('lexit', 'loopset') or any(s.op in ('kend', 'mufin') and s not in self.bind for s in subterms(c)):
                    continue
                try:
                    if not self.val(c):
                        ok = False
                        break
                except Unknown as x:
                    unk = unk or x
            if ok and unk:
                raise unk
            if ok:
                hits.append((o, self.save()))
        if not hits:
            self.restore(s0)
            raise Stuck()
        if len(hits) == 1:
            self.restore(hits[0][1])
            self.run(hits[0][0].events)
            return [hits[0][0]]
        self.restore(s0)
        return Words.take(self, [h[0] for h in hits])

    def quiet(self, o):
        """loops that only compute"""
        if not o.st.loops:
            return
        ts = list(o.conds) + ([o.val] if isinstance(o.val, T) else []) + list(o.cells.values())
        need = {s.args[0] for t in ts for s in subterms(t) if s.op in ('kend', 'mufin')}
        shown = {e.x.uid for e in o.events if e.kind == 'loop'}
        for uid, lp in o.st.loops.items():
            if uid in need and uid not in shown:
                self.loop(lp)

    def run(self, events):
        for e in events:
            if e.kind == 'fset' and e.name == '@name':
                o = self.obj(e.args[0])
                if o is None:
                    raise Unknown('whose name? %s' % show(e.args[0]))
                self.names[o] = self.text(e.args[1])
                self.touch()
            elif e.kind == 'loop':
                self.loop(e.x)

    def loop(self, lp):
        kind, os_ = self.iterate(lp)
        if kind != lp.exit[0] or (kind != 'exhaust' and not any(x in os_ for x in lp.group)):
            raise Stuck()


def sg(n):
    return sym('signal ' + n)


def network():
    b2, b3, b4 = sym('bus 2'), sym('bus 3'), sym('bus empty')
    root = sym('root')
    return root, {
        root: [('a', sg('1')), ('b', b2), ('a', sg('3')), ('ab', sg('4')), ('e', b4), ('b', b3)],
        b2: [('b', sg('5')), ('a', sg('6')), ('c', b3), ('a', b3), ('a_b', sg('7'))],
        b3: [('a', sg('8')), ('b', b4), ('d', sg('9')), ('', sg('10')), ('', sg('11'))],
        b4: [],
    }


def labels():
    parts = ['a', 'b', 'c', 'x', '', 'ab', 'e', 'd']
    out = []
    for n in (1, 2, 3):
        for p in itertools.product(parts if n < 3 else ['a', 'b', 'c', 'x', 'd', ''], repeat=n):
            out.append('.'.join(p))
    return list(dict.fromkeys(out + ['b.c.b.a', 'b.c.a.a', 'b.c.a', 'a_b', 'b.a_b', 'A', '.', 'a.', '.a', 'b..a', 'a b']))


def find(buses, b, label):
    """what the property asks for"""
    head, dot, rest = label.partition('.')
    for l, o in buses[b]:
        if l == head:
            if not dot:
                return o
            return find(buses, o, rest) if o in buses else None
    return None


class Lookup:
    def __init__(self, ctx, P):
        self.ctx, self.P, self.sums = ctx, P, {}

    def outs(self, cls, f):
        k = f['id']
        if k not in self.sums:
            I = Interp(self.P, cls)
            o = I.run(f['id'])
            self.ctx.note(I, o)
            self.sums[k] = o
        return self.sums[k]

    def byname(self, n):
        fs = [f for f in self.P.methods.get(BI, []) if f['n'] == n and 'body' in f and len(f['params']) == 1 and strip(f['params'][0]['ty']).startswith('std::basic_string')]
        if len(fs) != 1:
            raise Unknown('recursion into %s' % n)
        return fs[0]

    def text(self, cls, f, buses, b, label, depth=0):
        """('value', object) / ('throw',) / ('none',)"""
        if depth > 8:
            raise Endless()
        p = f['params'][0]['n']
        m = Model(self.at(cls, buses, b), {sym(p): label})
        m.lookup, m.plain, m.depth = self, buses, depth
        m.real[self.root(cls)] = b
        o = m.start(self.outs(cls, f))
        return self.result(m, o, buses, depth)

    def at(self, cls, buses, b):
        d = dict(buses)
        d[self.root(cls)] = buses[b]
        return d

    def root(self, cls):
        return this if cls == BI else mk('ld', mk('D', this))

    def result(self, m, o, buses, depth):
        got = {}
        for e, lo in walk(o.events):
            if e.kind == 'rec':
                nb = m.obj(e.args[0])
                if nb not in m.buses:
                    raise Unknown('recursion into %s' % show(e.args[0]))
                r = self.text(BI, self.byname(e.name), buses, m.real.get(nb, nb), m.text(e.args[1]), depth + 1)
                if r[0] == 'throw':
                    return r
                got[e.name] = r
        if o.kind == 'throw':
            return ('throw',)
        if o.kind != 'return':
            raise Unknown(o.kind)
        v = o.val
        if v.op == 'ret' and v.args[0] in got:
            return got[v.args[0]]
        if v.op == 'none':
            return ('none',)
        if v.op == 'some':
            v = v.args[0]
            if v.op == 'ret' and v.args[0] in got:
                return got[v.args[0]]
        x = m.obj(v)
        if x is None:
            raise Unknown('result %s' % show(v)[:300])
        return ('value', x)

    def index(self, cls, f, buses, b, i):
        p = f['params'][0]['n']
        m = Model(self.at(cls, buses, b))
        m.bind[sym(p)] = num(i)
        o = m.start(self.outs(cls, f))
        return self.result(m, o, buses, 0)


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(BI, P)
        L_ = Lookup(ctx, P)
        found = set()
        for cls in (BI, 'pooya::Bus'):
            for f in P.methods.get(cls, []):
                if 'body' not in f or len(f['params']) != 1 or f['n'] not in ('at', 'try_at', 'operator[]'):
                    continue
                t = strip(f['params'][0]['ty'])
                if t.startswith('std::basic_string'):
                    ctx.each('lookup by label: %s::%s (%s)' % (short(cls), f['n'], P.config), ctx.where(f), bylabel, ctx, P, L_, cls, f)
                    found.add((cls, f['n'], 'label'))
                elif t in PG.INTS:
                    ctx.each('lookup by index: %s::%s (%s)' % (short(cls), f['n'], P.config), ctx.where(f), byindex, ctx, P, L_, cls, f)
                    found.add((cls, f['n'], 'index'))
        for need in [(BI, 'at', 'label'), (BI, 'try_at', 'label'), (BI, 'operator[]', 'label'), (BI, 'at', 'index'), (BI, 'operator[]', 'index'),
                     ('pooya::Bus', 'at', 'label'), ('pooya::Bus', 'operator[]', 'label'), ('pooya::Bus', 'at', 'index'), ('pooya::Bus', 'operator[]', 'index')]:
            if need not in found:
                raise Broken('no %s::%s by %s' % need)
        for cls in (BI, 'pooya::Bus'):
            f = ctx.need(cls, 'size', P, np=0, own=True)
            ctx.each('size (%s)' % P.config, ctx.where(f), sizes, ctx, P, L_, cls, f)
            for n in ('begin', 'end'):
                f = ctx.need(cls, n, P, np=0, own=True)
                ctx.each('%s (%s)' % (n, P.config), ctx.where(f), ends, ctx, P, L_, cls, f)
        ks = [k for k in P.methods.get(BI, []) if k.get('isctor') and 'body' in k and any('initializer_list' in p['ty'] for p in k['params'])]
        if len(ks) < 2:
            raise Broken('bus constructors not found')
        for k in ks:
            ctx.each('construction (%s)' % P.config, ctx.where(k), construct, ctx, P, k)
        for f in [f for f in P.methods.get(BI, []) if f['n'] == 'create_new' and 'body' in f] + [f for f in P.methods.get('pooya::Bus', []) if f.get('isctor') and 'body' in f]:
            if any('initializer_list' in p['ty'] for p in f['params']):
                ctx.each('what a bus is made of (%s)' % P.config, ctx.where(f), passed, ctx, P, f)


def bylabel(ctx, P, L_, cls, f):
    w = ctx.where(f)
    what = '%s::%s finds exactly the labelled signal (%s)' % (short(cls), f['n'], P.config)
    root, buses = network()
    outs = L_.outs(cls, f)
    for lab in labels():
        for b in (root, sym('bus 3')) if len(lab) < 4 else (root,):
            exp = find(buses, b, lab)
            try:
                r = L_.text(cls, f, buses, b, lab)
            except (Unknown, Stuck, Endless) as x:
                ctx.undecided(what, w, 'label %r: %s %s' % (lab, type(x).__name__, str(x)[:400]))
                return
            want = ('value', exp) if exp is not None else ('none',) if f['n'] == 'try_at' else ('throw',)
            if r != want:
                ctx.check(what, w, False, 'looking up %r among %s gives %s, expected %s' % (lab, [l for l, _ in buses[b]], say(r), say(want)), outs)
                return
    ctx.hold(what, w)


def say(r):
    return ' '.join(x if isinstance(x, str) else show(x) for x in r)


def byindex(ctx, P, L_, cls, f):
    w = ctx.where(f)
    what = '%s::%s yields the signal at the index (%s)' % (short(cls), f['n'], P.config)
    root, buses = network()
    I = interp(P, cls)
    # the range check is part of the plain code
    throws = f['n'] == 'at' or P.config == 'debug'
    for b in (root, sym('bus 3'), sym('bus empty')):
        n = len(buses[b])
        for i in range(n):
            try:
                r = L_.index(cls, f, buses, b, i)
            except (Unknown, Stuck, Endless) as x:
                ctx.undecided(what, w, 'index %d of %d: %s %s' % (i, n, type(x).__name__, str(x)[:400]))
                return
            want = ('value', buses[b][i][1])
            if r != want:
                ctx.check(what, w, False, 'index %d of %d entries gives %s, expected %s' % (i, n, say(r), say(want)), L_.outs(cls, f))
                return
    ctx.hold(what, w)
    if throws:
        st = State()
        outs = I.run(f['id'], st0=st)
        ctx.note(I, outs)
        # plain code: some path leaves by exception exactly when the index is not below the size
        p = sym(f['params'][0]['n'])
        what = '%s::%s reports an index out of range (%s)' % (short(cls), f['n'], P.config)
        sizes_ = {s for o in outs for c in o.conds for s in subterms(c) if s.op == 'size'}
        if not sizes_ and all(o.kind == 'return' and not o.conds for o in outs):
            ctx.check(what, w, False, 'the index is never compared with the number of entries', outs)
            return
        if len(sizes_) != 1:
            ctx.undecided(what, w, 'sizes %s' % [show(s) for s in sizes_])
            return
        s = list(sizes_)[0]
        for n in range(3):
            for i in range(4):
                W = World(lambda t, n=n, i=i: Fr(n) if t is s else Fr(i) if t is p else None, {s.args[0]: n})
                ps, unk = taken(outs, W)
                if unk or len(ps) != 1:
                    ctx.undecided(what, w, 'paths')
                    return
                if (ps[0].kind == 'throw') != (i >= n):
                    ctx.check(what, w, False, 'index %d of %d entries: %s' % (i, n, ps[0].kind), ps)
                    return
        ctx.hold(what, w)


def sizes(ctx, P, L_, cls, f):
    w = ctx.where(f)
    root, buses = network()
    for b in buses:
        m = Model(L_.at(cls, buses, b))
        try:
            o = m.start(L_.outs(cls, f))
            r = m.number(o.val)
        except (Unknown, Stuck) as x:
            ctx.undecided('size of a bus', w, str(x))
            return
        if r != len(buses[b]):
            ctx.check('the size of a bus is its number of entries (%s)' % P.config, w, False, '%s entries: %s' % (len(buses[b]), r), [o])
            return
    ctx.hold('the size of a bus is its number of entries (%s)' % P.config, w)


def ends(ctx, P, L_, cls, f):
    w = ctx.where(f)
    root = this if cls == BI else mk('ld', mk('D', this))
    S = H(root, '@signals')
    for o in L_.outs(cls, f):
        v = o.val
        ok = None
        if o.kind == 'return' and v.op == 'it' and v.args[0].op == 'loc':
            ok = v.args[0].args[0] is S and not v.args[0].args[1]
            if ok:
                ok = equal(v.args[1], num(0) if f['n'] == 'begin' else mk('size', mk('ld', S)))
        ctx.check('%s() is the %s of the entries (%s)' % (f['n'], f['n'], P.config), w, ok, showout(o), [o])


def construct(ctx, P, k):
    w = ctx.where(k)
    lp = [p for p in k['params'] if 'initializer_list' in p['ty']][0]
    pair = 'std::pair<' in lp['ty']
    I = Interp(P, BI)
    outs = I.run(k['id'])
    ctx.note(I, outs)
    l = sym(lp['n'])
    what = 'a bus lists its signals in the given order under valid labels, and unnamed ones take their label (%s)' % P.config
    cases = []
    objs = [sg(str(i)) for i in range(12)]
    labs = ['x', 'a b', 'x', 'sig1', '']
    for n in range(4):
        for which in itertools.product(range(2) if n == 3 else range(n), repeat=n):
            for nm in itertools.product(('', 'own'), repeat=2):
                for start in range(2 if pair else 1):
                    cases.append(([objs[i] for i in which], [labs[(start + j) % 5] for j in range(n)], {objs[i]: (nm[i] if i < 2 else '') for i in range(12)}))
    cases.append((objs, ['l%d' % i for i in range(12)], {o: '' for o in objs}))
    cases.append((objs[:5], labs, {o: '' for o in objs}))
    for os_, ls, names in cases:
        m = Model({}, names=names)
        for p in k['params']:
            if strip(p['ty']).startswith('std::basic_string'):
                m.bind[sym(p['n'])] = mk('lst', chars('bus'))
        m.lens[l] = len(os_)
        for i, o in enumerate(os_):
            if pair:
                m.alias[fld(at(l, num(i)), 'first')] = mk('lst', chars(ls[i]))
                m.alias[fld(at(l, num(i)), 'second')] = o
            else:
                m.alias[at(l, num(i))] = o
        case = 'signals %s named %s%s' % ([show(x) for x in os_], [names[x] for x in os_], ' under %s' % ls if pair else '')
        try:
            o = m.start(outs)
            if o.kind != 'return':
                ctx.check(what, w, False, '%s: refused' % case, [o])
                return
            v = o.cells.get(H(this, '@signals'))
            s = m.seq(v) if v is not None else []
            if s is None:
                raise Unknown('entries: %s' % show(v)[:300])
            got = []
            for x in s:
                if x.op != 'rec':
                    raise Unknown('entry %s' % show(x)[:200])
                d = dict(x.args[0])
                ob = m.obj(d['second'])
                if ob is None:
                    raise Unknown('entry %s' % show(d['second'])[:200])
                got.append((m.text(d['first']), ob))
        except (Unknown, Stuck, Endless) as x:
            ctx.undecided(what, w, '%s: %s %s' % (case, type(x).__name__, str(x)[:400]))
            return
        exp, nn = [], dict(names)
        for i, ob in enumerate(os_):
            lab = valid(ls[i]) if pair else 'sig%d' % i
            exp.append((lab, ob))
            if not nn[ob]:
                nn[ob] = lab
        if got != exp:
            ctx.check(what, w, False, '%s: the entries are %s, expected %s' % (case, [(a, show(b)) for a, b in got], [(a, show(b)) for a, b in exp]), [o])
            return
        if m.names != nn:
            ctx.check(what, w, False, '%s: the names are then %s, expected %s' % (case, sorted((show(a), b) for a, b in m.names.items() if a in os_), sorted((show(a), b) for a, b in nn.items() if a in os_)), [o])
            return
    ctx.hold(what, w)


def passed(ctx, P, f):
    w = ctx.where(f)
    I = Interp(P, f.get('cls'))
    outs = I.run(f['id'])
    ctx.note(I, outs)
    l = sym([p for p in f['params'] if 'initializer_list' in p['ty']][0]['n'])
    nm = [sym(p['n']) for p in f['params'] if strip(p['ty']).startswith('std::basic_string')]
    for o in outs:
        mks = [e for e, lo in walk(o.events) if e.kind == 'make' and e.name == BI]
        if o.kind != 'return':
            ctx.check('a bus can be made from any list (%s)' % P.config, w, False, showout(o), [o])
            continue
        ok = None
        if len(mks) == 1:
            args = [now(a) for a in mks[0].args]
            if l in args and (not nm or nm[0] in args):
                ok = True
            elif any(a.op in ('sym', 'empty', 'seq', 'str') for a in args) and l not in args and not any(l in subterms(a) for a in args):
                ok = False
            elif nm and nm[0] not in args and not any(nm[0] in subterms(a) for a in args):
                ok = False
        elif not mks:
            ok = False
        ctx.check('a bus is made of exactly the given signals and name (%s)' % P.config, w, ok, showout(o), [o])
