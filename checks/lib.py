"""Shared part of the checks: obligations with three-valued verdicts, cached path sets, walks over events."""
import os, sys, time, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from engine import prog as PG, interp as IN, frontend as FE
from engine.terms import *
from engine.interp import Undecided, H, L, loc, sym, State, Interp, Loop, Ev
from engine.prog import strip, pointee, isref, short

Broken = FE.AnalysisBroken
this = mk('this')
VERIF = os.path.dirname(HERE)


class Maybe(Exception):
    """an obligation whose outcome is not understood"""


class Ctx:
    def __init__(self, prop, tier='quick'):
        self.prop, self.tier = prop, tier
        self.obl, self.viol, self.und = [], [], []
        self.functions, self.npaths, self.ncalls = set(), 0, 0
        self._runs = {}

    @property
    def R(self):
        return PG.load('release')

    @property
    def D(self):
        return PG.load('debug')

    # ---- verdicts
    def hold(self, what, where=''):
        self.obl.append((what, where))

    def violate(self, what, where='', detail=''):
        self.obl.append((what, where))
        self.viol.append(dict(what=what, where=where, detail=str(detail)[:6000]))

    def undecided(self, what, where='', why=''):
        self.obl.append((what, where))
        self.und.append(dict(what=what, where=where, why=str(why)[:1500]))

    def check(self, what, where, verdict, detail='', paths=()):
        """verdict: True / False / None; a negative verdict that rests on something not understood is undecided"""
        if verdict is None:
            self.undecided(what, where, detail)
        elif verdict:
            self.hold(what, where)
        else:
            u = [u for p in paths for u in getattr(p, 'unk', [])]
            if u:
                self.undecided(what, where, 'not understood: %s; %s' % (u[0], detail))
            else:
                self.violate(what, where, detail)
        return verdict

    def each(self, what, where, fn, *a):
        """run one obligation; anything not understood makes it undecided"""
        try:
            return fn(*a)
        except Broken:
            raise
        except (Undecided, Maybe, RecursionError) as x:
            self.undecided(what, where, '%s: %s' % (type(x).__name__, x))
        except Exception as x:
            import traceback
            self.undecided(what, where, 'internal: %s' % traceback.format_exc()[-1500:])
        return None

    # ---- program access
    def cls(self, name, P=None):
        P = P or self.R
        if name not in P.recs:
            raise Broken('class %s not found' % name)
        return name

    def classes(self, template, P=None):
        P = P or self.R
        return sorted(n for n, r in P.recs.items() if r['ct'] == template and r.get('complete', True))

    def method(self, cls, name, P=None, np=None, own=False, params=None):
        """the function a call of cls::name reaches (searching base classes), or None"""
        P = P or self.R
        for c in ([cls] if own else P.ancestors(cls)):
            ms = [m for m in P.methods.get(c, []) if m['n'] == name and (np is None or len(m['params']) == np)]
            if params is not None:
                ms = [m for m in ms if [strip(p['ty']) for p in m['params']] == params]
            ms = [m for m in ms if 'body' in m]
            if ms:
                return ms[0]
        return None

    def need(self, cls, name, P=None, np=None, own=False, params=None):
        m = self.method(cls, name, P, np, own, params)
        if m is None:
            raise Broken('no definition of %s::%s' % (cls, name))
        return m

    def fn(self, q, P=None, np=None):
        P = P or self.R
        fs = [f for f in P.fns.values() if f['q'] == q and 'body' in f and (np is None or len(f['params']) == np)]
        if not fs:
            raise Broken('no definition of %s' % q)
        return fs[0]

    def ctors(self, cls, P=None):
        P = P or self.R
        out = []
        for m in P.methods.get(cls, []):
            if m.get('isctor') and 'body' in m and not m.get('deleted'):
                ps = [strip(p['ty']) for p in m['params']]
                if ps == [cls] and len(ps) == 1:
                    continue
                out.append(m)
        return out

    def interp(self, P, cls, **kw):
        I = Interp(P, cls, **kw)
        return I

    def runs(self, f, cls=None, P=None, st0=None, args=None, I=None, **kw):
        P = P or self.R
        if I is None:
            I = Interp(P, cls or f.get('cls'), **kw)
        outs = I.run(f['id'], st0=st0, args=args)
        self.note(I, outs)
        return I, outs

    def note(self, I, outs):
        self.functions |= I.functions
        self.ncalls += I.callsites
        self.npaths += len(outs)

    def where(self, f, P=None):
        return '%s:%s %s' % (short(f.get('file') or '?'), f.get('l'), f['q'])


def walk(events, loops=()):
    """all events of a path, loops entered: (event, enclosing loops, iteration path)"""
    for e in events:
        yield e, loops
        if e.kind == 'loop':
            for o in e.x.outs:
                yield from walk(o.events, loops + ((e.x, o),))


def evs(out, kinds):
    return [(e, l) for e, l in walk(out.events) if e.kind in kinds]


def top(out, kinds):
    return [e for e in out.events if e.kind in kinds]


def flat(out):
    """the events of a path with the events of the taken exit iteration of searching loops"""
    return [e for e in out.events]


def cell(out, root, I=None):
    v = out.cells.get(root)
    return v


def field(out, name):
    return out.cells.get(H(this, name))


def showout(o):
    s = repr(o)
    s += '\n   state: ' + '; '.join('%s := %s' % (show(r), show(v)) for r, v in o.cells.items() if r.op == 'H' and r.args[0].op in ('this', 'new'))
    return s[:5000]


# ---------------------------------------------------------------- connected blocks
def connect_summary(I, p, locs, f):
    """what Block::connect does (C06 checks the real one against this)"""
    st = I.st
    ib, ob = I.argval(locs[0]), I.argval(locs[1])
    I.event('call', 'Block::connect', (p, ib, ob))
    if not I.branch(mk('connects', p, ib, ob)):
        return FALSE
    st.cells[H(p, '@ibus')] = ib
    st.cells[H(p, '@obus')] = ob
    st.cells[H(p, '@connected')] = TRUE
    return TRUE


def lnk(sig):
    return mk('Lnk', sig)


def role0(sig):
    return mk('role0', sig)


def rolerec(I, sig):
    v = I.st.cells.get(lnk(sig))
    return v if v is not None else rec({'first': sig, 'second': role0(sig)})


def link_summary(I, p, locs, f):
    """what Block::link_signal does: accumulate role bits of a value signal"""
    sig = I.argval(locs[0])
    bits = I.argval(locs[1])
    if not I.branch(mk('isa', sig, 'pooya::ValueSignalImpl')):
        return VOID
    I.event('link', 'link_signal', (p, sig, bits))
    r = rolerec(I, sig)
    old = fld(r, 'second')
    I.st.cells[lnk(sig)] = updf(r, 'second', I.bitop('|', old, bits))
    return VOID


def find_summary(I, p, locs, f):
    """what Block::find_linked_signal does: the entry of a linked signal, or null"""
    sig = I.argval(locs[0])
    if lnk(sig) not in I.st.cells:
        if not I.branch(mk('linked', sig)):
            return NULL
        I.st.cells[lnk(sig)] = rolerec(I, sig)
    return mk('addr', loc(lnk(sig)))


def bitval(t, role):
    """the bits of a role term, given the initial role of a signal"""
    if t.op == 'num':
        return int(numval(t))
    if t.op == 'role0':
        return role(t.args[0])
    if t.op == 'bits':
        b = bitval(t.args[0], role)
        return None if b is None else ((b & t.args[1]) if t.args[1] != -1 else b) | t.args[2]
    if t.op == 'bitop' and t.args[0] in ('|', '&'):
        a, b = bitval(t.args[1], role), bitval(t.args[2], role)
        return None if a is None or b is None else (a | b if t.args[0] == '|' else a & b)
    return None


IBUS, OBUS = sym('ibus'), sym('obus')


def ibus_at(i):
    return fld(at(mk('ld', H(IBUS, '@signals')), i if isinstance(i, T) else num(i)), 'second')


def obus_at(i):
    return fld(at(mk('ld', H(OBUS, '@signals')), i if isinstance(i, T) else num(i)), 'second')


def ibus_named(s):
    return mk('busat', IBUS, string(s))


def constructed(ctx, cls, ctor, P=None, **kw):
    """paths of one constructor, without a parent"""
    P = P or ctx.R
    I = Interp(P, cls, **kw)
    I.hooks['pooya::Block::connect'] = connect_summary
    I.hooks['pooya::Block::link_signal'] = link_summary
    I.hooks['pooya::Block::find_linked_signal'] = find_summary
    st = State()
    a = [NULL if pointee(p['ty']) == 'pooya::Submodel' else None for p in ctor['params']]
    base(I, st, cls)
    outs = I.run(ctor['id'], st0=st, args=a)
    ctx.note(I, outs)
    return I, outs


def connect_method(P, cls):
    for c in P.ancestors(cls):
        ms = [m for m in P.methods.get(c, []) if m['n'] == 'connect' and 'body' in m and len(m['params']) == 2]
        if ms:
            return ms[0]
    raise Broken('no connect for ' + cls)


def after(I, o, keep=None):
    """a fresh state that starts where path o ended"""
    s2 = State()
    s2.cells = {r: v for r, v in o.cells.items() if r.op in ('H', 'Lnk') and (keep is None or keep(r))}
    s2.pc = o.st.pc.copy()
    s2.nev, s2.nnew, s2.nframe = o.st.nev + 100, o.st.nnew + 100, o.st.nframe + 100
    s2.epoch = mk('ep', 'start%d' % s2.nev)
    return s2


def connected(ctx, cls, ctor, P=None, **kw):
    """paths of: construct an object of class cls (without a parent), then connect it to buses `ibus`, `obus`"""
    P = P or ctx.R
    I, outs = constructed(ctx, cls, ctor, P, **kw)
    m = connect_method(P, cls)
    res = []
    for o in outs:
        if o.kind == 'throw':
            continue
        s2 = after(I, o)
        for b in (IBUS, OBUS):
            I.facts.ty[b] = 'pooya::Bus'
            I.facts.nonnulls.add(b)
        if m['q'] == 'pooya::Block::connect':
            x = baseconnect(I, s2)
            x.ctor = o
            res.append(x)
            continue
        o2 = I.run(m['id'], st0=s2, args=[IBUS, OBUS])
        ctx.note(I, o2)
        for x in o2:
            x.ctor = o
            res.append(x)
    return I, m, res


def baseconnect(I, st):
    """the successful path of Block::connect itself, by its summary"""
    st.pc.assume(mk('connects', this, IBUS, OBUS), True, I.facts)
    for n, v in (('@ibus', IBUS), ('@obus', OBUS), ('@connected', TRUE)):
        st.cells[H(this, n)] = v
    return IN.Out('return', TRUE, st.pc.literals(), [], st.cells, st)


def good(outs):
    """the paths on which connecting succeeded"""
    return [o for o in outs if o.kind == 'return' and o.val is TRUE and mk('connects', this, IBUS, OBUS) in o.conds]


def phase(ctx, cls, name, P=None, forget=True, ctors=None, **kw):
    """paths of a method of a connected block at any later time: fields set by construction and connect and by no other
    method keep their values, every other field is arbitrary"""
    P = P or ctx.R
    res = []
    m = ctx.method(cls, name, P, np=1)
    if m is None:
        raise Broken('no %s in %s' % (name, cls))
    wf = written_fields(ctx, P, cls) if forget else set()
    for c in ctors or ctx.ctors(cls, P):
        I, cm, outs = connected(ctx, cls, c, P, **kw)
        starts = {}
        for o in good(outs):
            k = lambda r: r.op == 'H' and r.args[0] is this and r.args[1] not in wf and r.args[1] not in ('@linked_signals', '@processed')
            s2 = after(I, o, k)
            starts.setdefault(tuple(sorted((r.key, v.key) for r, v in s2.cells.items())) + tuple(sorted(t.key for t in o.st.pc.lits if t.op == 'isa')), (s2, o))
        for s2, o in starts.values():
            s2.pc.log = []
            o2 = I.run(m['id'], st0=s2, args=[sym('t')])
            ctx.note(I, o2)
            for x in o2:
                x.connect = o
                x.start = s2
                x.I = I
            res += o2
    return m, res


def base(I, st, cls):
    """default member initialisers of an object under construction"""
    d = I.prog
    I.st = st
    for c, f in d.all_fields(cls):
        n = d.canon(c, f['f'])
        root = H(this, n)
        ty = strip(f['ty'])
        if f.get('init') is not None:
            I.stack = [IN.Frame(0, {}, this, dict(id='init', q=cls, n='init', rt='', params=[]), None)]
            try:
                st.cells[root] = I.initval(f['init'], f['ty'])
            finally:
                I.stack = []
        elif ty.startswith(('std::vector', 'std::map', 'std::unordered', 'std::list', 'std::deque')):
            st.cells[root] = EMPTY


def written_fields(ctx, P, cls):
    """names of the fields of `this` that some method other than constructors and connect changes (base bookkeeping included)"""
    key = (P.config, cls)
    cache = ctx.__dict__.setdefault('_wf', {})
    if key in cache:
        return cache[key]
    out = {'@processed', '@parent', '@linked_signals', '@name'}
    for c in P.ancestors(cls):
        if c in ('pooya::Block', 'pooya::Leaf', 'pooya::NamedObject', 'pooya::Submodel'):
            continue
        for m in P.methods.get(c, []):
            if m.get('isctor') or m['n'] in ('connect',) or m['n'].startswith('~') or 'body' not in m or m.get('static'):
                continue
            I = Interp(P, cls)
            I.hooks['pooya::Block::link_signal'] = link_summary
            I.hooks['pooya::Block::find_linked_signal'] = find_summary
            for o in I.run(m['id']):
                for r, v in o.cells.items():
                    if r.op == 'H' and r.args[0] is this and v is not mk('ld', r):
                        out.add(r.args[1])
    cache[key] = out
    return out


def fieldof(e):
    while isinstance(e, dict):
        k = e.get('k')
        if k == 'mem':
            if e['base'].get('k') == 'this':
                return e['rec'], e['f']
            e = e['base']
        elif k == 'idx':
            e = e.get('a') or e.get('base')
        elif k == 'cast':
            e = e.get('e')
        elif k == 'call' and e.get('obj') is not None:
            e = e['obj']
        elif k == 'un':
            e = e.get('e')
        else:
            return None
    return None




# ---------------------------------------------------------------- sequences of phases
class Step:
    """where a sequence of phases of one block stands: a start state, what happened so far"""

    def __init__(self, I, st, outs=(), conds=()):
        self.I, self.st, self.outs, self.conds = I, st, tuple(outs), tuple(conds)


def oldread(t):
    return t.op == 'ld' and t.args[0].op == 'H' and t.args[0].args[1] in ('@value', '@assigned') and t.args[0].args[0] is not this


def freeze(I, st, tag):
    """give the signal values seen so far names of their own: the next evaluation starts from cleared signals"""
    m = {}

    def scan(t):
        for s in subterms(t):
            if oldread(s) and s not in m:
                f = s.args[0]
                n = sym('%s(%s)%s' % ('val' if f.args[1] == '@value' else 'asg', show(f.args[0]), tag))
                m[s] = n
                if s in I.facts.ty:
                    I.facts.ty[n] = I.facts.ty[s]
    for v in st.cells.values():
        scan(v)
    for t in list(st.pc.lits) + list(st.pc.iv):
        scan(t)
    if m:
        st.cells = {r: subst(v, m) for r, v in st.cells.items()}
        st.pc.lits = {subst(t, m): v for t, v in st.pc.lits.items()}
        st.pc.iv = {subst(t, m): v for t, v in st.pc.iv.items()}
    st.pc.log = []
    return m


def begin(ctx, cls, ctor, arbitrary, P=None, **kw):
    """start states of a connected block: as constructed, or after any history"""
    P = P or ctx.R
    I, cm, outs = connected(ctx, cls, ctor, P, **kw)
    wf = written_fields(ctx, P, cls) if arbitrary else ()
    res = {}
    for o in good(outs):
        k = lambda r: r.op == 'H' and r.args[0] is this and r.args[1] not in wf and r.args[1] not in ('@linked_signals', '@processed')
        s2 = after(I, o, k)
        freeze(I, s2, '@0')
        res.setdefault(tuple(sorted((r.key, v.key) for r, v in s2.cells.items())), Step(I, s2))
    return list(res.values())


def advance(ctx, cls, steps, name, t, tag, P=None):
    """run one phase from each of the given states"""
    P = P or ctx.R
    m = ctx.method(cls, name, P, np=1)
    if m is None:
        raise Broken('no %s in %s' % (name, cls))
    res = []
    for s in steps:
        s0 = State()
        s0.cells = dict(s.st.cells)
        s0.pc = s.st.pc.copy()
        s0.nev, s0.nnew, s0.nframe, s0.epoch = s.st.nev, s.st.nnew, s.st.nframe, s.st.epoch
        outs = s.I.run(m['id'], st0=s0, args=[t])
        ctx.note(s.I, outs)
        for o in outs:
            o.start, o.I = s.st, s.I
            o.m = m
            n = after(s.I, o, lambda r: r.op == 'H' and r.args[0] is this)
            o.pcend = o.st.pc.copy()
            mm = freeze(s.I, n, tag)
            o.names = mm
            res.append(Step(s.I, n, [subst_out(x, mm) for x in s.outs] + [o], list(s.conds) + list(o.conds)))
    return res


def subst_out(o, mm):
    return o


def isa_exclusive(o):
    return o
