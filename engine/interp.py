"""Path-sensitive abstract interpretation of the typed tree.

Values are hash-consed terms (value numbering); calls inside the library are inlined, calls that leave it (virtual calls on
other objects, user callbacks) are recorded as events; loops are summarised (induction variables, counted domains, folds,
first-match exits) instead of being unrolled.  Nothing is executed and no solver is used.
"""
import re
from fractions import Fraction as Fr
from .terms import *
from . import terms as TT
from .prog import strip, isref, pointee, targ, INTS, UINTS, short


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ExhaustEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ThrowEx(Exception):
    def __init__(self, what, where=None):
        self.what, self.where = what, where


class Ev:
    """an observable event on a path"""
    __slots__ = ('kind', 'name', 'args', 'ret', 'where', 'snap', 'pcn', 'fn', 'x', 'ep')

    def __init__(self, kind, name, args=(), ret=None, where=None, snap=None, pcn=0, fn=None, x=None):
        self.kind, self.name, self.args, self.ret, self.where, self.snap, self.pcn, self.fn, self.x = kind, name, tuple(args), ret, where, snap, pcn, fn, x
        self.ep = None          # the epoch after it, when it starts one

    def __repr__(self):
        if self.kind == 'loop':
            return repr(self.x)
        return '%s %s(%s)' % (self.kind, self.name, ', '.join(show(a) for a in self.args))


class Loop:
    """summary of a loop: outs = paths of one iteration"""

    def __init__(self, uid, kappa, n, outs, where, init, inds, solved, head=None):
        self.uid, self.kappa, self.n, self.outs, self.where, self.init, self.inds, self.solved, self.head = uid, kappa, n, outs, where, init, inds, solved, head
        self.visited = None
        self.exit = None      # the way this path left the loop: ('exhaust', None) or (kind, group)
        self.unk = []

    def __repr__(self):
        s = 'LOOP %s n=%s exit=%s {\n' % (self.uid, show(self.n) if self.n is not None else '?', self.exit and self.exit[0])
        for o in self.outs:
            s += '   | ' + repr(o).replace('\n', '\n   ') + '\n'
        return s + '}'


class Out:
    """one path: how it ended, what it assumed, what it did, what it left in memory"""

    def __init__(self, kind, val, conds, events, cells, st, where=None):
        self.kind, self.val, self.conds, self.events, self.cells, self.st, self.where = kind, val, conds, events, cells, st, where
        self.unk = list(st.unk)

    def __repr__(self):
        return '[%s] %s %s :: %s' % (' & '.join(show(c) for c in self.conds), self.kind, show(self.val) if isinstance(self.val, T) else self.val or '',
                                     '; '.join(repr(e) for e in self.events))


class State:
    def __init__(self):
        self.cells, self.events, self.pc, self.unk = {}, [], PC(), []
        self.epoch = mk('ep', '0')
        self.nev = self.nframe = self.nloop = self.nnew = 0
        self.declared = set()
        self.loops = {}

    def copy(self):
        s = State.__new__(State)
        s.cells, s.events, s.pc, s.unk = dict(self.cells), list(self.events), self.pc.copy(), list(self.unk)
        s.epoch, s.nev, s.nframe, s.nloop, s.nnew = self.epoch, self.nev, self.nframe, self.nloop, self.nnew
        s.declared = set(self.declared)
        s.loops = dict(self.loops)
        return s


class Frame:
    __slots__ = ('id', 'env', 'this', 'fn', 'rt', 'file')

    def __init__(self, id, env, this, fn, file):
        self.id, self.env, self.this, self.fn, self.file = id, env, this, fn, file


def loc(root, path=()):
    return mk('loc', root, path)


def L(fid, vid):
    return mk('L', fid, vid)


def H(p, f):
    return mk('H', p, f)


def sym(n):
    return mk('sym', n)


NUMTY = INTS | {'double', 'float', 'bool'}
VOLATILE = {'@value', '@assigned'}
STABLE_FOREIGN = {'@signals', '@size', '@deriv', '@name', '@parent', '@linked_signals', '@ibus', '@obus', '@connected'}
STABLE_CLASSES = ()
STREAMS_IGNORED = {'std::cout', 'std::cerr', 'std::clog', 'std::endl'}


class Facts:
    """type facts used to decide atoms"""

    def __init__(self, prog):
        self.prog = prog
        self.ty = {}
        self._int = {}

    def isint(self, q):
        r = self._int.get(q)
        if r is None:
            r = all((c * 1).denominator == 1 and all(self.intatom(a) and e > 0 for a, e in m) for m, c in poly(q).items())
            self._int[q] = r
        return r

    def intatom(self, a):
        if a.op in ('size', 'k', 'first', 'kend', 'b2i', 'bk', 'idiv', 'cols', 'count', 'trunc', 'bits'):
            return True
        if a.op == 'sum':
            return all(self.isint(x) for _, x in a.args[1])
        return self.ty.get(a) in INTS or self.ty.get(a) == 'bool'

    def nonneg(self, q):
        if q.op == 'poly':
            return all(c >= 0 and all(e > 0 and self.nonneg(a) for a, e in m) for m, c in q.args[0])
        if q.op == 'num':
            return numval(q) >= 0
        if q.op in ('size', 'k', 'first', 'kend', 'b2i', 'bk', 'cols', 'count', 'bits'):
            return True
        if q.op == 'sum':
            return all(self.nonneg(x) for _, x in q.args[1])
        if q.op == 'app' and q.args[0] in ('cwiseAbs', 'abs'):
            return True
        if q.op == 'app' and q.args[0] == 'maxCoeff':
            return self.nonneg(q.args[1])
        return self.ty.get(q) in UINTS

    def cls(self, p):
        t = self.ty.get(p)
        if not t:
            return None
        if t in self.prog.handles:
            return self.prog.handles[t]
        c = pointee(t)
        return c or t

    def implied(self, t, pc):
        if t.op == 'isa':
            p, c = t.args
            s = self.cls(p)
            if p.op == 'new':
                return self.prog.derives(p.args[1], c) if p.args[1] in self.prog.recs else None
            if s and self.prog.derives(s, c) and self.nonnull(p, pc):
                return True
            if s and s in self.prog.recs and c in self.prog.recs and not self.compatible(s, c):
                return False
            for a, v in pc.lits.items():
                if a.op == 'isa' and a.args[0] is p:
                    if v and self.prog.derives(a.args[1], c):
                        return True
                    if v and not self.compatible(a.args[1], c):
                        return False
                    if not v and self.prog.derives(c, a.args[1]):
                        return False
            return None
        if t.op == 'same':
            a, b = t.args
            if NULL in (a, b):
                p = b if a is NULL else a
                if self.nonnull(p, pc):
                    return False
            if any(isinstance(x, T) and x.op == 'new' for x in (a, b)):
                x, y = (a, b) if a.op == 'new' else (b, a)
                if y.op in ('this', 'sym', 'ld', 'new') and x is not y:
                    return False
            ca, cb = self.cls(a), self.cls(b)
            if ca and cb and ca in self.prog.recs and cb in self.prog.recs and not self.compatible(ca, cb):
                return False
        if t.op == 'ex':
            n = t.args[0]
            if pc.decide(cmpt(n, ZERO, LT | EQ), self) is True:
                return False
        return None

    def compatible(self, a, b):
        return any(self.prog.derives(d, b) for d in self.prog.derived(a))

    def nonnull(self, p, pc):
        if p.op in ('new', 'this', 'addr', 'lam'):
            return True
        if self.ty.get(p) in self.prog.handles or p in self.nonnulls:
            return True
        return any(a.op == 'isa' and a.args[0] is p and v for a, v in pc.lits.items())

    nonnulls = set()


BINDERS = {'sum', 'prod', 'ex', 'first', 'comp', 'scomp', 'ccomp', 'mcomp', 'mapped', 'nest'}


def binder(op, *args):
    """binder(op, ..., body, kappa): a term closed over an iteration variable; the last argument is the level of that variable"""
    *pre, body, kappa = args
    lvl = 0
    for s in subterms(body):
        if s.op == 'bk':
            lvl = max(lvl, s.args[0] + 1)
        elif s.op in BINDERS:
            lvl = max(lvl, s.args[-1] + 1)
    return mk(op, *pre, subst(body, {kappa: mk('bk', lvl)}), lvl)


class Interp:
    def __init__(self, prog, this_cls=None, raw=False, max_paths=3000, events_on_this=(), eval_trace=False, keep=(), noinline=(), nosolve=False):
        self.literals, self.scale = set(), {}     # numbers met in the source, numbers to take for them
        self.prog = prog
        self.facts = Facts(prog)
        self.facts.nonnulls = set()
        self.this_cls = this_cls
        self.raw = raw                     # signal primitives and handles analysed as plain code
        self.max_paths = max_paths
        self.events_on_this = set(events_on_this)
        self.nosolve = nosolve             # what eventful loops leave in memory is not summarised
        self.noinline = set(noinline)      # qualified names kept as events
        self.hooks = {}                    # qualified name -> summary used instead of the body
        self.eval_trace = eval_trace
        self.prefix, self.pos, self.nopts = [], 0, []
        self.ctx = ()
        self.loopcache = {}
        self.stack = []
        self.st = State()
        self.where = None
        self.functions = set()
        self.this = mk('this')
        if this_cls:
            self.facts.ty[self.this] = this_cls + ' *'
        self.loopstack = []
        self.callsites = 0

    # ------------------------------------------------------------ exploration
    def explore(self, thunk, st0, ctx):
        saved = (self.prefix, self.pos, self.nopts, self.st, self.ctx, list(self.stack), self.where)
        self.ctx = ctx
        outs, work = [], [[]]
        n0, e0 = len(st0.pc.log), len(st0.events)
        try:
            while work:
                pre = work.pop()
                self.prefix, self.pos, self.nopts = list(pre), 0, []
                self.st = st0.copy()
                self.stack = list(saved[5])
                kind, val = 'ok', None
                try:
                    val = thunk()
                except ReturnEx as x:
                    kind, val = 'return', x.v
                except BreakEx:
                    kind = 'break'
                except ExhaustEx:
                    kind = 'exhaust'
                except ContinueEx:
                    kind = 'ok'
                except ThrowEx as x:
                    kind, val = 'throw', x
                except Infeasible:
                    kind = None
                for i in range(len(pre), len(self.prefix)):
                    for alt in range(self.nopts[i] - 1, 0, -1):
                        work.append(self.prefix[:i] + [alt])
                if kind:
                    st = self.st
                    outs.append(Out(kind, val, st.pc.literals()[n0:], st.events[e0:], st.cells, st, self.where))
                if len(outs) + len(work) > self.max_paths:
                    raise Undecided('more than %d paths' % self.max_paths)
        finally:
            self.prefix, self.pos, self.nopts, self.st, self.ctx, self.stack, self.where = saved
        return outs

    def choose(self, n):
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
            self.prefix.append(0)
        self.nopts.append(n)
        self.pos += 1
        return c

    def branch(self, t):
        """decide a truth value, splitting the path when it is not known"""
        t = self.truth(t)
        d = self.st.pc.decide(t, self.facts)
        if d is not None:
            return d
        if t.op == 'and':
            return all(self.branch(x) for x in t.args)
        if t.op == 'or':
            return any(self.branch(x) for x in t.args)
        if t.op == 'not' and t.args[0].op in ('and', 'or'):
            return not self.branch(t.args[0])
        v = self.choose(2) == 0
        self.st.pc.assume(t, v, self.facts)
        if not self.st.pc.consistent():
            raise Infeasible()
        return v

    def truth(self, t):
        """a term used as a condition"""
        if t.op in ('true', 'false', 'cmp', 'same', 'not', 'isa', 'ex', 'and', 'or', 'haskey', 'member', 'lexit'):
            return t
        if t.op in ('num', 'poly', 'size', 'sum', 'k', 'bits'):
            return cmpt(t, ZERO, LT | GT)
        if t.op == 'b2i':
            return t.args[0]
        if t.op == 'null':
            return FALSE
        ty = self.facts.ty.get(t)
        if ty in INTS or ty == 'double':
            return cmpt(t, ZERO, LT | GT)
        if (ty and (pointee(ty) or ty in self.prog.handles)) or t.op in NONNULL:
            return isnonnull(t)
        return t

    # ------------------------------------------------------------ memory
    def volatile(self, root):
        if root.op == 'H':
            p, f = root.args
            if f in VOLATILE:
                return True
            if p is self.this or p.op in ('new', 'this'):
                return False
            if f in STABLE_FOREIGN:
                return False
            c = self.facts.cls(p)
            if c:
                for a in self.prog.ancestors(c):
                    fd = self.prog.fields.get((a, f))
                    if fd and (fd['ty'].startswith('const ') or fd['ty'].endswith('const')):
                        return False
            return True
        if root.op == 'cb':
            return True
        return False

    def initial(self, root):
        if root.op == 'L':
            return mk('undef', root)
        if root.op == 'D' and root.args[0].op in ('sym', 'ld', 'at', 'fld', 'ret', 'mu'):
            return mk('ld', root)
        if self.volatile(root):
            return mk('ld', root, self.st.epoch)
        return mk('ld', root)

    def rootval(self, root):
        v = self.st.cells.get(root)
        return v if v is not None else self.initial(root)

    def read(self, l):
        root, path = l.args
        v = self.rootval(root)
        for s in path:
            v = self.proj(v, s)
        return v

    def proj(self, v, s):
        k = s[0]
        if k == 'f':
            return fld(v, s[1])
        if k == 'i':
            return at(v, s[1])
        if k == 's':
            if s[1] is ZERO and s[2] is size(v):
                return v
            return mk('slice', v, s[1], s[2])
        if k == 'k':
            return self.mget(v, s[1])
        if k == 'ke':
            return rec({'first': s[1], 'second': self.mget(v, s[1])})
        raise Undecided('path step ' + k)

    def mget(self, v, key):
        while v.op == 'mput':
            if v.args[1] is key:
                return v.args[2]
            if v.args[1].op in CONSTOPS and key.op in CONSTOPS:
                v = v.args[0]
                continue
            break
        return mk('mget', v, key)

    def write(self, l, v):
        root, path = l.args
        if root.op == 'H' and root.args[0] is not self.this and root.args[0].op != 'new' and root.args[1] not in VOLATILE:
            self.event('fset', root.args[1], (root.args[0], v), x=path)
        if path and any(s[0] in ('i', 's', 'k') for s in path):
            self.event('store', '', (l, v))
        if root.op in ('ld', 'at', 'fld', 'sym', 'num'):
            raise Undecided('write to a value')
        if not path:
            self.st.cells[root] = v
        else:
            self.st.cells[root] = self.upd(self.rootval(root), path, v)

    def upd(self, old, path, v):
        if not path:
            return v
        s, rest = path[0], path[1:]
        k = s[0]
        if k == 'f':
            return updf(old, s[1], self.upd(fld(old, s[1]), rest, v))
        if k == 'i':
            return self.store(old, s[1], self.upd(at(old, s[1]), rest, v) if rest else v)
        if k == 's':
            if rest:
                raise Undecided('store below a slice')
            if s[1] is ZERO and s[2] is size(old):
                return v
            return mk('storeslice', old, s[1], s[2], v)
        if k == 'k':
            return mk('mput', old, s[1], self.upd(self.mget(old, s[1]), rest, v) if rest else v)
        if k == 'ke':
            if rest and rest[0] == ('f', 'second'):
                return mk('mput', old, s[1], self.upd(self.mget(old, s[1]), rest[1:], v))
        raise Undecided('store below ' + k)

    def store(self, v, i, x):
        if v.op == 'append' and sub(i, size(v.args[0])) is ZERO:
            return mk('append', v.args[0], x)
        if v.op == 'store' and v.args[1] is i:
            v = v.args[0]
        if at(v, i) is x:
            return v
        return mk('store', v, i, x)

    def deref(self, p):
        if p.op == 'addr':
            return p.args[0]
        if p.op == 'it':
            l, i = p.args
            return loc(l.args[0], l.args[1] + (('i', i),))
        if p.op == 'rit':
            l, i = p.args
            return loc(l.args[0], l.args[1] + (('i', sub(sub(size(self.read(l)), ONE), i)),))
        if p.op == 'vit':     # iterator over a plain value
            return self.temp(at(p.args[0], p.args[1]))
        if p.op == 'mit':
            l, k = p.args
            return loc(l.args[0], l.args[1] + (('ke', k),))
        if p.op == 'eptr':
            l, i = p.args
            return loc(l.args[0], l.args[1] + (('i', i),))
        return loc(mk('D', p))

    def addr(self, l):
        root, path = l.args
        if root.op == 'D' and not path:
            return root.args[0]
        if path and path[-1][0] == 'i' and False:
            return mk('eptr', loc(root, path[:-1]), path[-1][1])
        return mk('addr', l)

    def member(self, l, recname, f):
        """location of field f of the object at l"""
        root, path = l.args
        if not self.raw:
            if recname in self.prog.handles:
                fd = self.prog.fields.get((recname, f))
                if fd and pointee(fd['ty']):
                    return l
            if recname == 'pooya::ValidName':
                return l
        if recname.startswith(('std::pair<', 'std::tuple<')):
            return loc(root, path + (('f', f),))
        name = self.prog.canon(recname, f)
        if root.op == 'D' and not path:
            return loc(H(root.args[0], name))
        return loc(root, path + (('f', name),))

    def temp(self, v, ty=None):
        self.st.nnew += 1
        r = L('t', '%s.%d' % (len(self.stack), self.st.nnew))
        self.st.declared.add(r)
        self.st.cells[r] = v
        return loc(r)

    def settype(self, t, ty):
        if isinstance(t, T) and ty and t.op in ('ld', 'at', 'fld', 'sym', 'ret', 'mu', 'mget', 'app', 'mufin', 'undef', 'vget', 'optval', 'val', 'cbval', 'idiv', 'imod', 'busat', 'bits', 'bitop'):
            if t not in self.facts.ty:
                s = strip(ty)
                self.facts.ty[t] = s

    # ------------------------------------------------------------ events
    def event(self, kind, name, args=(), ret=None, x=None):
        st = self.st
        st.nev += 1
        e = Ev(kind, name, args, ret, self.where, None, len(st.pc.log), self.stack[-1].fn['q'] if self.stack else None, x)
        if kind in ('call', 'fn', 'set', 'make', 'clear', 'loop', 'warn', 'rec', 'store'):
            e.snap = dict(st.cells)
        st.events.append(e)
        return e

    def bump(self, tag=None):
        st = self.st
        st.epoch = mk('ep', '%s.%s' % ('.'.join(map(str, self.ctx[:1])) if self.ctx else '', tag or st.nev))
        if self.loopstack:
            st.epoch = mk('ep', st.epoch.args[0], *self.loopstack)
        if st.events and st.events[-1].ep is None:
            st.events[-1].ep = st.epoch
        for r in [r for r in st.cells if self.volatile(r)]:
            del st.cells[r]

    def unk(self, why):
        self.st.unk.append('%s (%s)' % (why, self.where))

    # ------------------------------------------------------------ functions
    def run(self, fid, this=None, args=None, st0=None, cls=None):
        """all paths of a function called with symbolic arguments"""
        f = self.prog.body(fid)
        if f is None:
            raise Undecided('no body for ' + fid)
        st0 = st0 or State()

        def thunk():
            locs = []
            for i, p in enumerate(f['params']):
                if args is not None and i < len(args) and args[i] is not None:
                    a = args[i]
                    locs.append(a if a.op == 'loc' else self.temp(a))
                    if a.op != 'loc':
                        self.settype(a, p['ty'])
                else:
                    s = sym(p['n'] or 'arg%d' % i)
                    self.settype(s, p['ty'])
                    pt = strip(p['ty'])
                    if isref(p['ty']) and pt in self.prog.recs and pt not in self.prog.handles and self.prog.recs[pt].get('polymorphic'):
                        self.facts.ty[s] = pt + ' *'
                        self.facts.nonnulls.add(s)
                        locs.append(loc(mk('D', s)))
                    elif isref(p['ty']) and not strip(p['ty']) in NUMTY:
                        r = mk('A', p['n'] or 'arg%d' % i)
                        self.st.cells.setdefault(r, s)
                        locs.append(loc(r))
                    elif isref(p['ty']):
                        r = mk('A', p['n'] or 'arg%d' % i)
                        self.st.cells.setdefault(r, s)
                        locs.append(loc(r))
                    else:
                        locs.append(self.temp(s))
            r = self.invoke(f, this if this is not None else self.this, locs)
            if isinstance(r, T) and r.op == 'loc' and not isref(f['rt']):
                r = self.read(r)
            raise ReturnEx(r)
        return self.explore(thunk, st0, ('run', fid))

    def invoke(self, f, this, locs, captured=None):
        """inline a function; reference arguments arrive as locations"""
        if len(self.stack) > 60:
            raise Undecided('call depth')
        self.functions.add(f['id'])
        st = self.st
        st.nframe += 1
        fr = Frame(st.nframe, dict(captured or {}), this, f, f.get('file'))
        w = self.where
        self.stack.append(fr)
        try:
            for p, a in zip(f['params'], locs):
                if isref(p['ty']):
                    fr.env[p['id']] = a
                else:
                    r = L(fr.id, p['id'])
                    st.declared.add(r)
                    v = self.read(a) if a.op == 'loc' else a
                    if strip(p['ty']) in INTS and isinstance(v, T) and not is_num(v) and v.op in ('sym', 'ld', 'poly', 'val') and not self.facts.isint(v) and any(
                            self.facts.ty.get(x) in ('double', 'float') for x in subterms(v)):
                        v = mk('trunc', v)      # converted on the way in (calls through function objects)
                    elif strip(p['ty']) == 'float' and isinstance(v, T) and v.op in ('sym', 'ld', 'poly', 'val') and any(self.facts.ty.get(x) == 'double' for x in subterms(v)):
                        v = mk('app', 'float', v)
                    self.settype(v, p['ty'])
                    st.cells[r] = v
                    fr.env[p['id']] = loc(r)
            if f.get('isctor'):
                self.inits(f, this)
            try:
                self.stmt(f['body'])
                ret = VOID
            except ReturnEx as x:
                ret = x.v
        finally:
            self.stack.pop()
            self.where = w
        return ret

    def inits(self, f, this):
        for i in f.get('inits', []):
            l = self.deref(this)
            e = i.get('e')
            if 'f' in i:
                ml = self.member(l, i['rec'], i['f'])
                fty = i.get('fty') or (self.prog.fields.get((i['rec'], i['f'])) or {}).get('ty', '')
                if e is None:
                    continue
                if isref(fty):
                    self.st.cells[ml.args[0]] = self.addr(self.evalloc(e))
                    continue
                v = self.initval(e, fty)
                if ml.args[1]:
                    self.write(ml, v)
                else:
                    self.st.cells[ml.args[0]] = v
            else:
                # base or delegating constructor: runs on the same object
                if e is not None and e.get('k') == 'ctor':
                    self.construct(e, this)

    def initval(self, e, ty):
        if e.get('k') == 'initlist' and not self.prog.recs.get(strip(ty)):
            items = e.get('items', [])
            if len(items) == 1 and (strip(ty) in NUMTY or pointee(ty)):
                return self.eval(items[0])
            if not items:
                t = strip(ty)
                return FALSE if t == 'bool' else ZERO if t in NUMTY else NULL if pointee(ty) else EMPTY
        return self.eval(e)

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        if 'l' in s and self.stack:
            self.where = '%s:%s' % (short(self.stack[-1].file or '?'), s['l'])
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Undecided('statement ' + k)
        m(s)

    def s_block(self, s):
        for x in s['s']:
            self.stmt(x)

    def s_expr(self, s):
        self.eval(s['e'], discard=True)

    def s_decl(self, s):
        fr = self.stack[-1]
        ty = s.get('ty', '')
        if 'PooyaTracer' in ty:
            if self.eval_trace and s.get('init') is not None:
                pass
            return
        init = s.get('init')
        if init is not None and (isref(ty) or strip(ty).startswith(('Eigen::Map<', 'Eigen::Block<', 'Eigen::Ref<'))):
            fr.env[s['id']] = self.evalloc(init)
            return
        r = L(fr.id, s['id'])
        self.st.declared.add(r)
        if s.get('static'):
            r = mk('G', 'static:%s:%s' % (fr.fn['q'], s['n']))
            if init is not None and ty.startswith('const'):
                v = self.initval(init, ty)
                if v.op == 'num':
                    self.st.cells[r] = v
            fr.env[s['id']] = loc(r)
            return
        fr.env[s['id']] = loc(r)
        if init is not None:
            v = self.initval(init, ty)
            if init.get('k') == 'lambda':
                pass
            self.st.cells[r] = v
            self.settype(v, ty)
        else:
            self.st.cells[r] = mk('undef', r)

    def s_decomp(self, s):
        l = self.evalloc(s['init'])
        self.bindings(s, l)

    def bindings(self, s, l):
        fr = self.stack[-1]
        if not isref(s.get('ty', '&')):
            l = self.temp(self.read(l))
        for b in s['b']:
            f = ('first', 'second')[b['i']] if b['i'] < 2 else 'f%d' % b['i']
            x = loc(l.args[0], l.args[1] + (('f', f),))
            fr.env[b['id']] = x
            if b.get('hv'):
                fr.env[b['hv']] = x

    def s_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('var'):
            self.stmt(s['var'])
        if self.branch(self.cond(s['c'])):
            self.stmt(s['t'])
        elif s.get('e'):
            self.stmt(s['e'])

    def s_ret(self, s):
        if s.get('e') is None:
            raise ReturnEx(VOID)
        fr = self.stack[-1]
        rt = fr.fn.get('rt', '')
        if isref(rt):
            raise ReturnEx(self.evalloc(s['e']))
        raise ReturnEx(self.initval(s['e'], rt))

    def s_break(self, s):
        raise BreakEx()

    def s_continue(self, s):
        raise ContinueEx()

    def s_try(self, s):
        # handlers are only entered on an exception; exceptions of the library are paths of their own
        try:
            self.stmt(s['b'])
        except ThrowEx:
            hs = s.get('h') or s.get('handlers') or []
            if not hs:
                raise
            self.unk('exception handler')
            raise

    def s_switch(self, s):
        v = self.eval(s['c'])
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        flat = []

        def unfold(x):
            if x['k'] in ('case', 'default'):
                flat.append(('label', x))
                if x.get('b'):
                    unfold(x['b'])
            else:
                flat.append(('stmt', x))
        for x in body:
            unfold(x)
        start, dflt = None, None
        for i, (k, x) in enumerate(flat):
            if k == 'label':
                if x['k'] == 'default':
                    dflt = i
                elif start is None and self.branch(eqn(v, self.eval(x['v']))):
                    start = i
                    break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == 'stmt':
                    self.stmt(x)
        except BreakEx:
            pass

    # ------------------------------------------------------------ loops
    def s_while(self, s):
        def it():
            if not self.branch(self.cond(s['c'])):
                raise ExhaustEx()
            self.body(s['b'])
        self.loop(s, it)

    def s_do(self, s):
        def it():
            self.body(s['b'])
            if not self.branch(self.cond(s['c'])):
                raise ExhaustEx()
        self.loop(s, it)

    def s_for(self, s):
        if s.get('init'):
            self.stmt(s['init'])

        def it():
            if s.get('c') is not None:
                if not self.branch(self.cond(s['c'])):
                    raise ExhaustEx()
            self.body(s['b'])
            if s.get('inc') is not None:
                self.eval(s['inc'], discard=True)
        self.loop(s, it)

    def body(self, b):
        try:
            self.stmt(b)
        except ContinueEx:
            pass

    def s_rfor(self, s):
        cl = self.evalloc(s['range'])
        n0 = None
        fr = self.stack[-1]
        cont = self.container(cl)
        if cont.op == 'loc':
            n = size(self.read(cont))
        else:
            n = size(cont)
        self.over(s, cont, ZERO, n, lambda l: self.bind_range(s, l), lambda: self.body(s['b']))

    def container(self, l):
        """the location of the sequence a range expression iterates over"""
        v = self.read(l)
        if not self.raw and self.facts.ty.get(v) == 'pooya::Bus' or self.facts.cls(v) == 'pooya::BusImpl' or (v.op == 'newbus'):
            return loc(H(v, '@signals'))
        return l

    def bind_range(self, s, l):
        v = s['var']
        fr = self.stack[-1]
        beg = self.find_begin(v.get('init'))
        if beg is not None:
            fr.env[beg] = self.temp(mk('addr', l))
        if v['k'] == 'decomp':
            self.bindings(v, l)
            return
        if isref(v.get('ty', '')):
            fr.env[v['id']] = l
            self.settype(self.read(l), v.get('ty', ''))
            return
        r = L(fr.id, v['id'])
        self.st.declared.add(r)
        init = v.get('init')
        x = self.initval(init, v.get('ty', '')) if beg is not None else self.read(l)
        self.settype(x, v.get('ty', ''))
        self.st.cells[r] = x
        fr.env[v['id']] = loc(r)

    def find_begin(self, e):
        st = [e]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'var' and (x.get('n') or '').startswith('__begin'):
                    return x['id']
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        return None

    def over(self, node, cont, lo, hi, bind, body):
        """iterate an element binding over positions [lo, hi) of a sequence"""
        fr = self.stack[-1]
        r = L(fr.id, 'it%s' % node.get('l', 0) + '.%d' % self.st.nloop)
        self.st.cells[r] = lo

        def it():
            i = self.rootval(r)
            if not self.branch(lt(i, hi)):
                raise ExhaustEx()
            if cont.op == 'loc':
                bind(loc(cont.args[0], cont.args[1] + (('i', i),)))
            else:
                bind(self.temp(at(cont, i)))
            body()
            self.st.cells[r] = add(self.rootval(r), ONE)
        self.loop(node, it, hidden=r)

    def loop(self, node, it, hidden=None, visited=None):
        st = self.st
        st.nloop += 1
        outer = self.loopstack[-1].args[0] + '.' if self.loopstack else ''
        uid = '%s%d' % (outer, st.nloop)
        where = self.where
        key = (self.ctx, tuple(self.prefix[:self.pos]), uid, tuple(f.id for f in self.stack))
        got = self.loopcache.get(key)
        if got is None:
            got = self.analyse_loop(uid, it, where)
            self.loopcache[key] = got
        self.apply_loop(got, uid, where, visited)

    def carriable(self, r, S):
        if r in S.cells:
            return True
        if r.op == 'L':
            return False
        if r.op == 'H' and r.args[0].op == 'new':
            return False
        if self.volatile(r):
            return False
        if r.op == 'H' and r.args[0] is not self.this and any(x.op == 'k' for x in subterms(r)):
            return False
        return True

    def analyse_loop(self, uid, it, where):
        S = self.st
        kappa = mk('k', uid)
        carried, inds, eventful = {}, {}, False
        retries = {}
        for rnd in range(12):
            S2 = S.copy()
            for r in carried:
                if r in inds:
                    base, step = inds[r]
                    S2.cells[r] = self.shift(base, self.psum(step, kappa, kappa))
                else:
                    m = mk('mu', uid, r)
                    if r in S.cells:
                        old = S.cells[r]
                    else:
                        old = self.initial(r)
                    t = self.facts.ty.get(old)
                    if t:
                        self.facts.ty.setdefault(m, t)
                    elif old in (TRUE, FALSE):
                        self.facts.ty.setdefault(m, 'bool')
                    elif old.op in ('num', 'poly') and carried[r] == 'int':
                        self.facts.ty.setdefault(m, 'int')
                    S2.cells[r] = m
            if eventful:
                S2.epoch = mk('ep', 'loop' + uid, *self.loopstack, kappa)
                for r in [r for r in S2.cells if self.volatile(r)]:
                    del S2.cells[r]
            pre = dict(S2.cells)
            self.loopstack.append(kappa)
            try:
                outs = self.explore(it, S2, self.ctx + (tuple(self.prefix[:self.pos]), uid, rnd))
            finally:
                self.loopstack.pop()
            new = {}
            ev = False
            for o in outs:
                if any(e.kind not in ('get',) for e in o.events):
                    if any(e.kind in ('call', 'fn', 'set', 'clear', 'make', 'rec', 'loop', 'fset') for e in o.events):
                        ev = True
                if o.kind != 'ok':
                    continue
                for r, v in o.cells.items():
                    if r in o.st.declared and r not in S.declared:
                        continue
                    if r in carried or not self.carriable(r, S):
                        continue
                    old = S.cells.get(r)
                    if old is None:
                        old = self.initial(r)
                    if v is not old:
                        new[r] = 'int' if self.intlike(old, v) else None
            if new or (ev and not eventful):
                carried.update(new)
                eventful = eventful or ev
                continue
            # induction variables
            changed = False
            for r in carried:
                if r in inds:
                    # confirm
                    base, step = inds[r]
                    want = self.shift(self.shift(base, self.psum(step, kappa, kappa)), step)
                    if any(o.kind == 'ok' and o.cells.get(r) is not want for o in outs):
                        del inds[r]
                        retries[r] = True
                        changed = True
                    continue
                if retries.get(r):
                    continue
                m = mk('mu', uid, r)
                steps = set()
                for o in outs:
                    if o.kind == 'ok':
                        d = self.difference(o.cells.get(r), m)
                        steps.add(d)
                if len(steps) == 1:
                    d = steps.pop()
                    if d is not None and d is not ZERO and not mentions_uid(d, uid) and self.invariant(d, carried, S):
                        base = S.cells.get(r)
                        if base is None:
                            base = self.initial(r)
                        if self.shiftable(base):
                            inds[r] = (base, d)
                            changed = True
            if not changed:
                break
        else:
            raise Undecided('loop does not stabilise')
        return self.summarise(uid, kappa, outs, S, carried, inds, eventful, where)

    def intlike(self, old, v):
        for x in (old, v):
            if x.op == 'num' and numval(x).denominator != 1:
                return False
        return all(x.op == 'num' or self.facts.isint(x) for x in (old, v) if x.op != 'undef') and old.op in ('num', 'poly')

    def shiftable(self, b):
        return b.op in ('it', 'rit', 'eptr', 'vit') or b.op in ('num', 'poly') or self.facts.ty.get(b) in INTS or self.facts.ty.get(b) == 'double' or b.op in ('size', 'ld', 'sym', 'k', 'bits')

    def psum(self, step, kappa, n):
        """the total of a step over the first n iterations"""
        if not contains(step, kappa):
            return mul(step, n)
        return binder('sum', n, frozenset([(frozenset([frozenset()]), step)]), kappa)

    def shift(self, b, d):
        if b.op in ('it', 'rit', 'eptr', 'vit'):
            return mk(b.op, b.args[0], add(b.args[1], d))
        return add(b, d)

    def difference(self, v, m):
        """v - m as a number when v is m advanced by a number"""
        if v is None:
            return None
        if v is m:
            return ZERO
        if v.op == 'adv':
            b, d = v.args
            return d if b is m else None
        d = sub(v, m)
        if contains(d, m):
            return None
        return d

    def invariant(self, d, carried, S):
        for s in subterms(d):
            if s.op in ('mu', 'undef', 'ret', 'ep'):
                return False
        return True

    def summarise(self, uid, kappa, outs, S, carried, inds, eventful, where):
        conts = [o for o in outs if o.kind == 'ok']
        exits = [o for o in outs if o.kind != 'ok']
        n = None
        ex = [o for o in exits if o.kind == 'exhaust']
        head = None
        if len(ex) > 1:
            # a compound head test: the counting part ends the domain, the rest are early exits
            cnt = [o for o in ex if not o.events and len([c for c in o.conds if contains_any(c, {kappa})]) == 1 == len(o.conds) and
                   self.bound(o.conds[0], kappa, uid) is not None]
            keep = cnt[0] if len(cnt) == 1 else ex[0]
            for o in ex:
                if o is not keep:
                    o.kind = 'break'
            ex = [keep]
        if len(ex) == 1 and not ex[0].events:
            lits = [c for c in ex[0].conds if contains_any(c, {kappa})]
            others = [c for c in ex[0].conds if not contains_any(c, {kappa})]
            if len(lits) == 1 and not others:
                n = self.bound(lits[0], kappa, uid)
                if n is not None:
                    head = {notb(lits[0]), cmpt(kappa, n, LT), cmpt(kappa, n, LT | GT), cmpt(kappa, n, LT | EQ)} if True else None
                    # a head test that is an inequality only ends the loop when it starts below the bound
                    for o in outs:
                        o.conds = [c for c in o.conds if c not in head and c is not lits[0]]
        opaque = False
        for o in outs:
            if any(e.kind not in ('get',) for e in o.events):
                opaque = True
        return dict(uid=uid, kappa=kappa, n=n, conts=conts, exits=exits, carried=dict(carried), inds=dict(inds), eventful=eventful,
                    opaque=opaque, where=where, outs=outs)

    def bound(self, lit, kappa, uid):
        """N such that the literal says kappa >= N"""
        if lit.op != 'cmp':
            return None
        q, c, mask = lit.args
        p = poly(q)
        k = p.pop(((kappa, 1),), None)
        if k is None or any(kappa is a for m in p for a, _ in m):
            return None
        rest = unpoly(p)
        if any(contains_any(rest, {kappa}) for _ in (0,)) or mentions_uid(rest, uid):
            return None
        if k < 0:
            mask = (mask & EQ) | (LT if mask & GT else 0) | (GT if mask & LT else 0)
        b = div(sub(num(c), rest), num(k))
        if mask in (GT | EQ, EQ):
            return b
        if mask == GT:
            return add(b, ONE)
        return None

    def apply_loop(self, g, uid, where, visited):
        st = self.st
        if self.nosolve and not g['opaque'] and any(x.op == 'mu' and x.args[0] == uid for o in g['outs'] for c in o.conds for x in subterms(c)):
            g = dict(g, opaque=True)
        kappa, n, conts, exits = g['kappa'], g['n'], g['conts'], g['exits']
        # group early exits by what they do
        groups = []
        for o in exits:
            if o.kind == 'exhaust':
                continue
            eff = self.effects(o, g, st)
            val = o.val if isinstance(o.val, T) or o.val is None else o.val
            sig = (o.kind, val.what if isinstance(val, ThrowEx) else val, eff, bool([e for e in o.events if e.kind != 'get']))
            for gr in groups:
                if gr[0] == sig and not sig[3]:
                    gr[1].append(o)
                    break
            else:
                groups.append((sig, [o]))
        exh = [o for o in exits if o.kind == 'exhaust']
        options = []
        if exh:
            options.append(('exhaust', exh))
        options += [(gr[0][0], gr[1]) for gr in groups]
        if not options:
            raise Infeasible()       # never ends
        pure = not g['opaque'] and n is not None
        choice = None
        if len(options) == 1 and options[0][0] == 'exhaust':
            choice = 0
        elif len(options) == 1:
            choice = 0
        if pure and exh and groups and choice is None:
            allc = frozenset(frozenset(o.conds) for gr in groups for o in gr[1])
            exatom = self.exists(n, allc, kappa)
            if self.branch(exatom):
                if len(groups) == 1:
                    choice = 1
                else:
                    i = self.choose(len(groups))
                    self.st.pc.lits[mk('lexit', uid, i)] = True
                    self.st.pc.log.append((mk('lexit', uid, i, exatom), True))
                    choice = 1 + i
            else:
                choice = 0
        elif choice is None:
            i = self.choose(len(options))
            self.st.pc.log.append((mk('lexit', uid, i), True))
            choice = i
        kind, grp = options[choice]
        o = grp[0]
        # number of completed iterations
        if kind == 'exhaust':
            if n is not None:
                count = n
                if not groups:
                    pass
            else:
                count = mk('kend', uid)
                self.facts.ty[count] = 'int'
        else:
            if pure:
                conds = frozenset(frozenset(x.conds) for x in grp)
                allc = frozenset(frozenset(x.conds) for gr in groups for x in gr[1])
                b = binder('first', n, allc, kappa)
                count = b
                st.pc.assume(lt(count, n), True, self.facts)
            else:
                count = mk('kend', uid)
                self.facts.ty[count] = 'int'
                if n is not None:
                    st.pc.assume(lt(count, n), True, self.facts)
        lp = Loop(uid, kappa, n, g['outs'], where, {}, g['inds'], {}, None)
        lp.visited = visited
        lp.carried = g['carried']
        lp.count = count
        lp.exit, lp.group = (kind, o), grp
        lp.pre = dict(st.cells)
        for r in g['carried']:
            lp.init[r] = st.cells.get(r) if st.cells.get(r) is not None else self.initial(r)
        for x in g['outs']:
            for u in x.unk[len(st.unk):]:
                if u not in st.unk:
                    st.unk.append(u)
        st.loops[uid] = lp
        if g['opaque']:
            e = self.event('loop', uid, (), x=lp)
            e.where = where
        # values of carried cells after `count` iterations
        final = {}
        for r in g['carried']:
            if r in g['inds']:
                base, step = g['inds'][r]
                final[r] = self.shift(base, self.psum(step, kappa, count))
        solved = {}
        grows = lambda r: any(v is not None and v.op in ('sadd', 'scomp') for v in (o.cells.get(r) for o in g['conts']))
        for r in sorted(g['carried'], key=lambda r: not grows(r)):
            if r not in g['inds']:
                solved[r] = final[r] = self.solve(r, g, lp.init[r], n if kind == 'exhaust' and n is not None else count, uid, final, lp.init)
        lp.solved = final
        m = {kappa: count}
        for r, v in final.items():
            if r not in g['inds']:
                m[mk('mu', uid, r)] = v
        if kind == 'exhaust' and o is not None:
            vals = {}
            for r, v in o.cells.items():
                if (r in o.st.declared and r not in st.declared) or not (r in st.cells or self.carriable(r, st)):
                    continue
                if r in g['carried'] or v is not st.cells.get(r):
                    vals[r] = subst(v, m)
            st.cells.update(vals)
            if n is None:
                for c in o.conds:
                    c2 = subst(c, m)
                    if c2 is TRUE or c2 is FALSE or c2.op in ('and', 'or'):
                        continue
                    if self.st.pc.decide(c2, self.facts) is None:
                        st.pc.assume(c2, True, self.facts)
        else:
            vals = {}
            for r, v in o.cells.items():
                if (r in o.st.declared and r not in st.declared) or not (r in st.cells or self.carriable(r, st)):
                    continue
                vals[r] = subst(v, m)
            for r in list(st.cells):
                if r in g['carried'] and r not in vals:
                    vals[r] = final[r]
            st.cells.update(vals)
            for c in o.conds:
                if len(grp) > 1:
                    break
                c2 = subst(c, m)
                if c2.op in ('true', 'false', 'and', 'or'):
                    continue
                if self.st.pc.decide(c2, self.facts) is None:
                    st.pc.assume(c2, True, self.facts)
        if g['eventful']:
            self.bump('after' + uid)
        st.nframe += 1000
        st.nev += 1
        if kind == 'return':
            v = o.val
            raise ReturnEx(subst(v, m) if isinstance(v, T) else v)
        if kind == 'throw':
            raise o.val

    def exists(self, n, conds, kappa):
        if frozenset() in conds:
            return cmpt(n, ZERO, GT)
        return binder('ex', n, conds, kappa)

    def effects(self, o, g, st):
        d = []
        for r, v in o.cells.items():
            if r in o.st.declared and r not in st.declared:
                continue
            old = g['conts'][0].st.cells.get(r) if False else None
            if not (r in st.cells or self.carriable(r, st)):
                continue
            if r in g['inds'] or v is (mk('mu', g['uid'], r) if r in g['carried'] else st.cells.get(r)):
                continue
            d.append((r.key, v.key))
        return tuple(sorted(d))

    def solve(self, r, g, init, n, uid, final, inits):
        """the value of a carried cell after n iterations"""
        kappa = g['kappa']
        m = mk('mu', uid, r)
        effs = {}
        for o in g['conts']:
            v = o.cells.get(r)
            if v is None:
                v = m
            effs.setdefault(v, []).append(frozenset(o.conds))
        if not effs:
            return init
        tot = sum(len(x) for x in effs.values())

        def dnf(lst):
            return frozenset([frozenset()]) if len(lst) == tot else simplify(frozenset(lst))
        others = {v: c for v, c in effs.items() if v is not m}
        if not others:
            return init
        if self.nosolve and g['opaque']:
            return self.mufin(uid, r, m)
        # set to one loop-invariant value on some iterations
        if len(others) == 1:
            (v, c), = others.items()
            if not contains_any(v, {kappa}) and not mentions_uid(v, uid):
                if v is init:
                    return init
                d = dnf(c)
                if all(not mentions_uid2(x, uid) for cj in d for x in cj):
                    if self.branch(self.exists(n, d, kappa)):
                        return v
                    return init
                if self.choose(2) == 0:
                    self.st.pc.log.append((mk('loopset', uid, r, v), True))
                    return v
                self.st.pc.log.append((mk('loopset', uid, r, v), False))
                return init
        # a flag that one of its values never leaves
        if init in (TRUE, FALSE) or all(v in (TRUE, FALSE) for v in others):
            trans = {TRUE: [], FALSE: []}
            step = []
            for v, c in effs.items():
                for cj in c:
                    if v in (TRUE, FALSE) or v is m:
                        step.append((v, cj))
                    else:
                        step += [(TRUE, cj | {v}), (FALSE, cj | {notb(v)})]
            for v, cj in step:
                if True:
                    for s in (TRUE, FALSE):
                        if (notb(m) if s is TRUE else m) not in cj:
                            trans[s].append((cj - {m, notb(m)}, s if v is m else v))
            for s, o in ((TRUE, FALSE), (FALSE, TRUE)):
                leave = [c for c, v in trans[o] if v is s]
                if all(v is s for c, v in trans[s]) and not any(mentions_uid2(x, uid) for c in leave for x in c):
                    if init is s:
                        return s
                    d = simplify(frozenset(leave))
                    if init is not o:
                        if self.branch(init) == (s is TRUE):
                            return s
                    return s if d and self.branch(self.exists(n, d, kappa)) else o
        # assigned afresh in every iteration: the last one counts
        if m not in effs and not any(mentions_uid(v, uid) for v in effs) and not any(mentions_uid2(x, uid) for c in effs.values() for cj in c for x in cj) and len(effs) <= 3 \
                and not any(v.op in ('append', 'sadd', 'mput', 'store') for v in effs):
            if not self.branch(cmpt(n, ZERO, GT)):
                return init
            last = {kappa: sub(n, ONE)}
            alts = [(v, cj) for v, c in effs.items() for cj in simplify(dnf(c) if len(effs) == 1 else frozenset(c))]
            v, cj = alts[self.choose(len(alts))] if len(alts) > 1 else alts[0]
            if len(alts) > 1:
                for c in sorted(cj, key=lambda x: x.key):
                    c2 = subst(c, last)
                    k = self.st.pc.decide(c2, self.facts)
                    if k is False:
                        raise Infeasible()
                    if k is None and c2.op not in ('and', 'or', 'true'):
                        self.st.pc.assume(c2, True, self.facts)
            return subst(v, last)
        v = self.setweights(r, m, g, init, uid, final, inits)
        if v is not None:
            return v
        # sums and products
        inc = {}
        for v, c in others.items():
            d = self.difference(v, m)
            if d is None or v.op in ('append', 'sadd', 'store', 'cat'):
                inc = None
                break
            inc.setdefault(d, []).extend(c)
        if inc is not None and not any(mentions_uid(d, uid) for d in inc):
            if all(not any(mentions_uid2(x, uid) for cj in c for x in cj) for c in inc.values()):
                if len(inc) == 1 and not any(contains_any(d, {kappa}) for d in inc) and dnf(list(inc.values())[0]) == frozenset([frozenset()]):
                    return add(init, mul(list(inc)[0], n))
            body = frozenset((dnf(c), d) for d, c in inc.items())
            s = self.close('sum', n, body, kappa)
            return add(init, s)
        fac = {}
        for v, c in others.items():
            q = div(v, m)
            if contains_any(q, {m}) or v.op not in ('poly',):
                fac = None
                break
            fac.setdefault(q, []).extend(c)
        if fac and not any(mentions_uid(d, uid) for d in fac):
            body = frozenset((dnf(c), d) for d, c in fac.items())
            return mul(init, self.close('prod', n, body, kappa))
        # sequences, sets, strings
        for op in ('append', 'sadd', 'cat', 'mput'):
            items = {}
            for v, c in others.items():
                xs = self.suffix(v, m, op)
                if xs is None or any(mentions_uid(x, uid) for x in xs):
                    items = None
                    break
                items.setdefault(xs, []).extend(c)
            if items:
                body = frozenset((dnf(c), xs) for xs, c in items.items())
                return self.close({'append': 'comp', 'sadd': 'scomp', 'cat': 'ccomp', 'mput': 'mcomp'}[op], init, (n, body), kappa)
        # element-wise update of a sequence
        items = {}
        for v, c in others.items():
            if v.op == 'store' and v.args[0] is m:
                x = subst(v.args[2], {at(m, v.args[1]): mk('old')})
                if mentions_uid(x, uid):
                    items = None
                    break
                items.setdefault((v.args[1], x), []).extend(c)
            else:
                items = None
                break
        if items:
            body = frozenset((dnf(c), x) for x, c in items.items())
            return self.close('mapped', init, (n, body), kappa)
        return self.mufin(uid, r, m)

    def mufin(self, uid, r, m):
        v = mk('mufin', uid, r)
        t = self.facts.ty.get(m)
        if t:
            self.facts.ty[v] = t
        return v

    def setweights(self, r, m, g, init, uid, final, inits):
        """a counter that grows with what a set gains: its value follows from the set"""
        hole = mk('hole')

        def total(w, s):
            if s.op == 'empty':
                return ZERO
            if not contains(w, hole):
                return mul(w, size(s))
            return mk('wsum', s, w)
        sets = {q: mk('mu', uid, q) for q in g['carried'] if q is not r and q in final and q not in g['inds'] and any((o.cells.get(q) or m).op in ('sadd', 'scomp') for o in g['conts'])}
        def decided(q, mq):
            for o in g['conts']:
                v = o.cells.get(q, mq)
                if v is not mq and not (v.op == 'sadd' and v.args[0] is mq and (notb(mk('member', mq, v.args[1])) in o.conds or mk('member', mq, v.args[1]) in o.conds)):
                    return False
            return True
        allsets = sets
        if not sets:
            return None
        sets = {q: mq for q, mq in sets.items() if decided(q, mq)}
        weights, telescope = {}, None
        for o in g['conts']:
            d = self.difference(o.cells.get(r, m), m)
            if d is None:
                return None
            gained = []
            for q, mq in sets.items():
                v = o.cells.get(q, mq)
                if v is mq:
                    continue
                if v.op == 'sadd' and v.args[0] is mq:
                    x = v.args[1]
                    if notb(mk('member', mq, x)) in o.conds:
                        gained.append((q, x))
                        continue
                    if mk('member', mq, x) in o.conds:
                        continue
                gained = None
                break
            if gained is not None and len(gained) <= 1:
                if not gained:
                    if d is not ZERO:
                        weights = None
                        break
                    continue
                q, x = gained[0]
                w = subst(d, {x: hole})
                if mentions_uid(w, uid) or contains(w, g['kappa']) or weights.setdefault(q, w) is not w:
                    weights = None
                    break
            else:
                weights = None
                break
        if weights:
            v = init
            for q, w in weights.items():
                v = add(v, sub(total(w, final[q]), total(w, inits[q])))
            return v
        # what is added telescopes: G(next) - G(now)
        sets = allsets
        for o in g['conts']:
            d = self.difference(o.cells.get(r, m), m)
            if d is None or not mentions_uid(d, uid):
                return None
            G = unpoly({mono: -c for mono, c in poly(d).items() if c < 0})
            nxt = subst(G, {mq: o.cells.get(q, mq) for q, mq in sets.items()})
            if sub(sub(nxt, G), d) is not ZERO or (telescope is not None and telescope is not G):
                return None
            if mentions_uid(subst(G, {mq: NULL for mq in sets.values()}), uid) or contains(G, g['kappa']):
                return None
            telescope = G
        if telescope is None:
            return None
        at_ = lambda vals: nosum(subst(telescope, {mq: vals[q] for q, mq in sets.items()}))
        return add(init, sub(at_(final), at_(inits)))

    def close(self, op, a, b, kappa):
        if op in ('sum', 'prod'):
            return binder(op, a, b, kappa)
        n, body = b
        return binder(op, a, n, body, kappa)

    def suffix(self, v, m, op):
        out = []
        while v is not m:
            if v.op == op and op == 'cat':
                if v.args[0] is not m:
                    return None
                return tuple(v.args[1:])
            if v.op == op:
                out.append(v.args[1] if op != 'mput' else mk('kv', v.args[1], v.args[2]))
                v = v.args[0]
            elif op == 'append' and v.op == 'comp':
                out.append(mk('nest', v.args[1], v.args[2], v.args[3]))
                v = v.args[0]
            elif op == 'sadd' and v.op == 'scomp':
                out.append(mk('nest', v.args[1], v.args[2], v.args[3]))
                v = v.args[0]
            else:
                return None
        return tuple(reversed(out))

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        return self.eval(e)

    def eval(self, e, discard=False):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Undecided('expression ' + e['k'])
        if 'l' in e and self.stack:
            self.where = '%s:%s' % (short(self.stack[-1].file or '?'), e['l'])
        v = m(e)
        if isinstance(v, T) and v.op == 'loc':
            if discard:
                return VOID
            v = self.read(v)
        ty = e.get('ty')
        if ty and isinstance(v, T):
            self.settype(v, ty)
        return v

    LV = {'var', 'mem', 'idx', 'gvar'}

    def evalloc(self, e):
        k = e['k']
        m = getattr(self, 'l_' + k, None)
        if m is not None:
            l = m(e)
            if isinstance(l, T) and l.op == 'loc':
                return l
            return self.temp(l)
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Undecided('expression ' + k)
        v = m(e)
        if v.op == 'loc':
            return v
        self.settype(v, e.get('ty'))
        return self.temp(v)

    def e_int(self, e):
        v = int(e['v'])
        if not e.get('chr') and not e.get('enum'):
            self.literals.add(v)
            v = self.scale.get(v, v)
        return num(v)

    def e_flt(self, e):
        s = e.get('s') or str(e['v'])
        try:
            t = s.rstrip('fFlL')
            return num(Fr(t))
        except ValueError:
            return num(Fr(float(e['v'])))

    def e_bool(self, e):
        return boolc(e['v'])

    def e_str(self, e):
        return string(e['v'])

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        t = strip(e.get('ty'))
        return FALSE if t == 'bool' else ZERO if t in NUMTY else NULL if pointee(t) else EMPTY

    def e_this(self, e):
        return self.stack[-1].this

    def l_var(self, e):
        l = self.stack[-1].env.get(e['id'])
        if l is None:
            raise Undecided('unknown variable %s' % e.get('n'))
        return l

    def e_var(self, e):
        return self.l_var(e)

    def e_gvar(self, e):
        q = e['q']
        if q.endswith('::npos'):
            return mk('npos')
        if 'val' in e:
            return num(int(e['val']))
        r = mk('G', q)
        return loc(r)

    def e_fn(self, e):
        return mk('fnref', e.get('id') or e.get('q'))

    def l_mem(self, e):
        b = e['base']
        if e['arrow']:
            p = self.eval(b)
            l = self.deref(p)
        else:
            l = self.evalloc(b)
        fty = e.get('ty', '')
        ml = self.member(l, e['rec'], e['f'])
        fd = self.prog.fields.get((e['rec'], e['f']))
        if fd and isref(fd['ty']):
            p = self.read(ml)
            if p.op in ('ld', 'at', 'fld'):
                self.facts.ty.setdefault(p, strip(fd['ty']) + ' *')
                self.facts.nonnulls.add(p)
            return self.deref(p)
        if ml.args[0].op == 'H' and not ml.args[1]:
            v = self.st.cells.get(ml.args[0])
            if v is None:
                self.settype(self.initial(ml.args[0]), fd['ty'] if fd else fty)
        return ml

    def e_mem(self, e):
        return self.l_mem(e)

    def l_idx(self, e):
        b = self.eval(e['a'] if 'a' in e else e['base'])
        i = self.eval(e['b'] if 'b' in e else e['i'])
        return self.deref(self.advance(b, i))

    def e_idx(self, e):
        return self.l_idx(e)

    def advance(self, p, d):
        if p.op in ('it', 'rit', 'eptr', 'vit'):
            return mk(p.op, p.args[0], add(p.args[1], d))
        if p.op == 'adv':
            return self.advance(p.args[0], add(p.args[1], d))
        if d is ZERO:
            return p
        if p.op == 'addr':
            root, path = p.args[0].args
            if path and path[-1][0] == 'i':
                return mk('addr', loc(root, path[:-1] + (('i', add(path[-1][1], d)),)))
        return mk('adv', p, d)

    def isptrty(self, ty):
        ty = strip(ty)
        return ty.endswith('*') or 'iterator' in ty.split('<')[0]

    def e_un(self, e):
        o = e['op']
        if o == '&':
            return self.addr(self.evalloc(e['e']))
        if o == '*':
            return self.deref(self.eval(e['e']))
        if o in ('!', 'not'):
            return notb(self.truth(self.eval(e['e'])))
        if o == '-':
            return neg(self.eval(e['e']))
        if o == '+':
            return self.eval(e['e'])
        if o == '~':
            return self.bitnot(self.eval(e['e']), e.get('ty'))
        if o in ('pre++', 'pre--', 'post++', 'post--', '++', '--'):
            l = self.evalloc(e['e'])
            old = self.read(l)
            d = ONE if '++' in o else num(-1)
            new = self.step(old, d, e.get('ty'))
            self.write(l, new)
            return old if o.startswith('post') else l
        raise Undecided('unary ' + o)

    def l_un(self, e):
        return self.e_un(e)

    def step(self, old, d, ty=None):
        if old.op in ('it', 'rit', 'eptr', 'vit', 'adv') or (ty and self.isptrty(ty)) or self.isptrty(self.facts.ty.get(old, '')):
            return self.advance(old, d)
        return add(old, d)

    def bits(self, t):
        return t

    def bitnot(self, v, ty):
        w = {'unsigned int': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned char': 8}.get(strip(ty), None)
        if is_num(v):
            return num((~int(numval(v))) % (1 << w) if w else ~int(numval(v)))
        return mk('bitop', '~', v)

    def bitop(self, o, a, b):
        if a in (TRUE, FALSE) and b in (TRUE, FALSE):
            x, y = a is TRUE, b is TRUE
            return boolc({'&': x and y, '|': x or y, '^': x != y}[o])
        if is_num(a) and is_num(b) and numval(a).denominator == 1 and numval(b).denominator == 1:
            x, y = int(numval(a)), int(numval(b))
            return num({'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if 0 <= y < 64 else 0, '>>': x >> y if 0 <= y < 64 else 0}[o])
        if o in '&|' and is_num(a):
            a, b = b, a
        if o == '|' and is_num(b):
            if numval(b) == 0:
                return a
            if a.op == 'bits':
                base, an, orr = a.args
                return mk('bits', base, an, orr | int(numval(b)))
            return mk('bits', a, -1, int(numval(b)))
        if o == '&' and is_num(b):
            m = int(numval(b))
            if a.op == 'bits':
                base, an, orr = a.args
                return mk('bits', base, (an & m) if an != -1 else m, orr & m) if (an & m) or an == -1 else num(orr & m)
            if m == 0:
                return ZERO
            return mk('bits', a, m, 0)
        if o == '<<' and is_num(b):
            return mul(a, num(2 ** int(numval(b))))
        return mk('bitop', o, a, b)

    def arith(self, o, a, b, ty=None, x=None, y=None):
        pa = a.op in ('it', 'rit', 'eptr', 'vit', 'adv') or (x and self.isptrty(x.get('ty', '')))
        pb = b.op in ('it', 'rit', 'eptr', 'vit', 'adv') or (y and self.isptrty(y.get('ty', '')))
        if o == '+':
            if pa:
                return self.advance(a, b)
            if pb:
                return self.advance(b, a)
            return add(a, b)
        if o == '-':
            if pa and pb:
                if a.op == b.op and a.op in ('it', 'rit', 'eptr', 'vit') and a.args[0] is b.args[0]:
                    return sub(a.args[1], b.args[1])
                return sub(a, b)
            if pa:
                return self.advance(a, neg(b))
            return sub(a, b)
        if o == '*':
            return mul(a, b)
        if o == '/':
            if ty and strip(ty) in INTS:
                return idiv(a, b)
            return div(a, b)
        if o == '%':
            return imod(a, b)
        if o in ('&', '|', '^', '<<', '>>'):
            return self.bitop(o, a, b)
        raise Undecided('operator ' + o)

    def compare(self, o, a, b, ta='', tb=''):
        mask = {'<': LT, '>': GT, '<=': LT | EQ, '>=': GT | EQ, '==': EQ, '!=': LT | GT}[o]
        for p, q in ((a, b), (b, a)):
            if p.op == 'mit' and q.op in ('it', 'mit'):
                r = FALSE if q.op == 'it' else same(p.args[1], q.args[1])
                return r if o == '==' else notb(r)
        if a.op == b.op and a.op in ('it', 'rit', 'eptr', 'vit'):
            if a.args[0] is b.args[0]:
                return cmpt(a.args[1], b.args[1], mask)
            if o in ('==', '!='):
                return notb(mk('same', a, b)) if o == '!=' else mk('same', a, b)
        if o in ('==', '!='):
            nt = lambda t, ty: t.op in ('num', 'poly', 'size', 'k', 'sum', 'b2i', 'cols', 'bits', 'idiv', 'first', 'kend') or strip(ty) in NUMTY - {'bool'} or self.facts.ty.get(t) in NUMTY - {'bool'}
            if nt(a, ta) or nt(b, tb):
                r = cmpt(a, b, EQ)
            elif a in (TRUE, FALSE) or b in (TRUE, FALSE):
                x, c = (a, b) if b in (TRUE, FALSE) else (b, a)
                r = self.truth(x) if c is TRUE else notb(self.truth(x))
            elif 'npos' in (a.op, b.op):
                x = a if b.op == 'npos' else b
                r = TRUE if x.op == 'npos' else self.isnpos(x)
            elif strip(ta) == 'bool' or self.facts.ty.get(a) == 'bool' or a.op in ('cmp', 'not', 'same', 'isa'):
                r = mk('same', *sorted((a, b), key=lambda t: t.key)) if a is not b else TRUE
            else:
                r = same(a, b)
            return r if o == '==' else notb(r)
        return cmpt(a, b, mask)

    def isnpos(self, x):
        if x.op in ('sfind', 'srfind') and len(x.args) == 2:
            return notb(mk('member', x.args[1], x.args[0]))
        return same(x, mk('npos'))

    def e_bin(self, e):
        o = e['op']
        if o in ('&&', 'and'):
            if not self.branch(self.eval(e['a'])):
                return FALSE
            return self.truth(self.eval(e['b']))
        if o in ('||', 'or'):
            if self.branch(self.eval(e['a'])):
                return TRUE
            return self.truth(self.eval(e['b']))
        if o == ',':
            self.eval(e['a'], discard=True)
            return self.evalloc(e['b'])
        if o == '=':
            v = self.eval(e['b'])
            l = self.evalloc(e['a'])
            self.settype(v, e['a'].get('ty'))
            self.write(l, v)
            return l
        if o.endswith('=') and o not in ('==', '!=', '<=', '>='):
            v = self.eval(e['b'])
            l = self.evalloc(e['a'])
            old = self.read(l)
            self.settype(old, e['a'].get('ty'))
            r = self.arith(o[:-1], old, v, e['a'].get('ty'), e['a'], e['b'])
            self.write(l, r)
            return l
        a = self.eval(e['a'])
        b = self.eval(e['b'])
        if o in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(o, a, b, e['a'].get('ty', ''), e['b'].get('ty', ''))
        return self.arith(o, a, b, e.get('ty'), e['a'], e['b'])

    def e_cond(self, e):
        if self.branch(self.eval(e['c'])):
            return self.evalloc(e['a'])
        return self.evalloc(e['b'])

    def e_dyncast(self, e):
        to = strip(e['to'])
        if to.endswith('*'):
            p = self.eval(e['e'])
            c = strip(to[:-1])
            return self.dyn(p, c)
        p = self.addr(self.evalloc(e['e']))
        c = strip(to)
        if not self.branch(mk('isa', p, c)):
            raise ThrowEx(string('bad_cast'), self.where)
        return self.deref(p)

    def dyn(self, p, c):
        if p is NULL:
            return NULL
        if self.branch(mk('isa', p, c)):
            return p
        return NULL

    l_dyncast = e_dyncast

    def e_cast(self, e):
        ck = e.get('ck')
        if ck == 'void':
            self.eval(e['e'], discard=True)
            return VOID
        if ck in ('down', 'up', 'bit') and isref(e.get('to', '')):
            return self.evalloc(e['e'])
        v = self.eval(e['e'])
        to = strip(e.get('to', ''))
        if ck in ('i2b', 'f2b'):
            return self.truth(cmpt(v, ZERO, LT | GT)) if v.op not in ('true', 'false', 'cmp') else v
        if ck == 'p2b':
            return self.truthptr(v)
        if ck in ('b2i', 'b2f'):
            if v in (TRUE, FALSE):
                return ONE if v is TRUE else ZERO
            return mk('b2i', v)
        if ck == 'f2i':
            if is_num(v):
                return num(int(numval(v)))
            if self.facts.isint(v):
                return v
            return mk('trunc', v)
        if ck == 'i2i' and is_num(v):
            w = {'unsigned int': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned char': 8}.get(to)
            if w:
                return num(int(numval(v)) % (1 << w))
            return v
        if ck == 'i2i' and v.op in ('true', 'false'):
            return ONE if v is TRUE else ZERO
        if ck == 'f2f' and to == 'float':
            return v if is_num(v) else mk('app', 'float', v)
        if ck == 'i2i' and to in ('unsigned char', 'signed char', 'char', 'short', 'unsigned short') and strip(e.get('from', '')) not in ('char', 'signed char', 'unsigned char', 'bool', 'short', 'unsigned short') and not is_num(v):
            return mk('app', 'narrow:' + to, v)
        if ck == 'down' and v.op not in ('null',):
            c = pointee(to)
            if c:
                self.settype(v, to)
        return v

    def truthptr(self, v):
        if v is NULL:
            return FALSE
        t = isnonnull(v)
        return t

    def l_cast(self, e):
        if e.get('ck') in ('down', 'up', 'bit', None) and isref(e.get('to', '')):
            return self.evalloc(e['e'])
        return self.e_cast(e)

    def e_lambda(self, e):
        fr = self.stack[-1]
        env = {}
        ident = []
        for c in e.get('caps', []):
            if c.get('this'):
                continue
            if c.get('id') is None:
                continue
            l = fr.env.get(c['id'])
            if c.get('init') is not None:
                l = self.temp(self.eval(c['init']))
            elif l is not None and not c.get('ref'):
                l = self.temp(self.read(l))
            if l is not None:
                env[c['id']] = l
                ident.append((str(c['id']), l))
        t = mk('lam', e.get('id') or '%s:%s' % (fr.file, e.get('l')), fr.id, tuple(x for _, x in sorted(ident, key=lambda y: y[0])), fr.this)
        self.lams = getattr(self, 'lams', {})
        self.lams[t] = (e, env, fr.this, fr.file, fr.fn)
        return t

    def call_lam(self, t, args):
        e, env, this, file, fn = self.lams[t]
        f = dict(id=e.get('id') or 'lambda', q=fn['q'] + '::<lambda>', n='<lambda>', params=e['params'], body=e['body'], rt=e.get('rt', ''), file=file)
        return self.invoke(f, this, args, env)

    def e_throw(self, e):
        v = self.eval(e['e']) if e.get('e') else mk('rethrow')
        raise ThrowEx(v, self.where)

    def e_new(self, e):
        raise Undecided('new')

    def e_delete(self, e):
        raise Undecided('delete')

    def e_typeid(self, e):
        raise Undecided('typeid')

    def e_unk(self, e):
        raise Undecided('unknown expression')

    def e_initlist(self, e):
        items = [self.eval(x) for x in e.get('items', [])]
        ty = strip(e.get('ty', ''))
        if len(items) == 1 and (ty in NUMTY or pointee(ty)):
            return items[0]
        if not items:
            return self.e_zero(e)
        r = self.prog.recs.get(ty)
        if r:
            d = {}
            for f, x in zip(r['fields'], items):
                d[self.prog.canon(ty, f['f'])] = x
            return rec(d)
        return mk('seq', *items)

    # ------------------------------------------------------------ constructors
    def e_ctor(self, e):
        ty = strip(e['ty'])
        c = e.get('c') or {}
        args = e.get('args', [])
        ct = c.get('ct') or ty.split('<')[0]
        if ct in ('std::initializer_list',):
            if len(args) == 1 and args[0]['k'] == 'initlist':
                return mk('seq', *[self.eval(x) for x in args[0].get('items', [])])
            if len(args) == 1 and (args[0].get('copy') or True):
                return self.eval(args[0])
            return mk('seq')
        if not self.raw and ty in self.prog.handles:
            return self.handle_ctor(ty, e)
        if not self.raw and ty == 'pooya::ValidName':
            return self.name_ctor(e)
        if (e.get('copy') or e.get('move')) and len(args) == 1:
            if ty in self.prog.recs and not c.get('defaulted') and self.prog.body(c.get('id', '')) is not None:
                pass
            elif e.get('move') and self.prog.body(c.get('id', '')) is not None and ty in self.prog.recs:
                pass
            else:
                return self.moved(args[0], ty) if e.get('move') else self.eval(args[0])
        if c.get('repo') and ty in self.prog.recs:
            self.st.nnew += 1
            f = self.prog.body(c['id'])
            polym = self.prog.recs[ty].get('polymorphic')
            if f is None:
                if not args:
                    return self.default_rec(ty)
                self.unk('constructor of %s has no body' % ty)
                return mk('ctorval', ty, *[self.eval(a) for a in args])
            r = L('obj', '%d' % self.st.nnew)
            self.st.declared.add(r)
            self.st.cells[r] = self.default_rec(ty, False)
            self.construct(e, mk('addr', loc(r)))
            return self.st.cells[r]
        return self.std_ctor(ct, ty, e, args)

    def moved(self, a, ty):
        """the value of an expression that is moved from; the source is left empty"""
        ct = strip(ty).split('<')[0]
        gone = NULL if ct in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr') else EMPTY if ct in ('std::vector', 'std::map', 'std::unordered_map', 'std::list', 'std::set', 'std::unordered_set', 'std::deque') else None
        x = a
        while x.get('k') in ('cast', 'paren') and isinstance(x.get('e'), dict):
            x = x['e']
        q = (x.get('c') or {}).get('q', '') if x.get('k') == 'call' else ''
        if gone is None or not (x.get('k') in ('mem', 'var') or q in ('std::move', 'std::forward', 'std::exchange')):
            return self.eval(a)
        l = self.evalloc(a)
        v = self.read(l)
        if l.op == 'loc' and (l.args[0].op == 'H' or l.args[0] in self.st.cells) and not any(s[0] in ('i', 's', 'k', 'ke') for s in l.args[1]):
            self.write(l, gone)
        return v

    def default_rec(self, ty, fill=True):
        d = {}
        for c, f in self.prog.all_fields(ty):
            if f.get('init') is not None:
                d[self.prog.canon(c, f['f'])] = self.initval(f['init'], f['ty'])
            elif strip(f['ty']).startswith(('std::vector', 'std::map', 'std::unordered')):
                d[self.prog.canon(c, f['f'])] = EMPTY
        return rec(d)

    def construct(self, e, this):
        """run a constructor on an existing object"""
        c = e['c']
        f = self.prog.body(c['id'])
        if f is None:
            # implicit default constructor: members' default initialisers, bases
            ty = c.get('cls')
            for cc, fd in (self.prog.all_fields(ty) if ty in self.prog.recs else []):
                l = self.member(self.deref(this), cc, fd['f'])
                v = None
                if fd.get('init') is not None:
                    v = self.initval(fd['init'], fd['ty'])
                elif strip(fd['ty']).startswith(('std::vector', 'std::map', 'std::unordered')):
                    v = EMPTY
                if v is not None:
                    if l.args[1]:
                        self.st.cells[l.args[0]] = self.upd(self.rootval(l.args[0]), l.args[1], v)
                    else:
                        self.st.cells[l.args[0]] = v
            return
        locs = [self.evalloc(a) for a in e['args']]
        self.invoke(f, this, locs)

    def handle_ctor(self, ty, e):
        args = e.get('args', [])
        impl = self.prog.handles[ty]
        c = e.get('c') or {}
        params = (self.prog.fns.get(c.get('id')) or {}).get('params')
        if len(args) >= 1:
            a = args[0]
            aty = strip(a.get('ty', ''))
            if e.get('copy') or e.get('move'):
                return self.eval(a)
            l = self.evalloc(a)
            v = self.read(l)
            pty = strip(params[0]['ty']) if params else aty
            if pty in self.prog.handles or aty in self.prog.handles:
                p = v
                if aty in self.prog.handles:
                    self.settype(p, aty)
            elif self.prog.derives(pty, 'pooya::SignalImpl') if pty in self.prog.recs else False:
                p = self.addr(l)
                self.facts.nonnulls.add(p)
            else:
                return self.newsig(ty, [v] + [self.eval(x) for x in args[1:]])
            if ty == 'pooya::Signal':
                return p
            self.check_type(p, impl)
            return p
        return self.newsig(ty, [])

    def check_type(self, p, impl):
        if not self.branch(mk('isa', p, impl)):
            raise ThrowEx(string('invalid signal type'), self.where)

    def newsig(self, ty, args):
        self.st.nnew += 1
        uid = '%s%d' % (self.loopstack[-1].args[0] + ':' if self.loopstack else '', self.st.nnew)
        impl = self.prog.handles[ty]
        if impl == 'pooya::BusImpl':
            return mk('newbus', *args)
        return mk('new', 's' + uid, impl)

    def name_ctor(self, e):
        args = e.get('args', [])
        if not args:
            return string('')
        v = self.eval(args[0])
        at_ = strip(args[0].get('ty', ''))
        if e.get('copy') or e.get('move') or at_ == 'pooya::ValidName':
            return v
        return self.emend(v)

    def emend(self, v):
        if v.op == 'str' and all(c.isascii() and (c.isalnum() or c == '_') for c in v.args[0]):
            return v
        if v.op == 'app' and v.args[0] == 'emend':
            return v
        return mk('app', 'emend', v)

    def std_ctor(self, ct, ty, e, args):
        from . import stdlib
        return stdlib.ctor(self, ct, ty, e, args)

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        c = e.get('c')
        self.callsites += 1
        if c is None:
            f = self.eval(e['fe'])
            return self.call_value(f, [self.evalloc(a) for a in e.get('args', [])], e)
        q, n = c['q'], c['n']
        if q == 'pooya::helper::pooya_throw_exception' and not self.raw:
            if self.eval_trace:
                [self.eval(a) for a in e['args']]
            raise ThrowEx(mk('pooyaerr'), self.where)
        if q == 'pooya::helper::pooya_show_warning' and not self.raw:
            self.event('warn', '', ())
            return VOID
        if c.get('ct') == 'pooya::helper::PooyaTracer' or c.get('cls') == 'pooya::helper::PooyaTracer':
            if self.eval_trace and not self.raw:
                [self.eval(a) for a in e.get('args', [])]
            if not (self.raw and self.stack and self.stack[0].fn.get('cls') == 'pooya::helper::PooyaTracer'):
                return VOID
        if c.get('lambda') and e.get('obj') is not None:
            t = self.eval(e['obj'])
            return self.call_value(t, [self.evalloc(a) for a in e.get('args', [])], e)
        if c.get('repo'):
            return self.repo_call(e, c)
        from . import stdlib
        return stdlib.call(self, e, c)

    l_call = e_call

    def call_value(self, f, args, e):
        if f.op == 'lam' and f in getattr(self, 'lams', {}):
            return self.call_lam(f, args)
        if f.op == 'fnref' and self.prog.body(f.args[0]):
            return self.invoke(self.prog.body(f.args[0]), NULL, args)
        vals = [self.argval(a) for a in args]
        ev = self.event('fn', 'fn', (f,) + tuple(vals), x=args)
        rt = (e.get('c') or {}).get('rt') or e.get('ty', '')
        ret = mk('ret', 'fn', f, tuple(vals), self.st.epoch, self.evid())
        self.settype(ret, rt)
        ev.ret = ret
        self.bump()
        if isref(rt):
            r = mk('cb', f)
            self.st.cells[r] = ret
            ev.x = args
            return loc(r)
        return ret

    def evid(self):
        return '%s%d' % (self.loopstack[-1].args[0] + ':' if self.loopstack else '', self.st.nev)

    def argval(self, a):
        """what an argument passes on: the object for polymorphic/library objects, else the value"""
        if a.op == 'loc':
            root, path = a.args
            if root.op == 'D' and not path:
                return root.args[0]
            return self.read(a)
        return a

    def objptr(self, e):
        o = e['obj']
        if e.get('arrow'):
            return self.eval(o)
        if o['k'] == 'this':
            return self.stack[-1].this
        return self.addr(self.evalloc(o))

    def repo_call(self, e, c):
        fid, n, cls = c['id'], c['n'], c.get('cls')
        args = e.get('args', [])
        prog = self.prog
        if not self.raw:
            if cls in prog.handles:
                r = self.handle_call(e, c)
                if r is not None:
                    return r
            elif cls and prog.derives(cls, 'pooya::ValueSignalImpl'):
                r = self.signal_call(e, c)
                if r is not None:
                    return r
            elif cls == 'pooya::ValidName':
                r = self.name_call(e, c)
                if r is not None:
                    return r
        f = prog.fns.get(fid)
        if e.get('obj') is not None or (cls and not c.get('static') and e.get('obj') is not None):
            p = self.objptr(e)
            isthis = p is self.this or p.op == 'this'
            if c.get('virt') and not e.get('qual'):
                if isthis and self.this_cls and prog.derives(self.this_cls, cls):
                    fid = prog.final(self.this_cls, fid)
                    f = prog.fns.get(fid)
                    if f is None or f.get('pure') or 'body' not in f or n in self.events_on_this:
                        return self.opaque(e, c, p)
                else:
                    ov = prog.overriders(fid)
                    dyn = self.dyntype(p)
                    if dyn:
                        fid = prog.final(dyn, fid)
                        f = prog.fns.get(fid)
                        if f is None or 'body' not in f:
                            return self.opaque(e, c, p)
                        return self.opaque(e, c, p)
                    if ov or (f and f.get('pure')) or self.is_extension_point(c):
                        return self.opaque(e, c, p)
            elif isthis and n in self.events_on_this and not e.get('qual'):
                return self.opaque(e, c, p)
            if c['q'] in self.noinline or f is None or 'body' not in f:
                return self.opaque(e, c, p)
            hk = self.hooks.get(f['q'])
            if hk:
                return hk(self, p, [self.evalloc(a) for a in args], f)
            if any(fr.fn['id'] == fid for fr in self.stack):
                return self.opaque(e, c, p, 'rec')
            locs = [self.evalloc(a) for a in args]
            if f.get('static'):
                p = NULL
            return self.invoke(f, p, locs)
        if c['q'] in self.noinline or f is None or 'body' not in f:
            if c.get('defaulted'):
                raise Undecided('defaulted ' + c['q'])
            vals = [self.eval(a) for a in args]
            ev = self.event('call', c['q'], tuple(vals))
            ev.ret = mk('ret', c['q'], tuple(vals), self.evid())
            self.settype(ev.ret, c.get('rt'))
            return ev.ret
        if any(fr.fn['id'] == fid for fr in self.stack):
            vals = [self.eval(a) for a in args]
            ev = self.event('rec', c['q'], tuple(vals))
            ev.ret = mk('ret', c['q'], tuple(vals), self.evid())
            return ev.ret
        return self.invoke(f, NULL, [self.evalloc(a) for a in args])

    def is_extension_point(self, c):
        """virtual functions of blocks are overridden by user code"""
        return bool(c.get('cls')) and self.prog.derives(c['cls'], 'pooya::Block')

    def dyntype(self, p):
        if p.op == 'new' and p.args[1] in self.prog.recs:
            return p.args[1]
        return None

    def opaque(self, e, c, p, kind='call'):
        """a call whose body is not looked into"""
        locs = [self.evalloc(a) for a in e.get('args', [])]
        vals = [self.argval(a) for a in locs]
        if c['n'] in ('visit', 'const_visit') and vals and vals[0].op == 'lam' and kind == 'call' and not (p is self.this and self.this_cls and 'visit' in self.events_on_this):
            return self.visit(e, c, p, vals)
        ev = self.event(kind, c['n'], (p,) + tuple(vals), x=(locs, c))
        rt = c.get('rt', '')
        pure = c.get('const') and kind == 'rec'
        ret = mk('ret', c['n'], (p,) + tuple(vals)) if pure else mk('ret', c['n'], (p,) + tuple(vals), self.evid())
        self.settype(ret, rt)
        ev.ret = ret
        # non-const reference arguments may be overwritten
        params = (self.prog.fns.get(c['id']) or {}).get('params', [])
        for i, (pr, l) in enumerate(zip(params, locs)):
            if isref(pr['ty']) and not pr['ty'].startswith('const') and l.args[0].op != 'D':
                nv = mk('ret', c['n'] + '.' + str(i), (p,) + tuple(vals), self.evid())
                self.settype(nv, pr['ty'])
                if l.args[1]:
                    self.st.cells[l.args[0]] = self.upd(self.rootval(l.args[0]), l.args[1], nv)
                else:
                    self.st.cells[l.args[0]] = nv
        if not pure and not (c.get('const') and not c.get('virt')):
            self.bump()
        if isref(rt):
            return self.deref(ret) if strip(rt) in self.prog.recs else self.temp(ret)
        return ret

    def visit(self, e, c, p, vals):
        """a visitor called for the object p and everything below it: a loop over its blocks"""
        lam = vals[0]
        plain = lambda v: self.read(v) if isinstance(v, T) and v.op == 'loc' else v
        maxl = plain(vals[2]) if len(vals) > 2 else None
        dom = mk('visited', p) if maxl is None or (is_num(maxl) and numval(maxl) >= 2**32 - 1) else mk('visited', p, plain(vals[1]), maxl)
        n = size(dom)
        r = L(self.stack[-1].id, 'visit%d' % self.st.nloop)
        self.st.cells[r] = ZERO

        def it():
            i = self.rootval(r)
            if not self.branch(lt(i, n)):
                raise ExhaustEx()
            b = at(dom, i)
            self.facts.ty.setdefault(b, 'pooya::Block *')
            self.facts.nonnulls.add(b)
            lv = mk('level', b)
            self.facts.ty.setdefault(lv, 'unsigned int')
            v = self.call_lam(lam, [loc(mk('D', b)), self.temp(lv)])
            if isinstance(v, T) and v.op == 'loc':
                v = self.read(v)
            if not self.branch(v):
                raise BreakEx()
            self.st.cells[r] = add(self.rootval(r), ONE)
        ok = {}
        try:
            self.loop(e, it, hidden=r, visited=(p, vals[1:], maxl))
        except ReturnEx:
            raise
        return mk('ret', 'visit', (p,), self.evid())

    # ------------------------------------------------------------ signals, handles, names as primitives
    def signal_call(self, e, c):
        n = c['n']
        if n not in ('get_value', 'set_value', 'clear', 'assigned', 'create_new', 'size', 'state_variable', 'deriv_signal', 'set_deriv_signal'):
            return None
        args = e.get('args', [])
        if n == 'create_new':
            vals = [self.eval(a) for a in args]
            self.st.nnew += 1
            return mk('new', 's%s' % self.evid() + '.%d' % self.st.nnew, c['cls'])
        p = self.objptr(e)
        if n == 'set_value':
            v = self.eval(args[0])
            self.sigset(p, v)
            return VOID
        if n == 'get_value':
            v = self.sigget(p, c['cls'])
            if args:
                return at(v, self.eval(args[0]))
            return v
        if n == 'clear':
            self.event('clear', 'clear', (p,))
            self.st.cells[H(p, '@assigned')] = FALSE
            self.st.cells.pop(H(p, '@value'), None)
            return VOID
        if n == 'assigned':
            v = self.rootval(H(p, '@assigned'))
            self.settype(v, 'bool')
            return v
        if n == 'size':
            v = self.rootval(H(p, '@size'))
            self.settype(v, 'unsigned long')
            return v
        if n in ('state_variable', 'deriv_signal'):
            v = self.rootval(H(p, '@deriv'))
            self.settype(v, c.get('rt'))
            return v
        if n == 'set_deriv_signal':
            v = self.eval(args[0])
            self.event('deriv', 'set_deriv_signal', (p, v))
            cl = self.facts.cls(p) or c['cls']
            return VOID
        return None

    def sigset(self, p, v):
        self.event('set', 'set', (p, v))
        self.st.cells[H(p, '@value')] = v
        self.st.cells[H(p, '@assigned')] = TRUE

    def sigget(self, p, cls=None):
        v = self.rootval(H(p, '@value'))
        ty = {'pooya::ScalarSignalImpl': 'double', 'pooya::IntSignalImpl': 'int', 'pooya::BoolSignalImpl': 'bool'}.get(self.facts.cls(p) or cls, None)
        if ty is None and cls:
            ty = {'pooya::ScalarSignalImpl': 'double', 'pooya::IntSignalImpl': 'int', 'pooya::BoolSignalImpl': 'bool'}.get(cls, 'array')
        self.settype(v, ty)
        self.event('get', 'get', (p, v))
        return v

    def handle_call(self, e, c):
        n, cls = c['n'], c['cls']
        args = e.get('args', [])
        if n == 'fail_if_invalid_signal_type':
            m = re.search(r'fail_if_invalid_signal_type<(.*)>\d*#?', c['id'])
            f = self.prog.fns.get(c['id'])
            impl = self.failtype(f)
            p = self.eval(args[0])
            if impl:
                self.check_type(p, impl)
                return VOID
            return None
        if e.get('obj') is None:
            return None
        l = self.deref(self.eval(e['obj'])) if e.get('arrow') and e['obj']['k'] != 'this' else (self.deref(self.stack[-1].this) if e['obj']['k'] == 'this' else self.evalloc(e['obj']))
        oty = strip(e['obj'].get('ty', '')) or cls
        v = self.read(l)
        self.settype(v, oty if oty in self.prog.handles else cls)
        if n in ('impl', 'operator*'):
            self.facts.nonnulls.add(v)
            return self.deref(v)
        if n == 'operator->':
            self.facts.nonnulls.add(v)
            return v
        if n == 'operator=':
            if not args:
                return None
            if cls == 'pooya::Bus' or c.get('cpasg') and cls in ('pooya::Signal',):
                self.write(l, self.eval(args[0]))
                return l
            aty = strip(args[0].get('ty', ''))
            x = self.eval(args[0])
            if aty in self.prog.handles:
                x = self.sigget(x, self.prog.handles[aty])
            self.sigset(v, x)
            return VOID
        if n.startswith('operator ') and n != 'operator=':
            return self.sigget(v, self.prog.handles[cls])
        if n == 'reset':
            x = self.eval(args[0])
            impl = self.prog.handles[oty] if oty in self.prog.handles else self.prog.handles[cls]
            self.settype(x, args[0].get('ty'))
            self.check_type(x, impl)
            self.write(l, x)
            return VOID
        if n == 'update_typed_ptr':
            return VOID
        if n in ('at', 'operator[]') and cls == 'pooya::Bus':
            return self.busat(v, self.eval(args[0]), args[0])
        if n == 'operator[]' and self.prog.handles[cls] == 'pooya::ArraySignalImpl':
            return at(self.sigget(v, self.prog.handles[cls]), self.eval(args[0]))
        return None

    def busat(self, bus, key, arg):
        ty = strip(arg.get('ty', ''))
        if ty in INTS or key.op in ('num', 'poly', 'k'):
            r = fld(at(self.rootval(H(bus, '@signals')), key), 'second')
        else:
            r = mk('busat', bus, key)
        self.facts.ty.setdefault(r, 'pooya::Signal')
        self.facts.nonnulls.add(r)
        return r

    def failtype(self, f):
        """the class a type check tests for, from its body"""
        if f is None or 'body' not in f:
            return None
        st = [f['body']]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'dyncast':
                    return strip(strip(x['to'])[:-1]) if strip(x['to']).endswith('*') else strip(x['to'])
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        return None

    def name_call(self, e, c):
        n = c['n']
        args = e.get('args', [])
        if n == 'emend':
            v = self.eval(args[0])
            if strip(args[0].get('ty', '')) == 'pooya::ValidName':
                return v
            return self.emend(v)
        if e.get('obj') is None:
            return None
        if n == 'str':
            return self.evalloc(e['obj']) if not e.get('arrow') else self.deref(self.eval(e['obj']))
        if n == 'operator=':
            l = self.evalloc(e['obj'])
            v = self.eval(args[0])
            if strip(args[0].get('ty', '')) != 'pooya::ValidName':
                v = self.emend(v)
            self.write(l, v)
            return l
        return None


def nosum(t):
    """sums over nothing are zero"""
    m = {}
    for s in subterms(t):
        if s.op == 'wsum' and s.args[0].op == 'empty':
            m[s] = ZERO
    return subst(t, m) if m else t


def simplify(d):
    """merge alternatives that differ in the sign of one condition, drop those that others cover"""
    d = set(d)
    while True:
        hit = None
        for a in d:
            for l in a:
                b = (a - {l}) | {notb(l)}
                if b in d:
                    hit = (a, b, a - {l})
                    break
                r = [x for x in d if x is not a and notb(l) in x and x - {notb(l)} <= a - {l}]
                if r:
                    hit = (a, None, a - {l})
                    break
            if hit:
                break
        if not hit:
            break
        d -= {hit[0], hit[1]}
        d.add(hit[2])
    return frozenset(a for a in d if not any(b < a for b in d))


def contains_any(t, xs):
    return any(s in xs for s in subterms(t))


def mentions_uid(t, uid):
    """does a term depend on a value carried by (or computed inside) loop uid"""
    for s in subterms(t):
        if s.op == 'mu' and s.args[0] == uid:
            return True
    return False


def mentions_uid2(t, uid):
    return mentions_uid(t, uid)
