"""C29: the traceback mirrors the active calls, and errors carry it"""
import itertools
from lib import *
from words import *

RULE = """Entering, updating and leaving a traced scope (the tracer's constructors, its other functions and its destructor) and the texts of the traceback and of an error are summarised
path by path with nothing hidden.  The summaries are followed on every admissible sequence of enter / update / leave steps of bounded length; after each step the text of the traceback,
and of an error raised then, must show the entries of the scopes that are active, most recent first, each with its own location and message, after the error's own location and message.
In every function of the library: tracers are automatic objects (no temporaries, copies, members, statics, heap), every tracer is given its information in its own scope, an update
happens only while a tracer of the same function (or lambda) is alive, the location passed along is the one of the call, and the traceback is changed by nothing but tracers.
Raising an error leaves on every path by an exception derived from std::runtime_error; a warning on none.  Automatic objects are destroyed exactly once, in reverse order, however their
scope is left: that is the language's rule."""
ASSUME = ['memory suffices for the texts', 'calls nest (one thread)']
TR = 'pooya::helper::PooyaTracer'
ERRS = {'std::runtime_error', 'std::range_error', 'std::overflow_error', 'std::underflow_error', 'std::system_error', 'std::regex_error'}
THROW, WARN = 'pooya::helper::pooya_throw_exception', 'pooya::helper::pooya_show_warning'
DEPTH = 5


class Trace(Words):
    """the traceback and the fields of a tracer"""

    def __init__(self, glob, entries, own, given):
        Words.__init__(self, given)
        self.bind[mk('ld', glob)] = mk('lst', tuple(entries))
        for a, v in own.items():
            self.bind[a] = v

    def seq(self, v):
        if v in self.bind:
            v = self.bind[v]
        if v.op == 'fld' or v.op == 'at':
            x = self.norm(v)
            if x is not v:
                return self.seq(x)
            r = self.field(v)
            if r is not None:
                return self.seq(r)
        return Words.seq(self, v)

    def field(self, v):
        """a field of a record"""
        if v.op != 'fld':
            return None
        r = v.args[0]
        if r.op == 'fld':
            r = self.field(r) or r
        if r.op == 'rec':
            return dict(r.args[0]).get(v.args[1], mk('str', ''))
        return None

    exc = 0

    def value(self, t):
        if t.op == 'ret' and str(t.args[0]).startswith('std::uncaught_exception'):
            return Fr(self.exc) if t.args[0].endswith('s') else bool(self.exc)
        if t.op == 'fld':
            x = self.norm(t)
            r = self.field(x)
            if r is not None:
                return self.number(r)
        return Words.value(self, t)

    def item(self, t):
        """an entry as a record of known texts and numbers"""
        while t.op == 'upd' or t.op != 'rec':
            if t.op == 'upd':
                d = dict(self.item(t.args[0]).args[0])
                d[t.args[1]] = t.args[2]
                return self.item(rec(d))
            x = self.norm(t)
            if x is t:
                raise Unknown('entry %s' % show(t))
            t = x
        d = {}
        for k, v in t.args[0]:
            s = self.seq(v)
            d[k] = mk('lst', tuple(s)) if s is not None else num(self.number(v))
        return rec(d)


class State_:
    def __init__(self, entries, tracers, ref):
        self.entries, self.tracers, self.ref = entries, tracers, ref


class Follow:
    exc, excs = 0, (0,)

    def __init__(self, ctx, P):
        self.ctx, self.P, self.sums = ctx, P, {}
        ms = P.methods.get(TR, [])
        self.ctors = [m for m in ms if m.get('isctor') and 'body' in m and not m.get('copy') and not m.get('move') and not m.get('implicit')]
        self.dtor = [m for m in ms if m['n'].startswith('~') and 'body' in m]
        self.upd = [m for m in ms if not m.get('isctor') and not m['n'].startswith('~') and 'body' in m and len(m['params']) == 3]
        if not self.ctors or len(self.dtor) != 1:
            raise Broken('no constructor or destructor of %s' % TR)
        gs = {r for m in self.ctors for o in self.outs(m) for r in o.cells if r.op == 'G'}
        if len(gs) != 1:
            raise Maybe('entering a scope changes %s' % sorted(show(g) for g in gs))
        self.G = list(gs)[0]
        [self.outs(f) for f in self.upd + self.dtor]

    def outs(self, f):
        if f['id'] not in self.sums:
            I = Interp(self.P, f.get('cls'), raw=True)
            o = I.run(f['id'])
            self.ctx.note(I, o)
            self.sums[f['id']] = o
            if any(s.op == 'ret' and str(s.args[0]).startswith('std::uncaught_exception') for x in o for c in x.conds for s in subterms(c)):
                self.excs = (0, 1)
        return self.sums[f['id']]

    def given(self, f, info):
        g, b = {}, {}
        if info is None:
            return g, b
        for p in f['params']:
            s = strip(p['ty'])
            if s.startswith(('std::basic_string', 'const char', 'char')):
                k = 'file' if not any(v == info[0] for v in g.values()) else 'msg'
                g[sym(p['n'])] = info[0] if k == 'file' else info[2]
            else:
                b[sym(p['n'])] = num(info[1])
        return g, b

    def step(self, f, st, own, info=None):
        g, b = self.given(f, info)
        m = Trace(self.G, st, own, g)
        m.bind.update(b)
        m.exc = self.exc
        o = m.start(self.outs(f))
        if o.kind not in ('return', 'ok'):
            return None, None, o
        v = o.cells.get(self.G)
        new = m.seq(v) if v is not None else list(st)
        if new is None:
            raise Unknown('traceback %s' % show(v)[:300])
        new = [m.item(x) for x in new]
        mine = dict(own)
        for r, v in o.cells.items():
            if r.op == 'H' and r.args[0] is this:
                s = m.seq(v)
                mine[mk('ld', r)] = mk('lst', tuple(s)) if s is not None else num(m.number(v))
        return new, mine, o

    def text(self, f, st, given, get):
        m = Trace(self.G, st, {}, given[0])
        m.bind.update(given[1])
        o = m.start(self.outs(f))
        return m.text(get(o)) if get(o) is not None else None, o


def check(ctx):
    P = ctx.D
    ctx.cls(TR, P)
    ctx.each('scopes', TR, scopes, ctx, P)
    for P in (ctx.R, ctx.D):
        ctx.each('errors (%s)' % P.config, THROW, errors, ctx, P)
        ctx.each('warnings (%s)' % P.config, WARN, warnings, ctx, P)
        sites(ctx, P)


def scopes(ctx, P):
    F = Follow(ctx, P)
    info_f = [f for f in P.fns.values() if 'body' in f and not f['params'] and F.G in {s for o in quick(ctx, P, f) for s in subterms(o.val) if s.op == 'G'}]
    thr = ctx.fn(THROW, P, 3)
    direct = [m for m in F.ctors if len(m['params']) == 3]
    plain = [m for m in F.ctors if not m['params']]
    if not (plain and F.upd) and not direct:
        raise Maybe('how a scope is entered')
    w = ctx.where(F.ctors[0])
    cnt = [0]
    what = 'entering, updating and leaving a scope keep exactly the entries of the active scopes'
    wtxt = 'the traceback and errors show the active scopes, most recent first, each with its own information'
    ok = [True]

    def show_(st, ref, hist):
        # the error text at this point
        mark = ('errfile.cpp', 977, 'errmsg')
        g, b = F.given(thr, mark)
        o = None
        try:
            t, o = F.text(thr, st, (g, b), lambda o: what_text(o))
        except (Unknown, Stuck, Endless) as x:
            ctx.undecided(wtxt, ctx.where(thr), 'after %s: %s %s' % (hist, type(x).__name__, str(x)[:500]))
            ok[0] = None
            return
        if t is None:
            ctx.undecided(wtxt, ctx.where(thr), 'text of %s' % showout(o)[:500])
            ok[0] = None
            return
        bad = wrong(t, [mark] + [x for x in ref[::-1] if x])
        if bad:
            ctx.check(wtxt, ctx.where(thr), False, 'after %s the text of an error is %r: %s' % (hist, t, bad), [o])
            ok[0] = False

    def go(st, tracers, ref, hist, n):
        if not ok[0]:
            return
        show_(st, ref, hist)
        if n == (DEPTH if ctx.tier == "quick" else DEPTH + 2) or not ok[0]:
            return
        cnt[0] += 1
        i = len(hist)
        info = ('f%d.cpp' % i, 101 + i, 'm%d' % i)
        for kind, exc in itertools.product(('enter', 'enter quietly', 'enter only', 'update', 'update quietly', 'leave'), F.excs):
            if not kind.startswith('enter') and not tracers or kind == 'enter only' and direct:
                continue
            F.exc = exc
            s2, t2, r2 = list(st), list(tracers), list(ref)
            h2 = hist + [kind]
            try:
                x = info if 'quiet' not in kind else (info[0], info[1], '')
                if kind.startswith('enter'):
                    new, own, o = F.step(direct[0] if direct else plain[0], st, {}, x)
                    if new is not None and not direct:
                        if not same_entries(new[:-1], st) or len(new) != len(st) + 1:
                            return bad_(o, h2, new)
                        if kind != 'enter only':
                            new, own, o = F.step(F.upd[0], new, own, x)
                    t2, r2 = t2 + [own], r2 + [x if kind != 'enter only' else None]
                elif kind.startswith('update'):
                    if not F.upd:
                        continue
                    new, own, o = F.step(F.upd[0], st, tracers[-1], x)
                    t2[-1] = own
                    r2[-1] = x
                else:
                    new, own, o = F.step(F.dtor[0], st, tracers[-1])
                    t2, r2 = t2[:-1], r2[:-1]
            except (Unknown, Stuck, Endless) as x:
                ctx.undecided(what, w, 'after %s: %s %s' % (h2, type(x).__name__, str(x)[:500]))
                ok[0] = None
                return
            if new is None or len(new) != len(r2) or not same_entries(new[:len(r2) - 1], st[:len(r2) - 1]):
                return bad_(o, h2, new)
            if kind == 'leave' and not same_entries(new, st[:len(r2)]):
                return bad_(o, h2, new)
            go(new, t2, r2, h2, n + 1)

    def bad_(o, h, new):
        ok[0] = False
        ctx.check(what, ctx.where(F.ctors[0]), False, 'after %s the traceback has %s' % (h, 'an exception' if new is None else '%d entries: %s' % (len(new), [show(x) for x in new])) + '\n' + showout(o)[:1500], [o])

    go([], [], [], [], 0)
    if ok[0]:
        ctx.hold(what, w)
        ctx.hold(wtxt, ctx.where(thr))
    for f in info_f:
        # the traceback's own text
        st = [rec({})] * 0
        e, mine, o = [], None, None
        ref = []
        for i in range(3):
            info = ('f%d.cpp' % i, 101 + i, 'm%d' % i)
            e, mine, o = F.step(direct[0] if direct else plain[0], e, {}, info)
            if not direct and e is not None:
                e, mine, o = F.step(F.upd[0], e, mine, info)
            if e is None:
                return
            ref.append(info)
        t, o = F.text(f, e, ({}, {}), lambda o: o.val)
        bad = wrong(t, ref[::-1])
        ctx.check('the text of the traceback lists the scopes, most recent first', ctx.where(f), not bad, '%r: %s' % (t, bad), [o])


def quick(ctx, P, f):
    if 'basic_string' not in f.get('rt', '') or f.get('cls') or not f['q'].startswith('pooya::helper::'):
        return []
    I = Interp(P, None, raw=True)
    o = I.run(f['id'])
    ctx.note(I, o)
    return [x for x in o if isinstance(x.val, T)]


def same_entries(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def what_text(o):
    """the text of the exception"""
    if o.kind != 'throw':
        return None
    v = getattr(o.val, 'what', o.val)
    if isinstance(v, T) and v.op == 'app' and v.args[0] in ERRS and len(v.args) == 2:
        return v.args[1]
    return None


def wrong(t, infos):
    """do the texts appear in this order, each exactly once"""
    p = 0
    for f, l, m in infos:
        s = '%s:%d' % (f, l)
        i = t.find(s, p)
        if i < 0 or t[i + len(s):i + len(s) + 1].isdigit():
            return 'no %s at its place' % s
        if t.count(s) != 1:
            return '%s more than once' % s
        if m:
            j = t.find(m, i)
            if j < 0 or t.count(m) != 1:
                return 'the message %r of %s is not at its place' % (m, s)
            i = j
        p = i
    return None


def errors(ctx, P):
    for f in [f for f in P.fns.values() if f['q'] == THROW and 'body' in f]:
        w = ctx.where(f)
        I = Interp(P, None, raw=True)
        outs = I.run(f['id'])
        ctx.note(I, outs)
        for o in outs:
            v = getattr(o.val, 'what', o.val)
            ok = o.kind == 'throw'
            if ok:
                ok = None
                if isinstance(v, T) and v.op == 'app' and isinstance(v.args[0], str):
                    ok = v.args[0] in ERRS
            ctx.check('reporting an error raises a runtime error (%s)' % P.config, w, ok, showout(o), [o])
        if P.config == 'debug':
            continue
        what = 'the text of an error has its location and message (release)'
        for info in [('x.cpp', 1, 'm'), ('some/dir/file.cpp', 1234, 'Oh no: it is 100% wrong'), ('a', 7, '')]:
            g = {}
            b = {}
            for p in f['params']:
                if strip(p['ty']).startswith(('std::basic_string', 'const char')):
                    g[sym(p['n'])] = info[0] if not g else info[2]
                else:
                    b[sym(p['n'])] = num(info[1])
            m = Words(g)
            m.bind.update(b)
            try:
                o = m.start(outs)
                if what_text(o) is None:
                    raise Unknown(showout(o))
                t = m.text(what_text(o))
            except (Unknown, Stuck, Endless) as x:
                ctx.undecided(what, w, '%s %s' % (type(x).__name__, str(x)[:300]))
                return
            bad = None if '%s:%d' % info[:2] in t and info[2] in t else 'not in the text'
            if bad:
                ctx.check(what, w, False, 'for %s the text is %r' % (info, t), [o])
                return
        ctx.hold(what, w)


def warnings(ctx, P):
    for f in [f for f in P.fns.values() if f['q'] == WARN and 'body' in f]:
        w = ctx.where(f)
        I = Interp(P, None, raw=True)
        outs = I.run(f['id'])
        ctx.note(I, outs)
        for o in outs:
            ctx.check('reporting a warning raises nothing (%s)' % P.config, w, o.kind != 'throw', showout(o), [o])


# ---------------------------------------------------------------- the functions of the library
READING = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'front', 'back', 'at', 'operator[]', 'capacity', 'data', 'max_size'}


def info_args(c, e):
    """literal file and line among the arguments"""
    a = e.get('args', [])
    fl = ln = None
    for x in a:
        s = lit(x)
        if isinstance(s, str) and fl is None and ln is None:
            fl = s
        elif isinstance(s, int) and ln is None:
            ln = s
    return fl, ln


def lit(x):
    if x.get('k') == 'str':
        return x['v']
    if x.get('k') == 'int' and not x.get('chr'):
        return int(x['v'])
    if x.get('k') == 'cast':
        return lit(x['e'])
    if x.get('k') == 'ctor' and 'basic_string' in x.get('ty', '') and x.get('args'):
        return lit(x['args'][0])
    return None


def sites(ctx, P):
    F = {m['id'] for m in P.methods.get(TR, [])}
    glob = None
    if P.config == 'debug':
        try:
            glob = Follow(ctx, P).G.args[0]
        except Maybe:
            pass
    for f in P.fns.values():
        if 'body' not in f or '/src/' not in (f.get('file') or ''):
            continue
        S = Sites(ctx, P, f, glob)
        S.visit(f['body'], None)
        for i in f.get('inits', []):
            S.visit(i, None)
        if S.n:
            ctx.functions.add(f['id'])
            ctx.ncalls += S.n
            for what, ok, why in S.found:
                ctx.check('%s (%s)' % (what, P.config), ctx.where(f), ok, why)
            for what in sorted(S.kinds - {x[0] for x in S.found}):
                ctx.hold('%s (%s)' % (what, P.config), ctx.where(f))
    for n, r in P.recs.items():
        for fd in r['fields']:
            if strip(fd['ty']) == TR or TR in fd['ty']:
                ctx.check('tracers are automatic objects (%s)' % P.config, '%s:%s %s' % (short(r['file']), fd['l'], n), False, 'a member is a tracer')


class Sites:
    def __init__(self, ctx, P, f, glob):
        self.ctx, self.P, self.f, self.glob = ctx, P, f, glob
        self.found, self.kinds, self.n = [], set(), 0
        self.file = short(f.get('file') or '')

    def bad(self, what, why):
        self.found.append((what, False, why))

    def visit(self, x, scope):
        """scope: the tracers alive here, innermost last (None: none yet); lists are shared with the enclosing block"""
        if isinstance(x, list):
            for y in x:
                self.visit(y, scope)
            return
        if not isinstance(x, dict):
            return
        scope = scope if scope is not None else []
        k = x.get('k')
        if k == 'lambda':
            self.inner(x.get('body'), [])
            for a, y in x.items():
                if a != 'body':
                    self.visit(y, scope)
            return
        if k == 'decl' and TR in x.get('ty', ''):
            self.n += 1
            self.kinds |= {'tracers are automatic objects', 'every tracer is given its information'}
            if x.get('static'):
                self.bad('tracers are automatic objects', 'line %s: a static tracer' % x.get('l'))
            if strip(x['ty']) != TR:
                self.bad('tracers are automatic objects', 'line %s: %s' % (x.get('l'), x['ty']))
            i = x.get('init') or {}
            c = i.get('c') or {}
            t = dict(line=x.get('l'), told=bool(i.get('args')))
            if i.get('k') == 'ctor' and i.get('args') and TR in (i['args'][0].get('ty') or ''):
                self.bad('tracers are automatic objects', 'line %s: a copy of a tracer' % x.get('l'))
            elif i.get('k') == 'ctor' and i.get('args'):
                self.location(i, x.get('l'))
            for a in i.get('args', []):
                self.visit(a, scope)
            scope.append(t)
            self.last = t
            return
        if k == 'ctor' and (x.get('c') or {}).get('cls') == TR:
            self.n += 1
            self.bad('tracers are automatic objects', 'line %s: a tracer that is gone at the end of the expression' % x.get('l'))
            self.kinds.add('tracers are automatic objects')
        if k == 'new' and TR in str(x.get('ty', '')):
            self.n += 1
            self.bad('tracers are automatic objects', 'line %s: a tracer on the heap' % x.get('l'))
        if k == 'call':
            c = x.get('c') or {}
            if c.get('cls') == TR and not c['n'].startswith('~'):
                self.n += 1
                what = 'information goes to the entry of the scope that gives it'
                self.kinds.add(what)
                if self.f.get('cls') == TR:
                    pass
                elif not scope:
                    self.bad(what, 'line %s: no tracer of this function is alive, so the entry of a caller is changed' % x.get('l'))
                else:
                    scope[-1]['told'] = True
                self.location(x, x.get('l'))
            elif c.get('q') in (THROW, WARN):
                self.n += 1
                self.location(x, x.get('l'))
            o = x.get('obj')
            if self.glob and isinstance(o, dict) and o.get('k') == 'gvar' and o.get('q') == self.glob and self.f.get('cls') != TR:
                self.n += 1
                what = 'nothing but tracers changes the traceback'
                self.kinds.add(what)
                if c.get('n') not in READING and not c.get('const'):
                    self.bad(what, 'line %s: %s' % (x.get('l'), c.get('n')))
        if k == 'bin' and x.get('op') == '=' and self.glob and isinstance(x.get('a'), dict) and x['a'].get('k') == 'gvar' and x['a'].get('q') == self.glob:
            self.n += 1
            self.bad('nothing but tracers changes the traceback', 'line %s: assigned' % x.get('l'))
        if k == 'block' and not x.get('noscope') or k in ('if', 'for', 'while', 'do', 'rfor', 'range', 'try', 'catch', 'switch'):
            self.inner({a: y for a, y in x.items()}, list(scope), True)
            return
        for a, y in x.items():
            self.visit(y, scope)

    def inner(self, x, scope, fields=False):
        n = len(scope)
        if fields:
            for a, y in x.items():
                self.visit(y, scope)
        else:
            self.visit(x, scope)
        for t in scope[n:]:
            if not t['told']:
                self.bad('every tracer is given its information', 'line %s: the entry stays empty' % t['line'])

    def location(self, e, l):
        what = 'the location is the one of the call'
        fl, ln = info_args(None, e)
        if fl is None or ln is None:
            return
        self.kinds.add(what)
        if not (short(fl) == self.file or fl.endswith(self.file)):
            self.bad(what, 'line %s: file %s' % (l, fl))
        elif not l <= ln <= l + 12:      # the call may take several lines
            self.bad(what, 'line %s: line %s' % (l, ln))
