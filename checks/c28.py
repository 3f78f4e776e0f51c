"""C28: debug checks only check"""
import multiprocessing, re
from lib import *
from algebra import *

RULE = """Every function of the library is summarised path by path in both build modes and the two sets of paths are compared.  For each way a debug build leaves the function normally,
the release paths its conditions allow must end the same way, with the same result, the same effects in the same order (signals set, blocks called, things created, callbacks, stores,
fields) and the same final values of everything that outlives the call.  Reading, printing and error texts are not effects; the conditions of checks are.  What a trace or a debug message
evaluates must be free of effects: every function it calls (transitively) is summarised and must change nothing.  Records, virtual functions, enumerations and constants must agree."""
ASSUME = ['printing and reading are no effects', 'what the user supplies (callbacks, overrides) behaves the same in both builds']
SKIP = 'pooya::helper::Pooya'
TR = 'pooya::helper::PooyaTracer'
DROP = {'get', 'warn'}


class Norm:
    """terms without the numbering of epochs, frames and loops: locals and loops are numbered as they are met"""

    def __init__(self, ctx, o, up=None):
        self.ctx = ctx
        self.loc, self.memo, self.of = dict(up.loc) if up else {}, {}, dict(up.of) if up else {}
        self.of.update(o.st.loops)
        for e, lo in walk(o.events):
            if e.kind == 'loop':
                self.of[e.x.uid] = e.x

    def t(self, x):
        if isinstance(x, tuple):
            return tuple(self.t(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(self.t(y) for y in x)
        if not isinstance(x, T):
            return x
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self.one(x)
        return r

    def ordered(self, cells):
        """memory cells in the same order in both builds; only the numbered locals"""
        loc = sorted((n, r) for r, n in self.loc.items() if isinstance(r, T) and r in cells)
        return [(r, cells[r]) for n, r in loc] + sorted(((r, v) for r, v in cells.items() if isinstance(r, T) and r.op not in ('L', 't')), key=lambda x: x[0].key)

    def uid(self, u):
        return self.loc.setdefault(('uid', u), len(self.loc))

    def one(self, x):
        if x.op == 'ep':
            return mk('ep')
        if x.op == 'L':
            return mk('L', self.loc.setdefault(x, len(self.loc)))
        if x.op in ('k', 'kend'):
            return mk(x.op, self.uid(x.args[0]))
        if x.op in ('mu', 'mufin'):
            return mk(x.op, self.uid(x.args[0]), self.t(x.args[1]))
        if x.op == 'ret':
            return mk('ret', x.args[0], self.t(x.args[1]))
        if x.op == 'ld' and len(x.args) > 1 and x.args[1].op == 'ep':
            return mk('ld', self.t(x.args[0]))
        return rebuild(x, self.t)

    def loops(self):
        return {n: self.of.get(k[1]) for k, n in self.loc.items() if isinstance(k, tuple)}


class Pair:
    """what the two builds have in common"""

    def __init__(self, pure, only):
        self.memo = {}
        self.pure, self.only = pure, only      # functions without effects; members of one build only

    def quiet(self, lp):
        """a loop that only reads, prints or checks"""
        if lp.exit[0] != 'exhaust':
            return False
        for o in lp.outs:
            if o.kind == 'throw' and iserr(o):
                continue
            if o.kind not in ('ok', 'exhaust', 'next', 'continue'):
                return False
            for e in o.events:
                if e.kind in DROP or (e.kind == 'rec' and e.name in self.pure) or self.mine(e):
                    continue
                if e.kind == 'loop' and self.quiet(e.x):
                    continue
                return False
        return True

    def mine(self, e):
        return e.kind in ('store', 'fset') and e.args and isinstance(e.args[0], T) and self.own(e.args[0])

    def own(self, r):
        """is it (in) a member that one of the builds does not have"""
        return any(s.op == 'H' and len(s.args) > 1 and (s.args[0].op, s.args[1]) and str(s.args[1]).lstrip('@') in self.only for s in subterms(r) if s.args and isinstance(s.args[0], T))

    def effects(self, events, nm):
        out = []
        for e in events:
            if e.kind in DROP or (e.kind == 'rec' and e.name in self.pure) or self.mine(e):
                continue
            if e.kind == 'loop':
                if not self.quiet(e.x):
                    out.append(('loop', e.x.exit[0], (mk('loop', nm.uid(e.x.uid)),)))
                continue
            out.append((e.kind, e.name, tuple(nm.t(a) for a in e.args)))
        return tuple(out)

    def outcome(self, o, up=None, ctx=None):
        nm = Norm(ctx, o, up)
        ev = self.effects(o.events, nm)
        val = nm.t(o.val) if isinstance(o.val, T) else None
        cells = {}
        for r, v in nm.ordered(o.cells):
            if r.op == 'L' and up is not None and r in up.loc:
                pass
            elif r.op in ('L', 't') or v is mk('ld', r) or (r.op == 'D' and any(s.op in ('mu', 'L', 'mapptr', 'k') for s in subterms(r))):
                continue
            if self.own(r):
                continue
            x, y = nm.t(r), nm.t(v)
            if y is mk('ld', x) or y is x:
                continue
            cells[x] = y
        return (o.kind, val, ev, frozenset(cells.items())), nm

    # ------------------------------------------------------------ two sets of paths
    def match(self, ro, do, facts, ur=None, ud=None, seen=frozenset(), cr=frozenset(), cd=frozenset()):
        """(True / False / None, why): does every path of the debug build go as those of the release build"""
        rk = [(self.outcome(o, ur), o) for o in ro]
        und = None
        for d in do:
            if d.kind == 'throw' and iserr(d):
                continue
            kd, nd = self.outcome(d, ud)
            cond = cd | {nd.t(c) for c in d.conds}
            comp, eq = [], False
            for (kr, nr), o in rk:
                crr = cr | {nr.t(c) for c in o.conds}
                if clash(o, d, crr, cond, facts):
                    continue
                v, w = self.same(kd, kr, nd, nr, facts, seen, cond, crr)
                if crr <= cond and v is True:
                    eq = True
                    break
                comp.append((v, w, crr, o))
            if eq or (comp and all(v is True for v, _, _, _ in comp)):
                continue
            where = 'debug: %s\n' % showout(d)[:1500]
            u = d.unk or [u for _, _, _, o in comp for u in o.unk]
            if u:
                und = 'not understood: %s' % (u[0],)
                continue
            if not comp:
                und = 'no release path goes with %s' % where
                continue
            exact = [c for c in comp if c[2] <= cond]
            for v, w, _, o in exact:
                if v is False:
                    return False, '%s\n%srelease: %s' % (w, where, showout(o)[:1500])
            if exact:
                und = 'a result not compared: %s' % exact[0][1]
                continue
            if all(v is False for v, _, _, _ in comp):
                return False, '%s\n%srelease: %s' % (comp[0][1], where, showout(comp[0][3])[:1500])
            for v, w, crr, o in comp:
                if v is not False:
                    continue
                extra = [c for c in crr - cond if c.op not in ('lexit', 'loopset')]
                if independent(extra, cond):
                    return False, 'when %s: %s\n%srelease: %s' % (' and '.join(show(c) for c in extra), w, where, showout(o)[:1500])
                und = 'conditions not compared: %s' % where
            und = und or 'a result not compared: %s' % comp[0][1]
        return (None, und) if und else (True, '')

    def same(self, kd, kr, nd, nr, facts, seen, cd, cr):
        if kd != kr:
            v = differs(kd, kr)
            return (None if v is None else not v), why(kd, kr)
        done, res = set(), None
        while True:
            ln, dn = nr.loops(), nd.loops()
            todo = [n for n in sorted(set(ln) | set(dn)) if n not in done]
            size = len(nr.loc), len(nd.loc)
            for n in todo:
                done.add(n)
                v, w = self.loop(ln.get(n), dn.get(n), nd, nr, facts, seen, cd, cr)
                if v is False:
                    return v, w
                res = res or (w if v is None else None)
            if (len(nr.loc), len(nd.loc)) == size:
                return (None, res) if res else (True, '')

    def loop(self, a, b, nd, nr, facts, seen, cd, cr):
        if a is None or b is None:
            return (True, '') if a is b else (None, 'a loop of one build only')
        if (a.uid, b.uid) in seen:
            return True, ''
        seen = seen | {(a.uid, b.uid)}
        ia = {nr.t(c): nr.t(v) for c, v in nr.ordered(a.init) if not self.own(c)}
        ib = {nd.t(c): nd.t(v) for c, v in nd.ordered(b.init) if not self.own(c)}
        for c in [c for c in set(ia) ^ set(ib) if c.op == 'L']:
            ia.pop(c, None), ib.pop(c, None)
        for c in sorted(set(ia) | set(ib), key=lambda c: c.key):
            x, y = ia.get(c, mk('ld', c)), ib.get(c, mk('ld', c))
            if x is not y:
                v = unlike(x, y)
                if v is not False:
                    return (False if v else None), 'the loop starts with %s = %s in the debug build and %s in the release build' % (show(c), show(y), show(x))
        if nr.t(a.n) is not nd.t(b.n):
            return None, 'loops over different things'
        key = (id(a), id(b), tuple(nr.loc.get(c) for c in a.init if isinstance(c, T)), tuple(nd.loc.get(c) for c in b.init if isinstance(c, T)))
        if key not in self.memo:
            self.memo[key] = self.match(a.outs, b.outs, facts, nr, nd, seen, cr, cd)
        return self.memo[key]


def independent(extra, cond):
    """are the extra conditions about things of which nothing is known"""
    mine = {c.args[0] if c.op in ('cmp', 'not') else c for c in cond}
    if extra and all(c.op == 'cmp' and c.args[0] in mine for c in extra):
        return True
    known = {s for c in cond for s in subterms(c) if s.op in ('H', 'ld', 'A')}
    return bool(extra) and all(not any(s in known for s in subterms(c) if s.op in ('H', 'ld', 'A')) and not any(s.op in ('mu', 'mufin', 'L') for s in subterms(c)) for c in extra)


def iserr(o):
    v = getattr(o.val, 'what', o.val)
    return isinstance(v, T) and v.op in ('pooyaerr', 'str') or (isinstance(v, tuple) and v and isinstance(v[0], T))


def why(a, b):
    """in what two outcomes differ"""
    if a[0] != b[0]:
        return 'it ends by %s in the debug build and by %s in the release build' % (a[0], b[0])
    if a[1] is not b[1]:
        return 'the results differ: %s and %s (release)' % (show(a[1]) if a[1] is not None else None, show(b[1]) if b[1] is not None else None)
    if a[2] != b[2]:
        x, y = [e for e in a[2] if e not in b[2]], [e for e in b[2] if e not in a[2]]
        return 'effects only in the debug build: %s; only in the release build: %s%s' % (say(x), say(y), '' if x or y else ' (another order)')
    x, y = a[3] - b[3], b[3] - a[3]
    return 'left behind in the debug build: %s; in the release build: %s' % (['%s = %s' % (show(r), show(v)) for r, v in x], ['%s = %s' % (show(r), show(v)) for r, v in y])


def say(es):
    return ['%s %s%s' % (e[0], e[1], tuple(show(a) for a in e[2])) for e in es]


def differs(a, b):
    """True / False / None: do two outcomes differ"""
    if a[0] != b[0]:
        return True
    if (a[1] is None) != (b[1] is None):
        return True
    res = []
    if a[1] is not b[1]:
        res.append(unlike(a[1], b[1]))
    if a[2] != b[2]:
        x, y = [e[:2] for e in a[2]], [e[:2] for e in b[2]]
        if x != y:
            return True
        for e, f in zip(a[2], b[2]):
            if e != f:
                res += [unlike(p, q) for p, q in zip(e[2], f[2]) if p is not q] + ([True] if len(e[2]) != len(f[2]) else [])
    da, db = dict(a[3]), dict(b[3])
    for r in set(da) | set(db):
        x, y = da.get(r, mk('ld', r)), db.get(r, mk('ld', r))
        if x is not y:
            res.append(True if (r in da) != (r in db) and unlike(x, y) is not False else unlike(x, y))
    if True in res:
        return True
    return None if None in res else False


def unlike(x, y):
    try:
        e = equal(x, y)
    except Exception:
        e = None
    return None if e is None else not e


def clash(r, d, cr, cd, facts):
    """do the two sets of conditions exclude each other"""
    pc = d.st.pc.copy()
    for c in r.conds:
        if c.op in ('lexit', 'loopset'):
            continue
        v = pc.decide(c, facts)
        if v is False:
            return True
        if v is None:
            pc.assume(c, True, facts)
    for c in cr:
        if c not in cd and neg(c) in cd:
            return True
    return False


def neg(c):
    return c.args[0] if c.op == 'not' else mk('not', c)


def compare(args):
    fid, pure, only = args
    R, D = PG.load('release'), PG.load('debug')
    f, g = R.fns[fid], D.fns[fid]
    try:
        I = Interp(R, f.get('cls'))
        ro = I.run(fid)
        J = Interp(D, g.get('cls'))
        do = J.run(fid)
        ok, detail = Pair(pure, only).match(ro, do, J.facts)
    except (Undecided, RecursionError) as x:
        return fid, None, 'not summarised: %s' % x, 0, set(), 0
    except Exception as x:
        import traceback
        return fid, None, 'internal: %s' % traceback.format_exc()[-800:], 0, set(), 0
    return fid, ok, detail, len(ro) + len(do), I.functions | J.functions, I.callsites + J.callsites


def library(f):
    return 'body' in f and '/src/' in (f.get('file') or '') and not f['q'].startswith(SKIP)


def check(ctx):
    R, D = ctx.R, ctx.D
    P = Purity(ctx, D)
    pure = P.recursive()
    common = [fid for fid in sorted(R.fns) if library(R.fns[fid]) and fid in D.fns and 'body' in D.fns[fid]]
    if len(common) < 200:
        raise Broken('only %d functions in both builds' % len(common))
    only = {x['f'] for A, B in ((R, D), (D, R)) for n, r in A.recs.items() if n in B.recs for x in r['fields'] if x['f'] not in {y['f'] for y in B.recs[n]['fields']}}
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for fid, ok, detail, n, fs, cs in pool.imap_unordered(compare, [(x, pure, only) for x in common], chunksize=4):
            ctx.npaths += n
            ctx.functions |= fs
            ctx.ncalls += cs
            ctx.check('both builds do the same', ctx.where(R.fns[fid]), ok, detail)
    for A, B in ((R, D), (D, R)):
        for fid, f in A.fns.items():
            if library(f) and (fid not in B.fns or 'body' not in B.fns[fid]) and not f['q'].startswith('pooya::helper::'):
                if f.get('virtual') or f.get('over'):
                    ctx.check('both builds have the same virtual functions', ctx.where(f), False, 'defined in the %s build only' % A.config)
                elif f.get('isctor') or f['n'].startswith('~') or f['n'].startswith('operator'):
                    if not f.get('implicit') and not f.get('defaulted'):
                        ctx.check('both builds have the same special functions', ctx.where(f), None, 'defined in the %s build only' % A.config)
    for n in sorted(set(R.recs) | set(D.recs)):
        r, d = R.recs.get(n), D.recs.get(n)
        if n.startswith(SKIP) or not n.startswith('pooya::'):
            continue
        if r is None or d is None:
            continue
        w = '%s:%s %s' % (short(r['file']), r['l'], n)
        if r['bases'] != d['bases']:
            ctx.check('both builds have the same classes', w, False, 'bases %s and %s' % (r['bases'], d['bases']))
            continue
        fr = {x['f']: (x['ty'], plain(x.get('init'))) for x in r['fields']}
        fd = {x['f']: (x['ty'], plain(x.get('init'))) for x in d['fields']}
        bad = [k for k in fr if k in fd and fr[k] != fd[k]]
        ctx.check('both builds have the same classes', w, not bad, 'members that differ: %s' % bad)
    for q in sorted(set(R.enums) & set(D.enums)) if hasattr(R, 'enums') else ():
        ctx.check('both builds have the same enumerations', q, plain(R.enums[q]) == plain(D.enums[q]), '')
    tracing(ctx, D, P)


def plain(x):
    """a syntax tree without positions"""
    if isinstance(x, dict):
        return tuple(sorted((k, plain(v)) for k, v in x.items() if k not in ('l', 'el', 'id', 'file')))
    if isinstance(x, list):
        return tuple(plain(y) for y in x)
    return x


# ---------------------------------------------------------------- what traces and messages evaluate
MUT = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='}
STDMUT = {'push_back', 'emplace_back', 'pop_back', 'clear', 'erase', 'insert', 'emplace', 'resize', 'swap', 'reset', 'assign', 'append', 'push_front', 'pop_front', 'push', 'pop', 'exchange', 'move',
          'release', 'insert_or_assign', 'try_emplace', 'setZero', 'setConstant', 'fill'}


class Purity:
    def __init__(self, ctx, P):
        self.ctx, self.P, self.memo = ctx, P, {}

    def fn(self, fid):
        """True / None / a reason why calling it may change something"""
        if fid in self.memo:
            return self.memo[fid]
        self.memo[fid] = True       # recursion: as pure as the rest
        f = self.P.fns.get(fid)
        r = None
        if f is not None and 'body' in f:
            r = self.interp(f)
        self.memo[fid] = r
        return r

    def interp(self, f):
        I = Interp(self.P, f.get('cls'))
        try:
            outs = I.run(f['id'])
        except (Undecided, RecursionError):
            return None
        self.ctx.note(I, outs)
        for o in outs:
            if o.unk:
                return None
            for e, lo in walk(o.events):
                if e.kind in DROP or e.kind == 'loop':
                    continue
                if e.kind == 'rec':
                    g = e.fn if isinstance(e.fn, dict) else None
                    if e.name == f['n']:
                        continue
                    return None
                if e.kind == 'make':
                    continue
                return '%s: %s' % (self.ctx.where(f), repr(e)[:300])
            k, _ = Pair({f['n']}, ()).outcome(o)
            for r, v in k[3]:
                if r.op in ('H', 'G', 'A', 'D'):
                    return '%s changes %s' % (self.ctx.where(f), show(r))
        return True

    def recursive(self):
        """names of functions that call themselves and change nothing"""
        out = set()
        for fid, f in self.P.fns.items():
            if library(f) and f['n'] in ('full_name',):
                if self.fn(fid) is True:
                    out.add(f['n'])
        return out

    def expr(self, x, why):
        """collect what an expression may change; returns True / None"""
        if isinstance(x, list):
            rs = [self.expr(y, why) for y in x]
            return None if None in rs else True
        if not isinstance(x, dict):
            return True
        k = x.get('k')
        if k == 'un' and x.get('op') in ('++', '--') or k == 'bin' and x.get('op') in MUT or k in ('asg', 'cassign', 'assign') or (k == 'un' and x.get('op') in ('pre++', 'post++', 'pre--', 'post--')):
            why.append('line %s: %s' % (x.get('l'), x.get('op')))
            return True
        ok = True
        if k == 'lambda':
            return None
        if k in ('call', 'ctor'):
            c = x.get('c') or {}
            if not c:
                return None
            if c.get('op') in MUT or x.get('op') in MUT or x.get('op') in ('++', '--'):
                why.append('line %s: %s' % (x.get('l'), x.get('op')))
            elif c.get('repo'):
                r = self.fn(c['id'])
                if isinstance(r, str):
                    why.append('line %s: %s' % (x.get('l'), r))
                elif r is None:
                    if c.get('virtual') or not c.get('const'):
                        ok = None
            elif k == 'call' and c.get('n') in STDMUT:
                why.append('line %s: %s' % (x.get('l'), c['n']))
        for a, y in x.items():
            if a != 'c' and isinstance(y, (dict, list)):
                if self.expr(y, why) is None:
                    ok = None
        return ok


def tracing(ctx, D, P):
    n = 0
    for fid, f in sorted(D.fns.items()):
        if not library(f):
            continue
        todo = [f['body']] + list(f.get('inits', []))
        why, ok, m = [], True, 0
        while todo:
            x = todo.pop()
            if isinstance(x, list):
                todo += x
            elif isinstance(x, dict):
                c = x.get('c') or {}
                if x.get('k') in ('call', 'ctor') and isinstance(c, dict) and c.get('cls') == TR and x.get('args'):
                    m += 1
                    if P.expr(x['args'], why) is None:
                        ok = None
                else:
                    todo += [v for v in x.values() if isinstance(v, (dict, list))]
        if m:
            n += m
            ctx.check('what a trace evaluates changes nothing', ctx.where(f), False if why else ok, '; '.join(why) or 'a call in a trace is not understood')
    ctx.ncalls += n
