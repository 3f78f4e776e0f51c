"""Follows extracted paths on concrete values: tables that grow, maps from signals to tables, text written to a file.

State is a mapping from memory cells (members, whatever their names) to values; a call picks the one path whose conditions hold, runs its loops iteration by iteration and replaces the
cells it leaves behind.  Fields start as the extracted constructor leaves them."""
from lib import *
from algebra import *


class Bad(Exception):
    """what the extracted code does cannot be right: an access outside the storage, a missing key"""


class Undef:
    def __repr__(self):
        return 'undefined'


UNDEF = Undef()
SUMS = {}


class Sig:
    """a signal: kind S, I, B (one value), A (an array) or bus"""
    KINDS = {'S': 'pooya::ScalarSignalImpl', 'I': 'pooya::IntSignalImpl', 'B': 'pooya::BoolSignalImpl', 'A': 'pooya::ArraySignalImpl', 'bus': 'pooya::BusImpl'}

    def __init__(self, kind, name, size=1):
        self.kind, self.name, self.size = kind, name, size
        self.assigned, self.value = False, None

    def isa(self, c):
        if c in Sig.KINDS.values():
            return c == Sig.KINDS[self.kind]
        if c in ('pooya::SignalImpl', 'pooya::SignalImplBase'):
            return True
        if c == 'pooya::ValueSignalImpl':
            return self.kind != 'bus'
        if c.startswith('pooya::FloatSignalImplT'):
            return self.kind == 'S' and 'Array' not in c or self.kind == 'A' and 'Array' in c
        return None

    def put(self, v):
        self.assigned, self.value = True, v

    def entries(self):
        """what a row of its table must hold"""
        if not self.assigned:
            return [0] * self.size
        return list(self.value) if self.kind == 'A' else [self.value]

    def __repr__(self):
        return 'signal %s (%s)' % (self.name, self.kind)


class Tab(list):
    """rows; cols None: one value per row"""
    cols = None


class Val:
    """some number of which nothing is known"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class Tok:
    """a piece of text that stands for a value"""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '<%r>' % (self.v,)


def sub_env(env):
    e = dict(env)
    e['memo'] = [{}] + env.get('memo', [])
    return e


class Machine:
    LIM = 80

    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.mem = {}
        self.out, self.opened = [], 0
        self.order = None
        self.effects = []

    # ------------------------------------------------------------ calls
    def summary(self, ctx, f):
        k = self.P.config, f['id']
        if k not in SUMS:
            I = Interp(self.P, f.get('cls'))
            o = I.run(f['id'])
            ctx.note(I, o)
            SUMS[k] = o
        return SUMS[k]

    def call(self, ctx, f, *args):
        """('return', value) / ('throw', what)"""
        outs = self.summary(ctx, f)
        self.env = {sym(p['n']): a for p, a in zip(f['params'], args)}
        o, env = self.take(outs, sub_env(self.env))
        if o.unk:
            raise Unknown(str(o.unk[0])[:300])
        if o.kind == 'throw':
            return ('throw', getattr(o.val, 'what', o.val))
        val = self.ev(o.val, env) if isinstance(o.val, T) and o.val.op != 'void' else None
        new = {}
        for r, v in o.cells.items():
            if r.op in ('H', 'D', 'G'):
                new[self.root(r, env)] = self.ev(v, env)
        self.mem.update(new)
        return ('return', val)

    def root(self, r, env):
        if r.op == 'D' and r.args[0] is this:
            return ('base',)
        if r.op == 'H' and r.args[0] is this:
            return r.args[1]
        raise Unknown('memory %s' % show(r))

    # ------------------------------------------------------------ paths
    def take(self, outs, env):
        hits, unk = [], None
        n0 = len(self.out), self.opened
        for o in outs:
            e = sub_env(env)
            try:
                ok = True
                late = []
                for c in o.conds:
                    if c.op in ('lexit', 'loopset'):
                        continue
                    need = {s.args[0] for s in subterms(c) if s.op in ('mufin', 'kend')}
                    if any(u not in e for u in need):
                        late.append(c)
                        continue
                    if not self.truth(c, env):
                        ok = False
                        break
                if not ok:
                    continue
                self.events(o, e)
                for c in late:
                    if not self.truth(c, e):
                        ok = False
                        break
                if ok:
                    hits.append((o, e, self.out[n0[0]:], self.opened))
            except Miss:
                pass
            finally:
                del self.out[n0[0]:]
                self.opened = n0[1]
        if len(hits) != 1:
            raise Unknown('%d paths at once' % len(hits) if hits else 'no path')
        o, e, out, self.opened = hits[0]
        self.out += out
        return o, e

    def events(self, o, env):
        shown = [x.x.uid for x in o.events if x.kind == 'loop']
        for uid, lp in o.st.loops.items():
            if uid not in shown and uid not in env and not self.inner(uid, env):
                try:
                    self.loop(lp, env)
                except Unknown:
                    if any(y.kind not in ('ok', 'exhaust') for y in lp.outs):
                        raise
        for x in o.events:
            if x.kind == 'loop':
                if x.x.uid not in env:
                    self.loop(x.x, env)
            elif x.kind == 'open':
                self.opened += 1
            elif x.kind == 'out':
                self.write(x, env)
            elif x.kind in ('set', 'clear', 'call', 'fset', 'deriv', 'link', 'make', 'fn', 'rec'):
                raise Unknown('%r' % (x,))

    def inner(self, uid, env):
        """a loop of an enclosing path that is still being run"""
        return ('k', uid) in env

    def loop(self, lp, env):
        n = None
        if lp.n is not None:
            n = self.num(lp.n, env)
            if n >= 2 ** 32:
                n %= 2 ** 32        # the one count that wraps around: no rows, counted from the row before the first
            if n > self.LIM:
                raise Unknown('too many iterations')
        roots = [r for r in lp.carried if r not in lp.inds]
        cur = {}
        for r in roots:
            cur[r] = self.ev(lp.init[r], env)
        body = [o for o in lp.outs if o.kind != 'exhaust' or n is None]
        k, kind, last = 0, None, None
        while True:
            if n is not None and k >= n:
                kind = 'exhaust'
                break
            if k > self.LIM:
                raise Unknown('endless')
            e = sub_env(env)
            e[('k', lp.uid)] = k
            for r in roots:
                e[('mu', lp.uid, r)] = cur[r]
            o, e2 = self.take(body, e)
            new = {}
            for r in roots:
                v = o.cells.get(r)
                new[r] = cur[r] if v is None else self.ev(v, e2)
            if o.kind == 'ok':
                cur = new
                k += 1
                continue
            cur, kind, last = new, o.kind, o
            break
        if kind == 'throw':
            raise Unknown('leaves a loop by an exception')
        if kind != lp.exit[0] or (kind != 'exhaust' and not any(x is last for x in lp.group)):
            raise Miss()
        for r in roots:
            env[('mufin', lp.uid, r)] = cur[r]
        env[('kend', lp.uid)] = k
        env[lp.uid] = True

    # ------------------------------------------------------------ values
    def truth(self, t, env):
        v = self.ev(t, env)
        if v is True or v is False:
            return v
        if isinstance(v, (int, Fr)):
            return v != 0
        raise Unknown(show(t))

    def num(self, t, env):
        v = self.ev(t, env)
        if v is True or v is False:
            return int(v)
        if isinstance(v, (int, Fr)):
            return int(v) if v == int(v) else v
        if v is UNDEF:
            raise Bad('an undefined value is used in %s' % show(t))
        raise Unknown('not a number: %s' % show(t)[:200])

    def dnf(self, d, env):
        return any(all(self.truth(l, env) for l in c) for c in d)

    def idx(self, s, i, what):
        if not isinstance(s, list):
            raise Unknown('not a table: %s' % what)
        if not 0 <= i < len(s):
            raise Bad('row or entry %s of %d is accessed: %s' % (i, len(s), what))
        return s[i]

    def cases(self, body, lvl, k, env):
        for c, items in instance(body, lvl, k):
            if self.dnf(c, env):
                yield items

    def ev(self, t, env):
        op = t.op
        if op in ('num', 'str'):
            return t.args[0]
        if t in env:
            return env[t]
        memo = env['memo']
        for d in memo:
            if t in d:
                return d[t]
        v = self.ev1(t, env)
        memo[0][t] = v
        return v

    def ev1(self, t, env):
        op = t.op
        m = getattr(self, 'v_' + op, None)
        if m is None:
            raise Unknown('%s: %s' % (op, show(t)[:200]))
        return m(t, env)

    def v_num(self, t, env):
        return numval(t)

    def v_true(self, t, env):
        return True

    def v_false(self, t, env):
        return False

    def v_null(self, t, env):
        return None

    def v_void(self, t, env):
        return None

    def v_not(self, t, env):
        return not self.truth(t.args[0], env)

    def v_cmp(self, t, env):
        v, c = self.num(t.args[0], env), t.args[1]
        return bool(t.args[2] & (LT if v < c else GT if v > c else EQ))

    def v_poly(self, t, env):
        ms = t.args[0]
        if len(ms) == 1 and ms[0][1] == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1:
            return self.ev(ms[0][0][0][0], env)
        r = Fr(0)
        for m, c in ms:
            for a, e in m:
                v = self.num(a, env)
                if v == 0 and e < 0:
                    raise Bad('division by zero')
                c = c * Fr(v) ** e
            r += c
        return r

    def v_ite(self, t, env):
        return self.ev(t.args[1] if self.truth(t.args[0], env) else t.args[2], env)

    def v_b2i(self, t, env):
        v = self.ev(t.args[0], env)
        return int(v) if isinstance(v, bool) else v

    def v_max(self, t, env):
        return max(self.num(a, env) for a in t.args)

    def v_min(self, t, env):
        return min(self.num(a, env) for a in t.args)

    def v_k(self, t, env):
        if ('k', t.args[0]) not in env:
            raise Unknown(show(t))
        return env[('k', t.args[0])]

    def v_kend(self, t, env):
        if ('kend', t.args[0]) not in env:
            raise Unknown(show(t))
        return env[('kend', t.args[0])]

    def v_mu(self, t, env):
        k = ('mu', t.args[0], t.args[1])
        if k not in env:
            raise Unknown(show(t))
        return env[k]

    def v_mufin(self, t, env):
        k = ('mufin', t.args[0], t.args[1])
        if k not in env:
            raise Unknown(show(t))
        return env[k]

    def v_sym(self, t, env):
        raise Unknown(show(t))

    def v_this(self, t, env):
        return self

    def v_A(self, t, env):
        return self.ev(sym(t.args[0]), env)

    def v_ld(self, t, env):
        r = t.args[0]
        if r.op == 'A':
            return self.ev(r, env)
        if r.op in ('H', 'D') and r.args[0] is this:
            k = self.root(r, env)
            if k not in self.mem:
                raise Unknown('member %s' % show(r))
            return self.mem[k]
        if r.op == 'D':
            return self.ev(r.args[0], env)
        if r.op == 'H':
            o = self.ev(r.args[0], env)
            return self.field(o, r.args[1], t)
        raise Unknown(show(t))

    def field(self, o, f, t):
        if o is None:
            raise Bad('a member of a null pointer is read: %s' % show(t))
        if isinstance(o, Sig):
            if f == '@assigned':
                return o.assigned
            if f == '@size':
                return o.size
            if f == '@name':
                return o.name
            if f == '@value':
                if not o.assigned:
                    return UNDEF
                return o.value
        raise Unknown('%s of %r' % (f, o))

    def v_isa(self, t, env):
        o = self.ev(t.args[0], env)
        if o is None:
            return False
        r = o.isa(t.args[1]) if isinstance(o, Sig) else None
        if r is None:
            raise Unknown(show(t))
        return r

    def v_same(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        if a is None or b is None or isinstance(a, Sig) or isinstance(b, Sig):
            return a is b
        if isinstance(a, (int, Fr)) and isinstance(b, (int, Fr)):
            return a == b
        if isinstance(a, It) and isinstance(b, It):
            return a.i == b.i
        raise Unknown(show(t))

    def v_it(self, t, env):
        return It(self.num(t.args[1], env))

    # sequences, tables, maps
    def v_empty(self, t, env):
        return Tab()

    def v_seq(self, t, env):
        return Tab(self.ev(a, env) for a in t.args)

    def v_size(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (list, dict, str)):
            return len(v)
        if v is UNDEF or isinstance(v, (int, Fr)):
            return 1        # a row of a single column
        raise Unknown(show(t))

    def v_trunc(self, t, env):
        v = self.num(t.args[0], env)
        return int(v)

    def v_cols(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Tab):
            return v.cols if v.cols is not None else 1
        raise Unknown(show(t))

    def pairs(self, m):
        ks = list(m)
        return [(k, m[k]) for k in (reversed(ks) if self.order else ks)]

    def v_at(self, t, env):
        s, i = self.ev(t.args[0], env), self.num(t.args[1], env)
        if isinstance(s, dict):
            return self.idx(self.pairs(s), i, show(t)[:200])
        if not isinstance(s, list) and i == 0:
            return s        # the only column of a row
        return self.idx(s, i, show(t)[:200])

    def v_fld(self, t, env):
        v = self.ev(t.args[0], env)
        f = t.args[1]
        if isinstance(v, tuple) and f in ('first', 'second'):
            return v[f == 'second']
        if f == '_name' and isinstance(v, str):
            return v
        raise Unknown(show(t)[:200])

    def v_append(self, t, env):
        s = self.ev(t.args[0], env)
        r = Tab(s)
        r.cols = s.cols
        r.append(self.ev(t.args[1], env))
        return r

    def v_sadd(self, t, env):
        s, x = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return Tab(s) if any(x is y for y in s) else Tab(list(s) + [x])

    def v_erase(self, t, env):
        s = self.ev(t.args[0], env)
        lo, hi = self.num(t.args[1], env), self.num(t.args[2], env)
        if not 0 <= lo <= hi <= len(s):
            raise Bad('erases entries %s to %s of %d' % (lo, hi, len(s)))
        return Tab(s[:lo] + s[hi:])

    def v_inserted(self, t, env):
        s, i = self.ev(t.args[0], env), self.num(t.args[1], env)
        if not 0 <= i <= len(s):
            raise Bad('inserts at %s of %d' % (i, len(s)))
        return Tab(list(s[:i]) + [self.ev(t.args[2], env)] + list(s[i:]))

    def v_resized(self, t, env):
        s, n = self.ev(t.args[0], env), self.num(t.args[1], env)
        if isinstance(s, str) or not isinstance(s, list):
            raise Unknown(show(t)[:200])
        if n < 0 or n > 10 ** 6:
            raise Bad('resized to %s rows' % n)
        cols = s.cols
        r = Tab(s[:n])
        if len(t.args) > 2:
            c = self.num(t.args[2], env)
            if cols is None and len(s) == 0 or cols == c:
                cols = c
            elif cols is None and c == 1:
                cols = None
            else:
                raise Unknown('columns change: %s' % show(t)[:200])
            r = Tab(r)
        r.cols = cols
        while len(r) < n:
            r.append(UNDEF if cols is None else Tab([UNDEF] * cols))
        return r

    def v_zeros(self, t, env):
        ns = [self.num(a, env) for a in t.args]
        if len(ns) == 1:
            return Tab([0] * ns[0])
        r = Tab(Tab([0] * ns[1]) for _ in range(ns[0]))
        r.cols = ns[1]
        return r

    def v_filled(self, t, env):
        x = self.ev(t.args[1], env)
        return Tab([x] * self.num(t.args[0], env))

    def put(self, s, i, x, what):
        if not isinstance(s, (list, dict)):
            if i == 0:
                return x
            raise Bad('entry %s of a single value is written: %s' % (i, what))
        if isinstance(s, dict):
            raise Unknown('an entry of a map is replaced: %s' % what)
        self.idx(s, i, what)
        r = Tab(s)
        r.cols = s.cols
        if r.cols is not None and not isinstance(x, list):
            raise Unknown('a row of %d columns becomes %r' % (r.cols, x))
        if r.cols is not None and len(x) != r.cols:
            raise Bad('a row of %d entries gets %d: %s' % (r.cols, len(x), what))
        if r.cols is None and isinstance(x, list):
            if len(x) != 1:
                raise Bad('a row of one entry gets %d: %s' % (len(x), what))
            x = x[0]
        r[i] = x
        return r

    def v_store(self, t, env):
        s, i = self.ev(t.args[0], env), self.num(t.args[1], env)
        if isinstance(s, dict):
            k, old = self.idx(self.pairs(s), i, show(t)[:200])
            x = self.ev(t.args[2], env)
            if not isinstance(x, tuple) or x[0] is not k:
                raise Unknown(show(t)[:200])
            r = dict(s)
            r[k] = x[1]
            return r
        return self.put(s, i, self.ev(t.args[2], env), show(t)[:200])

    def v_slice(self, t, env):
        s, i, n = self.ev(t.args[0], env), self.num(t.args[1], env), self.num(t.args[2], env)
        if not (0 <= i and n >= 0 and i + n <= len(s)):
            raise Bad('entries %s to %s of %d' % (i, i + n, len(s)))
        return Tab(s[i:i + n])

    def v_mput(self, t, env):
        m = dict(self.ev(t.args[0], env))
        m[self.ev(t.args[1], env)] = self.ev(t.args[2], env)
        return m

    def v_mget(self, t, env):
        m, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if k not in m:
            raise Bad('nothing is stored for %r' % k)
        return m[k]

    def v_haskey(self, t, env):
        m, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return k in m

    def v_member(self, t, env):
        s, x = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(s, (dict, list)):
            return any(x is y for y in s)
        raise Unknown(show(t))

    def partial(self, body, env):
        """the name the unfinished result has in the body of a comprehension"""
        mus = {x for x in subterms(body) if x.op == 'mu' and ('mu', x.args[0], x.args[1]) not in env}
        if len(mus) > 1:
            raise Unknown('several unfinished results')
        return list(mus)[0] if mus else None

    def with_(self, env, m, v):
        if m is None:
            return env
        e = sub_env(env)
        e[('mu', m.args[0], m.args[1])] = v
        return e

    def count(self, t, env):
        n = self.num(t.args[1], env)
        if n > self.LIM:
            raise Unknown('too many iterations')
        return range(n)

    def v_mcomp(self, t, env):
        m = dict(self.ev(t.args[0], env))
        mu, env0 = self.partial(t.args[2], env), env
        for k in self.count(t, env):
            env = self.with_(env0, mu, dict(m))
            for items in self.cases(t.args[2], t.args[3], k, env):
                for x in items:
                    if x.op != 'kv':
                        raise Unknown(show(t)[:200])
                    m[self.ev(x.args[0], env)] = self.ev(x.args[1], env)
        return m

    def v_comp(self, t, env):
        s = Tab(self.ev(t.args[0], env))
        self.fill(s, t.args[1:], env, t.op == 'scomp')
        return s

    v_scomp = v_comp

    def fill(self, s, a, env, isset):
        n = self.num(a[0], env)
        if n > self.LIM:
            raise Unknown('too many iterations')
        mu, env0 = self.partial(a[1], env), env
        for k in range(n):
            env = self.with_(env0, mu, Tab(s))
            for items in self.cases(a[1], a[2], k, env):
                for x in items:
                    if x.op == 'nest':
                        self.fill(s, x.args, env, isset)
                        continue
                    v = self.ev(x, env)
                    if not isset or not any(v is y for y in s):
                        s.append(v)

    def v_mapped(self, t, env):
        s = self.ev(t.args[0], env)
        keys = [k for k, _ in self.pairs(s)] if isinstance(s, dict) else None
        cur = [(k, s[k]) for k in keys] if keys is not None else s
        mu, env0 = self.partial(t.args[2], env), env
        for k in self.count(t, env):
            if mu is not None:
                d = dict(cur) if keys is not None else cur
                env = self.with_(env0, mu, {x: d[x] for x in s} if keys is not None else d)
            for u in self.cases(t.args[2], t.args[3], k, env):
                i = self.num(u[0], env)
                old = self.idx(cur, i, show(t)[:200])
                e = sub_env(env)
                e[mk('old')] = old
                x = self.ev(u[1], e)
                if keys is not None:
                    cur = list(cur)
                    cur[i] = x
                else:
                    cur = self.put(cur, i, x, show(t)[:200])
        if keys is not None:
            d = dict(cur)
            return {k: d[k] for k in s}
        return cur

    def v_upd(self, t, env):
        v, x = self.ev(t.args[0], env), self.ev(t.args[2], env)
        if isinstance(v, tuple) and t.args[1] in ('first', 'second'):
            return (v[0], x) if t.args[1] == 'second' else (x, v[1])
        raise Unknown(show(t)[:200])

    def v_ex(self, t, env):
        n = self.num(t.args[0], env)
        return any(self.dnf(instance(t.args[1], t.args[2], k), env) for k in range(min(n, self.LIM)))

    def v_first(self, t, env):
        n = self.num(t.args[0], env)
        for k in range(min(n, self.LIM)):
            if self.dnf(instance(t.args[1], t.args[2], k), env):
                return k
        return n

    def v_sum(self, t, env):
        n = self.num(t.args[0], env)
        return sum(self.num(d, env) for k in range(n) for d in self.cases(t.args[1], t.args[2], k, env))

    def v_loc(self, t, env):
        v = self.ev(mk('ld', t.args[0]), env)
        for s in t.args[1]:
            if s[0] == 'k':
                k = self.ev(s[1], env)
                if k not in v:
                    raise Bad('nothing is stored for %r' % k)
                v = v[k]
            elif s[0] == 'i':
                i = self.num(s[1], env)
                v = self.idx(self.pairs(v) if isinstance(v, dict) else v, i, show(t))
            elif s[0] == 'f' and isinstance(v, tuple):
                v = v[s[1] == 'second']
            else:
                raise Unknown(show(t))
        return v

    # text
    def v_str(self, t, env):
        return t.args[0]

    def v_cat(self, t, env):
        return [x for a in t.args for x in self.text(self.ev(a, env))]

    def v_tostr(self, t, env):
        return [Tok(self.ev(t.args[0], env))]

    def v_rec(self, t, env):
        d = dict(t.args[0])
        if len(d) == 1:
            return self.ev(list(d.values())[0], env)
        raise Unknown(show(t)[:200])

    def v_ccomp(self, t, env):
        s = self.text(self.ev(t.args[0], env))
        for k in self.count(t, env):
            for items in self.cases(t.args[2], t.args[3], k, env):
                for x in items:
                    s = s + self.text(self.ev(x, env))
        return s

    def text(self, v):
        if isinstance(v, str):
            return [v]
        if isinstance(v, list) and all(isinstance(x, (str, Tok)) for x in v):
            return list(v)
        raise Unknown('not a text: %r' % (v,))

    def v_stream(self, t, env):
        raise Unknown(show(t))

    def write(self, x, env):
        self.out += self.text(self.ev(x.args[0], env))


class It:
    def __init__(self, i):
        self.i = i


class Miss(Exception):
    """this path is not the one taken"""
