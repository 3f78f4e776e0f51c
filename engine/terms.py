"""Value numbering: hash-consed terms, numbers in polynomial normal form, and path conditions (no solver: one interval per
linear form, one sign set per atom)."""
from fractions import Fraction as Fr


class T:
    __slots__ = ('op', 'args', '_key', '_fv')
    table = {}

    def __repr__(self):
        return show(self)

    @property
    def key(self):
        k = self._key
        if k is None:
            k = self._key = self.op + '(' + ','.join(a.key if isinstance(a, T) else keyof(a) for a in self.args) + ')'
        return k

    def __lt__(self, o):
        return self.key < o.key


def keyof(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return '[' + ','.join(keyof(x) for x in a) + ']'
    if isinstance(a, frozenset):
        return '{' + ','.join(sorted(keyof(x) for x in a)) + '}'
    return repr(a)


def mk(op, *args):
    k = (op, args)
    t = T.table.get(k)
    if t is None:
        t = T()
        t.op, t.args, t._key, t._fv = op, args, None, None
        T.table[k] = t
    return t


TRUE, FALSE, NULL = mk('true'), mk('false'), mk('null')
VOID = mk('void')


def num(v):
    return mk('num', Fr(v))


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.args[0]


ZERO, ONE = num(0), num(1)


def boolc(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- polynomials: {mono: coeff}, mono = ((atom, exp), ...)
def poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    if t is TRUE:
        return {(): Fr(1)}
    if t is FALSE:
        return {}
    return {((t, 1),): Fr(1)}


def monokey(m):
    return '*'.join('%s^%s' % (a.key, e) for a, e in m)


def unpoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(p.items(), key=lambda x: monokey(x[0]))))


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + c * k
        if not r[m]:
            del r[m]
    return r


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].key))


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * d
            if not r[k]:
                del r[k]
    return r


def add(a, b):
    return unpoly(padd(poly(a), poly(b)))


def sub(a, b):
    return unpoly(padd(poly(a), poly(b), -1))


def mul(a, b):
    return unpoly(pmul(poly(a), poly(b)))


def neg(a):
    return unpoly({m: -c for m, c in poly(a).items()})


def div(a, b):
    q = poly(b)
    if not q:
        return mk('div0', a)
    if len(q) == 1:
        (m, c), = q.items()
        return unpoly(pmul(poly(a), {tuple((x, -e) for x, e in m): 1 / c}))
    # normalise the divisor to leading coefficient one
    lead = min(q, key=monokey)
    c = q[lead]
    d = unpoly({m: v / c for m, v in q.items()})
    return unpoly(pmul(poly(a), {((d, -1),): 1 / c}))


def idiv(a, b):
    if is_num(a) and is_num(b) and numval(b):
        q = abs(numval(a)) // abs(numval(b))
        return num(q if (numval(a) < 0) == (numval(b) < 0) else -q)
    if is_num(b) and numval(b) == 1:
        return a
    return mk('idiv', a, b)


def imod(a, b):
    if is_num(a) and is_num(b) and numval(b):
        return sub(a, mul(idiv(a, b), b))
    return mk('imod', a, b)


# ---------------------------------------------------------------- comparisons: cmp(Q, mask), Q - normalised difference
LT, EQ, GT = 1, 2, 4


def cmpt(a, b, mask):
    """the truth of  a ? b  with ? given by mask"""
    if b.op == 'num' and b.args[0] == 0 and a.op == 'app' and a.args[0] == 'compare' and mask in (EQ, LT | GT):
        x = same(a.args[1], a.args[2])
        return x if mask == EQ else notb(x)
    p = padd(poly(a), poly(b), -1)
    if not p or (len(p) == 1 and () in p):
        v = p.get((), 0)
        return boolc(mask & (LT if v < 0 else GT if v > 0 else EQ))
    c0 = p.pop((), Fr(0))
    lead = min(p, key=monokey)
    c = p[lead]
    if c < 0:
        mask = (mask & EQ) | (LT if mask & GT else 0) | (GT if mask & LT else 0)
    q = unpoly({m: v / c for m, v in p.items()})
    if mask == 7:
        return TRUE
    if mask == 0:
        return FALSE
    return mk('cmp', q, -c0 / c, mask)      # q  mask  const


def lt(a, b):
    return cmpt(a, b, LT)


def le(a, b):
    return cmpt(a, b, LT | EQ)


def gt(a, b):
    return cmpt(a, b, GT)


def ge(a, b):
    return cmpt(a, b, GT | EQ)


def eqn(a, b):
    return cmpt(a, b, EQ)


def same(a, b):
    """identity of two references, strings or other non-numbers"""
    if a is b:
        return TRUE
    if a.op in CONSTOPS and b.op in CONSTOPS:
        return FALSE
    if (a is NULL and b.op in NONNULL) or (b is NULL and a.op in NONNULL):
        return FALSE
    x, y = (a, b) if a.key < b.key else (b, a)
    return mk('same', x, y)


CONSTOPS = {'null', 'str', 'num', 'true', 'false', 'new'}
NONNULL = {'addr', 'this', 'new', 'lam', 'fnref', 'newbus'}


def notb(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.args[0]
    if t.op == 'cmp':
        return mk('cmp', t.args[0], t.args[1], 7 ^ t.args[2])
    return mk('not', t)


def isnonnull(p):
    if p is NULL:
        return FALSE
    if p.op in NONNULL:
        return TRUE
    return notb(same(p, NULL))


def cat(*ps):
    out = []
    for p in ps:
        xs = p.args if p.op == 'cat' else (p,)
        for x in xs:
            if x.op == 'str' and out and out[-1].op == 'str':
                out[-1] = mk('str', out[-1].args[0] + x.args[0])
            elif x.op == 'str' and x.args[0] == '':
                continue
            else:
                out.append(x)
    if not out:
        return mk('str', '')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


def string(s):
    return mk('str', s)


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.args)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)


def contains(t, x):
    return any(s is x for s in subterms(t))


def mentions(t, ops):
    return any(s.op in ops for s in subterms(t))


def subst(t, m, memo=None):
    """replace terms by terms (m: T -> T), renormalising numbers and comparisons"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, T):
            if x in m:
                return m[x]
            r = memo.get(x)
            if r is None:
                r = memo[x] = rebuild(x, go)
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return go(t)


def rebuild(x, go):
    if x.op in ('num', 'str'):
        return x
    if x.op == 'poly':
        r = {}
        for mo, c in x.args[0]:
            p = {(): c}
            for a, e in mo:
                b = go(a)
                if e < 0:
                    b = div(ONE, b)
                    e = -e
                for _ in range(e):
                    p = pmul(p, poly(b))
            r = padd(r, p)
        return unpoly(r)
    if x.op == 'cmp':
        return cmpt(go(x.args[0]), num(x.args[1]), x.args[2])
    args = tuple(go(a) for a in x.args)
    if all(a is b for a, b in zip(args, x.args)):
        return x
    if x.op == 'same':
        return same(*args)
    if x.op == 'not':
        return notb(args[0])
    if x.op == 'cat':
        return cat(*args)
    if x.op == 'at':
        return at(*args)
    if x.op == 'fld':
        return fld(*args)
    if x.op == 'size':
        return size(*args)
    if x.op == 'b2i':
        return ONE if args[0] is TRUE else ZERO if args[0] is FALSE else mk('b2i', *args)
    return mk(x.op, *args)


# ---------------------------------------------------------------- sequences and records
EMPTY = mk('empty')


def size(v):
    if v.op == 'empty':
        return ZERO
    if v.op == 'append':
        return add(size(v.args[0]), ONE)
    if v.op == 'store':
        return size(v.args[0])
    if v.op == 'seq':
        return num(len(v.args))
    if v.op == 'resized':
        return v.args[1]
    if v.op == 'mapped':
        return size(v.args[0])
    if v.op == 'slice':
        return v.args[2]
    if v.op in ('zeros', 'filled'):
        return v.args[0] if v.args else mk('size', v)
    if v.op == 'erase':
        return sub(size(v.args[0]), sub(v.args[2], v.args[1]))
    if v.op == 'concat':
        return add(size(v.args[0]), size(v.args[1]))
    if v.op == 'inserted':
        return add(size(v.args[0]), ONE)
    if v.op == 'str':
        return num(len(v.args[0].encode()))
    return mk('size', v)


def at(v, i):
    if v.op == 'seq' and is_num(i) and 0 <= numval(i) < len(v.args):
        return v.args[int(numval(i))]
    if v.op == 'append' and sub(i, size(v.args[0])) is ZERO:
        return v.args[1]
    if v.op == 'store':
        w, j, x = v.args
        if j is i:
            return x
        if is_num(sub(i, j)):
            return at(w, i)
    return mk('at', v, i)


def rec(items):
    return mk('rec', tuple(sorted(items.items())))


def fld(v, f):
    if v.op == 'rec':
        for n, x in v.args[0]:
            if n == f:
                return x
    if v.op == 'upd':
        if v.args[1] == f:
            return v.args[2]
        return fld(v.args[0], f)
    return mk('fld', v, f)


def updf(v, f, x):
    if v.op == 'rec':
        d = dict(v.args[0])
        d[f] = x
        return rec(d)
    if v.op == 'upd' and v.args[1] == f:
        v = v.args[0]
    return mk('upd', v, f, x)


def show(t):
    if isinstance(t, tuple):
        return '[' + ', '.join(show(x) for x in t) + ']'
    if isinstance(t, frozenset):
        return '{' + ', '.join(sorted(show(x) for x in t)) + '}'
    if not isinstance(t, T):
        return str(t)
    if t.op == 'num':
        return str(t.args[0])
    if t.op == 'str':
        return repr(t.args[0])
    if t.op == 'sym':
        return str(t.args[0])
    if t.op == 'poly':
        out = []
        for m, c in t.args[0]:
            s = '*'.join(show(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
            out.append(('%s*%s' % (c, s) if c != 1 else s) if m else str(c))
        return '(' + ' + '.join(out) + ')'
    if t.op == 'cmp':
        return '%s %s %s' % (show(t.args[0]), {1: '<', 2: '==', 3: '<=', 4: '>', 5: '!=', 6: '>='}[t.args[2]], t.args[1])
    if t.op == 'not':
        return '!(%s)' % show(t.args[0])
    if t.op == 'same':
        return '%s===%s' % (show(t.args[0]), show(t.args[1]))
    if t.op in ('at',):
        return '%s[%s]' % (show(t.args[0]), show(t.args[1]))
    if t.op == 'fld':
        return '%s.%s' % (show(t.args[0]), t.args[1])
    if t.op == 'ld':
        return show(t.args[0]) + ('@%s' % show(t.args[1]) if len(t.args) > 1 and t.args[1] != () else '')
    if t.op == 'H':
        return '%s->%s' % (show(t.args[0]), t.args[1])
    if not t.args:
        return t.op
    return t.op + '(' + ', '.join(show(a) for a in t.args) + ')'


# ---------------------------------------------------------------- path conditions
class PC:
    """a conjunction of literals; iv: linear form -> (lo, lo_strict, hi, hi_strict, neqs); lits: atom -> bool"""

    def __init__(self, o=None):
        self.iv = dict(o.iv) if o else {}
        self.lits = dict(o.lits) if o else {}
        self.log = list(o.log) if o else []

    def copy(self):
        return PC(self)

    def _iv(self, q, facts):
        r = self.iv.get(q)
        if r is None:
            r = (Fr(0), False, None, False, frozenset()) if facts.nonneg(q) else (None, False, None, False, frozenset())
        return r

    def decide(self, t, facts):
        """True, False or None"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == 'not':
            r = self.decide(t.args[0], facts)
            return None if r is None else not r
        if t.op == 'cmp':
            q, c, mask = t.args
            lo, ls, hi, hs, ne = self._iv(q, facts)
            poss = 0
            if lo is None or lo < c:
                poss |= LT
            if (lo is None or lo < c or (lo == c and not ls)) and (hi is None or hi > c or (hi == c and not hs)) and c not in ne:
                poss |= EQ
            if hi is None or hi > c:
                poss |= GT
            if facts.isint(q):
                if lo is not None and poss & LT and lo > c - 1:
                    poss &= ~LT
                if lo is not None and poss & LT and lo == c - 1 and (ls or (c - 1) in ne):
                    poss &= ~LT
                if hi is not None and poss & GT and (hi < c + 1 or (hi == c + 1 and (hs or (c + 1) in ne))):
                    poss &= ~GT
            if poss & ~mask == 0:
                return True
            if poss & mask == 0:
                return False
            return None
        r = self.lits.get(t)
        if r is not None:
            return r
        return facts.implied(t, self)

    def assume(self, t, val, facts):
        while t.op == 'not':
            t, val = t.args[0], not val
        self.log.append((t, val))
        if t.op == 'cmp':
            q, c, mask = t.args
            if not val:
                mask = 7 ^ mask
            lo, ls, hi, hs, ne = self._iv(q, facts)
            isint = facts.isint(q)

            def setlo(v, strict):
                nonlocal lo, ls
                if isint:
                    v = v + 1 if strict and v.denominator == 1 else Fr(-((-v.numerator) // v.denominator))
                    strict = False
                if lo is None or v > lo or (v == lo and strict):
                    lo, ls = v, strict

            def sethi(v, strict):
                nonlocal hi, hs
                if isint:
                    v = v - 1 if strict and v.denominator == 1 else Fr(v.numerator // v.denominator)
                    strict = False
                if hi is None or v < hi or (v == hi and strict):
                    hi, hs = v, strict
            if mask == LT:
                sethi(c, True)
            elif mask == LT | EQ:
                sethi(c, False)
            elif mask == EQ:
                setlo(c, False)
                sethi(c, False)
            elif mask == GT:
                setlo(c, True)
            elif mask == GT | EQ:
                setlo(c, False)
            elif mask == LT | GT:
                ne = ne | {c}
                if isint:
                    while lo is not None and lo in ne:
                        lo += 1
                    while hi is not None and hi in ne:
                        hi -= 1
            self.iv[q] = (lo, ls, hi, hs, ne)
            return
        self.lits[t] = val

    def consistent(self):
        for q, (lo, ls, hi, hs, ne) in self.iv.items():
            if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs or lo in ne))):
                return False
        return True

    def literals(self):
        """the assumed literals in order, as terms"""
        return [t if v else notb(t) for t, v in self.log]
