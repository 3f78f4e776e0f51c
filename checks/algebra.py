"""Deciding whether two summary terms denote the same value: rational normal form, substitution of path equalities, and
expansion of sums/comprehensions for small concrete sizes."""
from engine.terms import *
from engine.terms import T

UNSURE = {'mufin', 'undef', 'mu', 'old', 'mapped', 'ctorval', 'div0', 'mcomp', 'imod', 'trunc'}


def now(t):
    """signal reads without the point in time at which they happened:  val(signal)"""
    memo = {}

    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is None:
                if x.op == 'ld' and x.args[0].op == 'H' and x.args[0].args[1] == '@value':
                    r = mk('val', go(x.args[0].args[0]))
                elif x.op == 'ld' and x.args[0].op == 'H' and x.args[0].args[1] == '@assigned':
                    r = mk('asg', go(x.args[0].args[0]))
                elif x.op == 'ld' and len(x.args) > 1:
                    r = mk('ld', go(x.args[0]))
                else:
                    r = rebuild(x, go)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return go(t)


def V(sig):
    return mk('val', sig)


def sure(*ts):
    return not any(s.op in UNSURE for t in ts for s in subterms(t))


# ---------------------------------------------------------------- rational identity
def ratzero(t, depth=0):
    """is a rational term identically zero"""
    if t is ZERO:
        return True
    if t.op != 'poly':
        return t is ZERO
    if depth > 12:
        return None
    p = poly(t)
    worst = {}
    for m in p:
        for a, e in m:
            if e < 0 and -e > worst.get(a, 0):
                worst[a] = -e
    if not worst:
        return not p
    r = p
    a, e = sorted(worst.items(), key=lambda x: x[0].key)[0]
    q = {}
    fac = poly(a)
    for m, c in r.items():
        ex = 0
        rest = []
        for b, k in m:
            if b is a:
                ex = k
            else:
                rest.append((b, k))
        term = {tuple(rest): c}
        for _ in range(ex + e):
            term = pmul(term, fac)
        q = padd(q, term)
    return ratzero(unpoly(q), depth + 1)


def rateq(a, b):
    if a is b:
        return True
    numeric = lambda t: t.op in ('num', 'poly', 'val', 'sum', 'prod', 'ld', 'at', 'fld', 'sym', 'size', 'ret', 'zeros')
    if not (numeric(a) and numeric(b)):
        return False
    return ratzero(sub(a, b))


# ---------------------------------------------------------------- equalities on the path
def equalities(conds):
    """substitution built from the equations among the conditions"""
    m = {}
    for c in conds:
        c = subst(c, m) if m else c
        if c.op == 'cmp' and c.args[2] == EQ:
            q, k = c.args[0], c.args[1]
            p = poly(q)
            # pick an atom that occurs linearly and alone
            for mono, co in sorted(p.items(), key=lambda x: monokey(x[0])):
                if len(mono) == 1 and mono[0][1] == 1:
                    a = mono[0][0]
                    if a.op in ('num',):
                        continue
                    rest = unpoly({mm: -cc / co for mm, cc in p.items() if mm != mono})
                    if any(s is a for s in subterms(rest)):
                        continue
                    m2 = {a: add(rest, num(k / co))}
                    m = {x: subst(y, m2) for x, y in m.items()}
                    m.update(m2)
                    break
        elif c.op == 'same':
            a, b = c.args
            if a.op == 'ld' or a.op == 'sym':
                m[a] = b
            elif b.op in ('ld', 'sym'):
                m[b] = a
    return m


# ---------------------------------------------------------------- expansion for concrete sizes
def expand(t):
    """expand sum/prod/ex/first/comp whose length is a concrete number"""
    memo = {}

    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is None:
                r = memo[x] = step(x)
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x

    def cond(d):
        """a dnf of literals as one truth value, or None"""
        if not d:
            return FALSE
        res = FALSE
        for conj in d:
            v = TRUE
            for l in conj:
                l = go(l)
                if l is TRUE:
                    continue
                if l is FALSE:
                    v = FALSE
                    break
                v = None
            if v is TRUE:
                return TRUE
            if v is None:
                res = None
        return res

    def step(x):
        if x.op in ('sum', 'prod'):
            n = go(x.args[0])
            if is_num(n):
                tot = ZERO if x.op == 'sum' else ONE
                for k in range(int(numval(n))):
                    body = subst(x.args[1], {mk('bk', x.args[2]): num(k)})
                    for d, v in sorted(body, key=lambda z: repr(z)):
                        c = cond(d)
                        if c is None:
                            return mk(x.op, n, go(x.args[1]))
                        if c is TRUE:
                            tot = add(tot, go(v)) if x.op == 'sum' else mul(tot, go(v))
                return tot
        if x.op == 'comp':
            n = go(x.args[1])
            v = go(x.args[0])
            if is_num(n):
                out = v
                for k in range(int(numval(n))):
                    body = subst(x.args[2], {mk('bk', x.args[3]): num(k)})
                    for d, items in sorted(body, key=lambda z: repr(z)):
                        c = cond(d)
                        if c is None:
                            return mk('comp', v, n, go(x.args[2]))
                        if c is TRUE:
                            for i in items:
                                out = mk('append', out, go(i))
                return out
        return rebuild(x, go)
    return go(t)


def unroll(t, path, mm):
    """final values of loops left open by the summaries, for concrete sizes: iterate (loops with one feasible way through each iteration)"""
    loops = path.st.loops if path is not None else {}

    def value(uid, root):
        lp = loops.get(uid)
        if lp is None or lp.n is None:
            return None
        n = subst(now(lp.n), mm)
        if not is_num(n) or not 0 <= numval(n) <= 8:
            return None
        cur = {r: go(now(v)) for r, v in lp.init.items()}
        for k in range(int(numval(n))):
            m = dict(mm)
            m[mk('k', uid)] = num(k)
            for r, v in cur.items():
                m[mk('mu', uid, r)] = v
            live = []
            for o in lp.outs:
                cs = [subst(now(c), m) for c in o.conds]
                if any(c is FALSE for c in cs) or o.kind == 'exhaust':
                    continue
                if not all(c is TRUE for c in cs) and len([x for x in lp.outs if x.kind != 'exhaust']) > 1:
                    return None
                live.append(o)
            if len(live) != 1 or live[0].kind not in ('ok', 'cont', 'continue'):
                return None
            o = live[0]
            cur = {r: subst(now(o.cells.get(r, mk('mu', uid, r))), m) for r in cur}
        return cur.get(root)

    def go(x):
        if not mentions(x, {'mufin'}):
            return x
        m = {}
        for s in subterms(x):
            if s.op == 'mufin':
                v = value(s.args[0], s.args[1])
                if v is not None:
                    m[s] = v
        return subst(x, m) if m else x
    return go(t)


def equal(a, b, conds=(), sizes=(), path=None):
    """True / False / None: do two terms denote the same value on every state satisfying the conditions"""
    a, b = now(a), now(b)
    if a is b:
        return True
    conds = [now(c) for c in conds]
    m = equalities(conds)
    if m:
        a, b = subst(a, m), subst(b, m)
        sizes = [subst(s, m) for s in sizes]
        sizes = [s for s in sizes if not is_num(s)]
    a, b = expand(a), expand(b)
    r = rateq(a, b)
    if r:
        return True
    if sizes:
        lows = {}
        res = []
        for n in range(0, 5):
            mm = {s: num(n) for s in sizes}
            cs = [subst(c, mm) for c in conds]
            if any(c is FALSE for c in cs):
                continue
            x, y = expand(unroll(subst(a, mm), path, mm)), expand(subst(b, mm))
            q = rateq(x, y)
            if not q:
                if sure(x, y) and q is not None and not any(s.op in ('sum', 'prod', 'comp', 'ex', 'first') for s in subterms((x, y))):
                    return False
                return None
            res.append(n)
        return True if res else None
    if r is None or not sure(a, b):
        return None
    return False


# ---------------------------------------------------------------- comparing conditions
def literals(dnf):
    return {l for c in dnf for l in c}


def basis(lits):
    """atom -> values it can take, and a function evaluating a literal under an assignment"""
    atoms = {}
    for l in lits:
        a = l.args[0] if l.op == 'not' else l
        if a.op == 'cmp':
            atoms.setdefault(('q', a.args[0]), set()).add(a.args[1])
        else:
            atoms.setdefault(('b', a), set())
    return atoms


def assignments(atoms, exclusive=()):
    keys = sorted(atoms, key=lambda k: k[0] + k[1].key)
    doms = []
    for k in keys:
        if k[0] == 'b':
            doms.append([True, False])
        else:
            cs = sorted(atoms[k])
            pts = [cs[0] - 1]
            for i, c in enumerate(cs):
                pts.append(c)
                pts.append((c + cs[i + 1]) / 2 if i + 1 < len(cs) else c + 1)
            doms.append(pts)
    tot = 1
    for d in doms:
        tot *= len(d)
    if tot > 200000:
        return
    def rec_(i, cur):
        if i == len(keys):
            yield dict(cur)
            return
        for v in doms[i]:
            cur[keys[i]] = v
            yield from rec_(i + 1, cur)
    yield from rec_(0, {})


def evalit(l, asg):
    if l is TRUE:
        return True
    if l is FALSE:
        return False
    if l.op == 'not':
        return not evalit(l.args[0], asg)
    if l.op == 'cmp':
        v = asg[('q', l.args[0])]
        c = l.args[1]
        return bool(l.args[2] & (LT if v < c else GT if v > c else EQ))
    return asg[('b', l)]


def sameconds(dnf1, dnf2, consistent=lambda asg: True):
    """do two sets of alternatives (each a set of literals) describe the same states; None when there are too many atoms"""
    lits = literals(dnf1) | literals(dnf2)
    lits -= {TRUE, FALSE}
    n = 0
    for asg in assignments(basis(lits)):
        n += 1
        if not consistent(asg):
            continue
        x = any(all(evalit(l, asg) for l in c) for c in dnf1)
        y = any(all(evalit(l, asg) for l in c) for c in dnf2)
        if x != y:
            return False
    return True if n else None


# ---------------------------------------------------------------- sequences of concrete length, conditions decided by an order type
def concretize(t, lens, oracle):
    """rewrite a term for sequences of the given lengths: sizes become numbers, first/ex/sum/prod over them are decided entry by entry"""
    memo = {}

    def truth(d):
        res = FALSE
        for conj in d:
            v = TRUE
            for l in conj:
                x = lit(l)
                if x is FALSE:
                    v = FALSE
                    break
                if x is None:
                    v = None
            if v is TRUE:
                return TRUE
            if v is None:
                res = None
        return res

    def lit(l):
        neg = l.op == 'not'
        a = go(l.args[0] if neg else l)
        if a not in (TRUE, FALSE):
            r = oracle(a)
            if r is None:
                return None
            a = TRUE if r else FALSE
        return a if not neg else (FALSE if a is TRUE else TRUE)

    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is None:
                r = memo[x] = step(x)
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x

    def step(x):
        if x.op == 'size':
            s = seq(x.args[0])
            if s is not None:
                return num(len(s))
        if x.op == 'at':
            s, i = seq(x.args[0]), go(x.args[1])
            if s is not None and is_num(i) and 0 <= numval(i) < len(s):
                return s[int(numval(i))]
        if x.op in ('ex', 'first'):
            n = go(x.args[0])
            if is_num(n):
                for k in range(int(numval(n))):
                    d = truth(subst(x.args[1], {mk('bk', x.args[2]): num(k)}))
                    if d is None:
                        return rebuild(x, go)
                    if d is TRUE:
                        return TRUE if x.op == 'ex' else num(k)
                return FALSE if x.op == 'ex' else n
        return rebuild(x, go)

    def seq(v):
        if v in lens:
            return [at(v, num(i)) for i in range(lens[v])]
        if v.op == 'empty':
            return []
        if v.op == 'append':
            s = seq(v.args[0])
            return None if s is None else s + [go(v.args[1])]
        if v.op == 'store':
            s, i = seq(v.args[0]), go(v.args[1])
            if s is None or not is_num(i) or not 0 <= numval(i) < len(s):
                return None
            i = int(numval(i))
            return s[:i] + [go(v.args[2])] + s[i + 1:]
        if v.op == 'erase':
            s, lo, hi = seq(v.args[0]), go(v.args[1]), go(v.args[2])
            if s is None or not (is_num(lo) and is_num(hi)):
                return None
            lo, hi = int(numval(lo)), int(numval(hi))
            return s[:lo] + s[hi:] if 0 <= lo <= hi <= len(s) else None
        return None
    go.seq = seq
    go.lit = lit
    return go


def order_oracle(times, rank, u):
    """decides comparisons between the entries of an increasing sequence and a point u = a - b of the given rank
    (2k: strictly between entry k-1 and entry k, 2k+1: equal to entry k)"""
    pos = {t: 2 * i + 1 for i, t in enumerate(times)}
    a, b = u

    def oracle(l):
        if l.op != 'cmp':
            return None
        q, c, mask = l.args
        if c != 0:
            return None
        p = poly(q)
        lin = {}
        for m, co in p.items():
            if len(m) != 1 or m[0][1] != 1:
                return None
            lin[m[0][0]] = co
        ca, cb = lin.pop(a, Fr(0)), lin.pop(b, Fr(0))
        if ca != -cb:
            return None
        items = [(pos[t], co) for t, co in lin.items() if t in pos]
        if len(items) != len(lin):
            return None
        if ca:
            items.append((rank, ca))
        if len(items) != 2 or items[0][1] != -items[1][1]:
            return None
        (x, cx), (y, _) = items
        d = (x - y) * cx
        return bool(mask & (LT if d < 0 else GT if d > 0 else EQ))
    return oracle


def chosen(outs, go):
    """the path taken in the described situation; None when it is not clear"""
    hit, maybe = [], []
    for o in outs:
        v = [go.lit(now(c)) for c in o.conds]
        if any(x is FALSE for x in v):
            continue
        (maybe if None in v else hit).append(o)
    if len(hit) == 1 and not maybe:
        return hit[0]
    return None


# ---------------------------------------------------------------- small worlds: every atom has a value, sequences have a length
class Unknown(Exception):
    pass


BOUND = ('sum', 'prod', 'ex', 'first', 'comp', 'scomp', 'ccomp', 'mcomp', 'mapped')


_INST = {}


def instance(body, lvl, k):
    """the body of a binder for one index"""
    key = (body, lvl, k)
    r = _INST.get(key)
    if r is None:
        if len(_INST) > 200000:
            _INST.clear()
        r = _INST[key] = subst(body, {mk('bk', lvl): num(k)})
    return r


class World:
    LIMIT = 64
    """evaluates terms under an interpretation: atom(t) gives the value of an uninterpreted term (a number, a boolean or a
    term standing for an object), or None when the interpretation says nothing about it"""

    def __init__(self, atom, lens=(), alias=None):
        self.atom, self.lens, self.alias = atom, dict(lens), dict(alias or {})
        self._norm = {}

    def val(self, t):
        """the value of a term; raises Unknown"""
        op = t.op
        if op == 'num':
            return t.args[0]
        if op in ('true', 'false'):
            return op == 'true'
        if op == 'not':
            return not self.val(t.args[0])
        if op == 'poly':
            r = Fr(0)
            for m, c in t.args[0]:
                for a, e in m:
                    v = self.number(a)
                    if v == 0 and e < 0:
                        raise Unknown()
                    c = c * v ** e
                r += c
            return r
        if op == 'cmp':
            v, c = self.number(t.args[0]), t.args[1]
            return bool(t.args[2] & (LT if v < c else GT if v > c else EQ))
        if op == 'bits':
            v = int(self.number(t.args[0]))
            return Fr((v & t.args[1] if t.args[1] != -1 else v) | t.args[2])
        if op == 'bitop' and t.args[0] in ('|', '&'):
            a, b = int(self.number(t.args[1])), int(self.number(t.args[2]))
            return Fr(a | b if t.args[0] == '|' else a & b)
        if op in ('ex', 'first', 'sum', 'prod') :
            n, body, lvl = t.args
            n = self.number(n)
            if n != int(n) or n > self.LIMIT:
                raise Unknown()
            acc = Fr(0 if op == 'sum' else 1)
            for k in range(int(n)):
                if op in ('ex', 'first'):
                    if self.dnf(instance(body, lvl, k)):
                        return True if op == 'ex' else Fr(k)
                else:
                    for c, d in instance(body, lvl, k):
                        if self.dnf(c):
                            v = self.number(d)
                            acc = acc + v if op == 'sum' else acc * v
            return False if op == 'ex' else n if op == 'first' else acc
        if op == 'size':
            if t.args[0] in self.lens:
                return Fr(self.lens[t.args[0]])
            s = self.seq(self.norm(t.args[0]))
            if s is not None:
                return Fr(len(s))
        if op == 'member':
            s = self.seq(self.norm(t.args[0]))
            if s is not None:
                return self.norm(t.args[1]) in s
        if op == 'wsum':
            s = self.seq(self.norm(t.args[0]))
            if s is not None:
                return sum((self.number(subst(t.args[1], {mk('hole'): x})) for x in s), Fr(0))
        if op == 'ite':
            return self.val(t.args[1] if self.val(t.args[0]) else t.args[2])
        t = self.norm(t)
        if t.op == 'num' or t.op == 'poly' and is_num(t):
            return Fr(numval(t))
        v = self.atom(t)
        if v is None:
            raise Unknown(show(t))
        return v

    def seq(self, v):
        """the entries of a sequence, or None"""
        if v in self.lens:
            return [self.alias.get(at(v, num(i)), at(v, num(i))) for i in range(self.lens[v])]
        if v.op == 'empty':
            return []
        if v.op == 'append':
            s = self.seq(v.args[0])
            return None if s is None else s + [self.norm(v.args[1])]
        if v.op == 'sadd':
            s = self.seq(v.args[0])
            x = self.norm(v.args[1])
            return None if s is None else s if x in s else s + [x]
        if v.op in ('comp', 'scomp'):
            s = self.seq(v.args[0])
            if s is None:
                return None
            s = list(s)
            self.fill(s, v.args[1], v.args[2], v.args[3], v.op == 'scomp')
            return s
        if v.op == 'inserted':
            s = self.seq(v.args[0])
            try:
                i = int(self.number(v.args[1]))
            except Unknown:
                return None
            return None if s is None or not 0 <= i <= len(s) else s[:i] + [self.norm(v.args[2])] + s[i:]
        if v.op == 'concat':
            a, b = self.seq(v.args[0]), self.seq(v.args[1])
            return None if a is None or b is None else a + b
        if v.op == 'erase':
            s = self.seq(v.args[0])
            try:
                lo, hi = int(self.number(v.args[1])), int(self.number(v.args[2]))
            except Unknown:
                return None
            return None if s is None else s[:lo] + s[hi:]
        if v.op == 'store':
            s = self.seq(v.args[0])
            try:
                i = int(self.number(v.args[1]))
            except Unknown:
                return None
            return None if s is None or not 0 <= i < len(s) else s[:i] + [v.args[2]] + s[i + 1:]
        return None

    def fill(self, s, n, body, lvl, isset):
        """append the items of a comprehension"""
        n = self.number(n)
        if n != int(n) or n > self.LIMIT:
            raise Unknown()
        for k in range(int(n)):
            for c, items in instance(body, lvl, k):
                if self.dnf(c):
                    for x in items:
                        if x.op == 'nest':
                            self.fill(s, x.args[0], x.args[1], x.args[2], isset)
                            continue
                        x = self.norm(x)
                        if not isset or x not in s:
                            s.append(x)

    def norm(self, t):
        """indices inside a term as numbers, entries of known sequences as the objects they stand for"""
        def go(x):
            if isinstance(x, T):
                if x.op in ('num', 'sym', 'str', 'this'):
                    return self.alias.get(x, x)
                r = self._norm.get(x)
                if r is not None:
                    return r
                if x.op == 'at':
                    b, i = go(x.args[0]), self.index(x.args[1])
                    r = mk('at', b, i)
                    if b not in self.lens and is_num(i) and b.op in ('comp', 'scomp', 'append', 'erase', 'store'):
                        s = self.seq(b)
                        if s is not None and 0 <= numval(i) < len(s):
                            r = s[int(numval(i))]
                elif x.op in BOUND:
                    return x
                else:
                    r = rebuild(x, go)
                r = self.alias.get(r, r)
                self._norm[x] = r
                return r
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            return x
        return go(t)

    def index(self, i):
        try:
            return num(self.number(i))
        except Unknown:
            return i

    def number(self, t):
        v = self.val(t)
        if v is True or v is False:
            return Fr(int(v))
        if not isinstance(v, (int, Fr)):
            raise Unknown(show(t))
        return Fr(v)

    def dnf(self, d):
        unk = None
        for c in d:
            u, no = None, False
            for l in c:
                try:
                    if not self.val(l):
                        no = True
                        break
                except Unknown as x:
                    u = x
            if no:
                continue
            if u is None:
                return True
            unk = u
        if unk is not None:
            raise unk
        return False

    def chosen(self, outs, nf=None):
        """the one path taken in this world, or None when it is not clear"""
        p = self.paths(outs, nf or now)
        return p[0] if p and len(p) == 1 else None

    def paths(self, outs, nf=None):
        """the paths that can be taken in this world: the one that must be, or all that depend on things the world leaves
        open and that are independent of it (public state, parameters); None when that is not clear"""
        nf = nf or now
        hit, opn = [], []
        for o in outs:
            r, free = True, True
            for c in o.conds:
                c = nf(c)
                try:
                    if not self.val(c):
                        r = False
                        break
                except Unknown:
                    r = None
                    free = free and self.isfree(c)
            if r is False:
                continue
            if r is None:
                if not free:
                    return None
                opn.append(o)
            else:
                hit.append(o)
        if len(hit) == 1 and not opn:
            return hit
        if opn:
            return hit + opn
        return None

    def isfree(self, c):
        """is a condition one about public state or parameters only, that the interpretation leaves open"""
        atoms = []

        def scan(t):
            if t.op in ('num', 'true', 'false'):
                return True
            if t.op in ('not', 'cmp', 'bits', 'bitop', 'poly'):
                ok = True
                for x in _leaves(t.args):
                    ok = scan(x) and ok
                return ok
            try:
                self.val(t)
                return True
            except Unknown:
                pass
            atoms.append(t)
            return t.op == 'sym' or t.op in ('val', 'asg') or (t.op == 'ld' and t.args[0].op == 'H' and t.args[0].args[1] in ('@connected', '@processed')) or \
                (t.op == 'fld' and t.args[1] == 'second') or t.op == 'linkbits'
        return scan(c) and bool(atoms)


def _leaves(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            yield from _leaves(x)
