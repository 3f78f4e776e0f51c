"""Runs extracted paths on small models: blocks that become processed once what they need is there.

A model has a handful of blocks. Marking makes those with nothing to compute processed; asking a block to process makes it processed when every block it needs is (blocks that stand for
submodels: always; blocks that can never run: never). The paths of a function, with their loops, are followed on such a model: conditions are evaluated on the state of the model at the
point of the path they were read at, and loops are run iteration by iteration on the paths of one iteration."""
from lib import *
from algebra import *


class Stuck(Exception):
    """this path is not the one taken"""


class Endless(Exception):
    pass


class B:
    """kind: leaf, start (nothing to compute), never, sub (a submodel: counts as processed once asked, contains everything after it)"""

    def __init__(self, kind, needs=()):
        self.kind, self.needs = kind, tuple(needs)

    def __repr__(self):
        return self.kind + (str(list(self.needs)) if self.needs else '')


class Machine(World):
    LIM = 60

    def __init__(self, blocks, model, extra=None, order=None):
        self.blocks = blocks
        self.b = [sym('block %d' % i) for i in range(len(blocks))]
        self.out = [sym('signal of block %d' % i) for i in range(len(blocks))]
        self.idx = {t: i for i, t in enumerate(self.b)}
        self.sig = {t: i for i, t in enumerate(self.out)}
        self.model, self.extra = model, extra
        lens, alias = {}, {}
        dom = mk('visited', model)
        lens[dom] = len(blocks)
        for i, t in enumerate(self.b):
            alias[at(dom, num(i))] = t
        for i, x in enumerate(blocks):
            # its own signal is not required, the signals it needs are
            ls = mk('ld', H(self.b[i], '@linked_signals'))
            lens[ls] = 1 + len(x.needs) + (x.kind == 'never')
            for j, s in enumerate([self.out[i]] + [self.out[k] for k in x.needs] + ([sym('signal nobody produces')] if x.kind == 'never' else [])):
                alias[fld(at(ls, num(j)), 'first')] = s
                alias[fld(at(ls, num(j)), 'second')] = num(2 if j == 0 else 9)
        World.__init__(self, lambda t: None, lens, alias)
        self.touch()
        self.entry = frozenset()
        self.version = self.last = 0
        self.memo = {}
        self.done = frozenset()
        self.marked = False
        self.bind, self.snap, self.rets = {}, {}, {}
        self.trace = []          # (block, time) in order of evaluation
        self.calls = []
        self.stray = []

    # ---- state
    def touch(self):
        self._norm, self._val = {}, {}

    def save(self):
        return self.done, self.marked, dict(self.bind), dict(self.snap), dict(self.rets), list(self.trace), list(self.calls), self.version

    def restore(self, s):
        self.done, self.marked, self.bind, self.snap, self.rets, self.trace, self.calls = s[0], s[1], dict(s[2]), dict(s[3]), dict(s[4]), list(s[5]), list(s[6])
        self.version = s[7]
        self.touch()

    # ---- values
    def canon(self, t):
        """a value as a term of its own"""
        if t in self.bind:
            return self.bind[t]
        if t.op in ('lst', 'num', 'true', 'false', 'sym'):
            return self.alias.get(t, t)
        s = self.seq(self.norm(t)) if t.op not in ('poly',) else None
        if s is not None:
            return mk('lst', tuple(self.canon(x) for x in s))
        try:
            v = self.val(t)
        except Unknown:
            return self.norm(t)
        if v is True or v is False:
            return TRUE if v else FALSE
        return num(v) if isinstance(v, (int, Fr)) else v

    def seq(self, v):
        if v in self.bind:
            v = self.bind[v]
        if v.op == 'lst':
            return list(v.args[0])
        if v.op == 'ite':
            return self.seq(v.args[1] if self.val(v.args[0]) else v.args[2])
        return World.seq(self, v)

    def norm(self, t):
        def go(x):
            if isinstance(x, T):
                if x in self.bind:
                    return self.bind[x]
                if x.op in ('num', 'sym', 'str', 'this', 'lst'):
                    return self.alias.get(x, x)
                r = self._norm.get(x)
                if r is not None:
                    return r
                if x.op == 'at':
                    b, i = go(x.args[0]), self.index(x.args[1])
                    r = mk('at', b, i)
                    if is_num(i):
                        s = self.seq(b)
                        if s is not None and 0 <= numval(i) < len(s):
                            r = s[int(numval(i))]
                elif x.op in BOUND:
                    s = self.seq(x) if x.op in ('comp', 'scomp') else None
                    r = mk('lst', tuple(self.canon(y) for y in s)) if s is not None else x
                elif x.op == 'poly':
                    r = self.index(x)
                else:
                    r = rebuild(x, go)
                r = self.alias.get(r, r)
                self._norm[x] = r
                return r
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if isinstance(x, frozenset):
                return frozenset(go(y) for y in x)
            return x
        return go(t)

    def val(self, t):
        v = self._val.get(t)
        if v is None:
            try:
                v = self.value(t)
            except Unknown as x:
                v = x
            self._val[t] = v
        if isinstance(v, Unknown):
            raise v
        return v

    def value(self, t):
        if t in self.bind:
            t = self.bind[t]
        op = t.op
        if op == 'ret':
            k = self.retkey(t)
            if k in self.rets:
                return self.rets[k]
            raise Unknown(show(t))
        if op == 'ld' and t.args[0].op == 'H' and t.args[0].args[1] in ('@processed', '@assigned'):
            o = self.norm(t.args[0].args[0])
            d = self.at_epoch(t.args[1] if len(t.args) > 1 else None)
            if t.args[0].args[1] == '@processed' and o in self.idx:
                return self.idx[o] in d
            if t.args[0].args[1] == '@assigned':
                if o in self.sig:
                    return self.sig[o] in d and self.blocks[self.sig[o]].kind != 'start'
                if o.op == 'sym':
                    return False
            raise Unknown(show(t))
        if op == 'isa':
            o = self.norm(t.args[0])
            if o in self.idx and t.args[1] == 'pooya::Leaf':
                return self.blocks[self.idx[o]].kind != 'sub'
        if op == 'same':
            a, b = self.norm(t.args[0]), self.norm(t.args[1])
            if a in self.idx or b in self.idx or a in self.sig or b in self.sig:
                return a is b
        if op in ('fld', 'at'):
            x = self.norm(t)
            if x.op == 'num':
                return numval(x)
        if op == 'kend' and t in self.bind:
            return numval(self.bind[t])
        if self.extra:
            v = self.extra(t)
            if v is not None:
                return v
        return World.val(self, t)

    def retkey(self, t):
        return (t.args[0], t.args[-1])

    def at_epoch(self, ep):
        if ep is None or ep is mk('ep', '0'):
            return self.entry
        k = self.norm(ep)
        if k not in self.snap:
            raise Unknown('state at %s' % show(k))
        return self.snap[k]

    # ---- steps
    def ready(self, i):
        return all(k in self.done and self.blocks[k].kind != 'start' for k in self.blocks[i].needs)

    def attempt(self, i, t):
        """process a block; did it become processed"""
        if i in self.done:
            return False
        k = self.blocks[i].kind
        if k in ('leaf', 'start') and self.ready(i) or k == 'sub':
            self.done = self.done | {i}
            self.trace.append((i, t))
            return True
        return False

    def call(self, e):
        o = self.norm(e.args[0]) if e.args else None
        if e.name == '_mark_unprocessed' and o is self.model:
            self.done = frozenset(i for i, x in enumerate(self.blocks) if x.kind == 'start')
            self.marked = True
            return
        if e.name not in ('process', 'activation_function', '_mark_unprocessed'):
            return
        t = self.norm(e.args[1]) if len(e.args) > 1 else None
        r = 0
        if e.name == 'process' and o is self.model:
            r = sum([self.attempt(i, t) and self.blocks[i].kind != 'sub' for i in range(len(self.blocks))])
            self.calls.append(('sweep', t))
        elif e.name == 'process' and o in self.idx:
            i = self.idx[o]
            deep = len(e.args) > 2 and e.args[2] is TRUE
            if len(e.args) > 2 and e.args[2] not in (TRUE, FALSE):
                raise Unknown('depth of processing')
            if self.blocks[i].kind == 'sub':
                self.attempt(i, t)
                if deep:
                    r = sum([self.attempt(j, t) for j in range(i + 1, len(self.blocks))])
            else:
                r = int(self.attempt(i, t))
            self.calls.append((i, t))
        elif e.name == 'activation_function' and o in self.idx:
            self.calls.append((self.idx[o], t))
            self.trace.append((self.idx[o], t))
        else:
            raise Unknown('%s of %s' % (e.name, show(o)))
        if e.ret is not None and e.ret.op == 'ret':
            self.rets[self.retkey(e.ret)] = Fr(r)
            self.touch()

    def run(self, events):
        for e in events:
            if e.kind not in ('loop', 'call') and e.ep is None:
                continue
            if e.kind == 'loop':
                key = ('loop', id(e.x.outs), e.x.exit[0], id(e.x.exit[1]), e.ep)
            else:
                key = (e.kind, e.name, tuple(e.args), e.ep)
            # the same step from the same state leads to the same state
            key = (self.version, key)
            if key in self.memo:
                r = self.memo[key]
                if r is None:
                    raise Stuck()
                self.restore(r)
                continue
            try:
                if e.kind == 'loop':
                    self.loop(e.x)
                elif e.kind == 'call':
                    self.call(e)
            except Stuck:
                self.memo[key] = None
                raise
            if e.ep is not None:
                self.touch()
                self.snap[self.norm(e.ep)] = self.done
            self.fresh()
            self.memo[key] = self.save()

    def fresh(self):
        self.last += 1
        self.version = self.last

    def take(self, outs):
        """follow the one path whose conditions hold (or several that differ in nothing but what the model leaves open); returns them"""
        s0 = self.save()
        hits, sure = [], 0
        for o in outs:
            # conditions that do not hold whatever happens
            try:
                self.restore(s0)
                if any(self.surely(c) is False for c in o.conds):
                    continue
                self.run(o.events)
            except Stuck:
                continue
            ok, unk = True, None
            for c in o.conds:
                if c.op in ('lexit', 'loopset'):
                    continue
                try:
                    if not self.val(c):
                        ok = False
                        break
                except Unknown as x:
                    unk = x
            if not ok:
                continue
            sure += unk is None
            hits.append((o, self.save(), unk))
        if not hits:
            self.restore(s0)
            raise Stuck()
        if len(hits) > 1 and (sure == len(hits) or len({(h[0].kind, h[1][0], tuple(h[1][5]), tuple(h[1][6])) for h in hits}) > 1):
            raise Unknown('several paths at once: %s' % [h[2] or [show(c)[:100] for c in h[0].conds] for h in hits])
        self.restore(hits[0][1])
        return [h[0] for h in hits]

    def surely(self, c):
        """the value of a condition that does not depend on the state"""
        if any(s.op in ('ep', 'ret', 'mu', 'mufin', 'kend', 'k') for s in subterms(c)):
            return None
        try:
            return self.val(c)
        except Unknown:
            return None

    def loop(self, lp):
        key = (self.version, 'body', id(lp.outs))
        if key in self.memo:
            kind, os_, st = self.memo[key]
            self.restore(st)
        else:
            kind, os_ = self.iterate(lp)
            self.memo[key] = (kind, os_, self.save())
        if kind != lp.exit[0] or (kind != 'exhaust' and not any(x in os_ for x in lp.group)):
            raise Stuck()

    def iterate(self, lp):
        kap = mk('k', lp.uid)
        os_ = []
        n = None
        if lp.n is not None:
            n = int(self.number(lp.n))
        roots = [r for r in lp.carried if r not in lp.inds]
        cur = {}
        for r in roots:
            cur[r] = self.canon(lp.init[r])
        body = [o for o in lp.outs if o.kind != 'exhaust' or n is None]
        k = 0
        kind = None
        while True:
            self.touch()
            self.bind[kap] = num(k)
            for r in roots:
                self.bind[mk('mu', lp.uid, r)] = cur[r]
            if n is not None and k >= n:
                kind = 'exhaust'
                break
            if k > self.LIM:
                raise Endless()
            stack = [self.bind[x] for x in self.stack] + [num(k)]
            self.snap[mk('ep', 'loop' + lp.uid, *stack)] = self.done
            self.fresh()
            self.stack.append(kap)
            try:
                os_ = self.take(body)
            except Stuck:
                raise Unknown('no path of an iteration')
            finally:
                self.stack.pop()
            self.touch()
            news = []
            for o in os_:
                new = {}
                for r in roots:
                    v = o.cells.get(r)
                    new[r] = cur[r] if v is None else self.canon(v)
                news.append(new)
            o, new = os_[0], news[0]
            if any(x != new for x in news):
                raise Unknown('several results of an iteration')
            if o.kind == 'ok':
                cur = new
                k += 1
                continue
            kind = o.kind
            break
        for r in roots:
            self.bind[mk('mufin', lp.uid, r)] = cur[r]
        self.bind[mk('kend', lp.uid)] = num(k)
        self.bind.pop(kap)
        self.touch()
        return kind, os_

    stack = ()

    def start(self, outs):
        self.stack = []
        self.done = self.entry
        return self.take(outs)[0]
