"""The loop over sub-steps of a run as a transition system: one record per way through an iteration."""
from simrun import *

NH, NS = sym('proposed step'), sym('stepped state')


class Iter:
    pass


class Substeps:
    """lp: the loop that contains the call of the stepper; its iteration paths with the stepper's results named"""

    def __init__(self, ctx, P, R, f, o):
        e = [e for e in o.events if e.kind == 'loop' and any(x.kind == 'call' and x.name == 'step' for q in e.x.outs for x, l in walk(q.events))]
        if len(e) != 1:
            raise Maybe('no single loop over sub-steps')
        self.o, self.lp, self.ev = o, e[0].x, e[0]
        lp = self.lp
        sd = [m for m in P.methods.get('pooya::StepperBase', []) if m['n'] == 'step']
        if len(sd) != 1:
            raise Broken('StepperBase::step')
        ps = [p['ty'] for p in sd[0]['params']]
        dbl = [i for i, t in enumerate(ps) if t == 'double']
        out = [i for i, t in enumerate(ps) if t.endswith('&') and not t.startswith('const')]
        arr = [i for i, t in enumerate(ps) if 'Array' in t and not t.startswith('std::function')]
        if len(dbl) != 2 or len(out) != 2 or len(arr) != 2:
            raise Broken('parameters of StepperBase::step: %s' % ps)
        iv0 = [i for i in arr if i not in out][0]
        iv1 = [i for i in arr if i in out][0]
        inh = [i for i in out if i not in arr][0]
        t1, t2 = dbl
        self.iters, self.exits = [], []
        for q in lp.outs:
            st = [x for x in q.events if x.kind == 'call' and x.name == 'step']
            deep = [x for x, l in walk(q.events) if x.kind == 'call' and x.name == 'step']
            if q.kind == 'exhaust' or not deep:
                if deep:
                    raise Maybe('step on leaving')
                it = Iter()
                it.out, it.conds, it.step = q, [self.nf(c) for c in q.conds], None
                it.next = {r: self.nf(v) for r, v in q.cells.items()}
                (self.exits if q.kind in ('exhaust', 'break', 'return') else self.iters).append(it)
                if q.kind not in ('exhaust', 'break', 'throw'):
                    raise Maybe('an iteration without step')
                continue
            if len(st) != 1 or len(deep) != 1:
                raise Maybe('several steps in one iteration')
            s = st[0]
            m = {}
            for c in subterms(tuple(q.conds) + tuple(q.cells.values()) + tuple(a for x, l in walk(q.events) for a in x.args if isinstance(a, T))):
                if c.op == 'ret' and c.args[0] == 'step.%d' % inh:
                    m[c] = NH
                elif c.op == 'ret' and c.args[0] == 'step.%d' % iv1:
                    m[c] = NS
            it = Iter()
            it.out, it.m, it.step = q, m, s
            it.conds = [self.nf(subst(c, m)) for c in q.conds]
            it.next = {r: self.nf(subst(v, m)) for r, v in q.cells.items()}
            it.T1, it.T2, it.V0 = self.nf(s.args[1 + t1]), self.nf(s.args[1 + t2]), s.args[1 + iv0]
            it.stepper = s.args[0]
            it.kind = q.kind
            (self.iters).append(it)
        self.cells = [r for r in lp.carried if not (lp.inds and r in lp.inds)]
        self.init = {r: self.nf(v) for r, v in lp.init.items()}
        self.pre = [self.nf(c) for c in o.conds if not mentions_loop(c, lp.uid)]

    def nf(self, t):
        return t

    def cell(self, r):
        return mk('mu', self.lp.uid, r)

    def shift(self, it):
        """the substitution that puts iteration values of `it` for the carried cells"""
        m = {}
        for r in self.cells:
            m[self.cell(r)] = it.next.get(r, self.cell(r)) if it is not None else self.init[r]
        return m


def mentions_loop(c, uid):
    for s in subterms(c):
        if s.op in ('mu', 'mufin', 'k', 'kend') and s.args and str(s.args[0]).split('.')[0] == str(uid):
            return True
        if s.op == 'mufin' and s.args[0] == uid:
            return True
    return False


def arith(c):
    """is this literal about numbers or flags of the loop (and not about callbacks, buses, ...)"""
    a = c.args[0] if c.op == 'not' else c
    return a.op in ('cmp', 'mu', 'and', 'or')
