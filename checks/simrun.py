"""Shared part of the checks on the simulators: roles of the fields, what each loop over signals does, evaluation passes, the sub-step loop."""
from blocks import *
import linear

SB = 'pooya::SimulatorBase'
PASS = {'input_cb', 'pre_step', 'post_step', 'process', '_mark_unprocessed', 'activation_function', 'process_model', 'step'}
KH = mk('kk')          # stands for the running index of a loop over signals


class Roles:
    """the members of the simulator base class by what they are declared as"""

    def __init__(self, P):
        fs = P.recs[SB]['fields']

        def one(what, pred, need=True):
            c = [P.canon(SB, f['f']) for f in fs if pred(f['ty'])]
            if len(c) != 1:
                if need:
                    raise Broken('%s of the simulator base: %s' % (what, c))
                return None
            return H(this, c[0])
        lst = lambda t: (lambda ty: ty.startswith('std::vector<std::shared_ptr<pooya::%s>' % t))
        self.VLr, self.SLr = one('list of value signals', lst('ValueSignalImpl')), one('list of scalar states', lst('ScalarSignalImpl'))
        self.ALr = one('list of array states', lst('ArraySignalImpl'))
        self.VL, self.SL, self.AL = (mk('ld', r) for r in (self.VLr, self.SLr, self.ALr))
        self.cbr = one('input callback', lambda ty: ty.startswith('std::function<'))
        self.cb = mk('ld', self.cbr)
        self.stepper = mk('ld', one('stepper', lambda ty: ty == 'pooya::StepperBase *'))
        self.model = mk('ld', one('model', lambda ty: pointee(ty) == 'pooya::Block' or ty == 'pooya::Block &'))
        ts = [H(this, P.canon(SB, f['f'])) for f in fs if f['ty'] == 'double']
        if len(ts) > 1:
            # the one initialisation sets to the time it is given
            f = [m for m in P.methods.get(SB, []) if m['n'] == 'init' and len(m['params']) == 1]
            outs = [o for m in f[:1] for o in Interp(P, SB).run(m['id']) if o.kind == 'return']
            ts = [r for r in ts if outs and all(o.cells.get(r) is sym(f[0]['params'][0]['n']) for o in outs)]
        if len(ts) != 1:
            raise Broken('current time of the simulator base: %s' % ts)
        self.tprev = ts[0]
        self.arrays = [H(this, P.canon(SB, f['f'])) for f in fs if f['ty'].startswith('Eigen::Array<double')]
        self.flags = [H(this, P.canon(SB, f['f'])) for f in fs if f['ty'] == 'bool']


def simulators(P):
    return sorted(c for c in P.recs if P.derives(c, SB) and c != SB and c.startswith('pooya::'))


# ---------------------------------------------------------------- loops over signals
def transfers(lp, R):
    """what a loop over one of the signal lists does for each of its entries: a list of records, or None when it is something else"""
    its = [o for o in lp.outs if o.kind != 'exhaust']
    if len(its) != 1 or its[0].kind != 'ok' or lp.n is None:
        return None
    o, k = its[0], mk('k', lp.uid)
    lists = {size(l): n for n, l in (('value', R.VL), ('scalar', R.SL), ('array', R.AL))}
    which = None
    res = []
    m = {k: KH}

    def signal(p):
        d = False
        if p.op == 'ld' and p.args[0].op == 'H' and p.args[0].args[1] == '@deriv':
            p, d = p.args[0].args[0], True
        for n, l in (('value', R.VL), ('scalar', R.SL), ('array', R.AL)):
            if p is at(l, k):
                return n, d, True
            if p.op == 'at' and p.args[0] is l:
                return n, d, False
        return None
    for e in o.events:
        if e.kind in ('get',):
            continue
        if e.kind == 'clear':
            s = signal(e.args[0])
            if s is None:
                return None
            res.append(dict(kind='clear', list=s[0], straight=s[2] and not s[1], e=e))
        elif e.kind == 'set':
            s = signal(e.args[0])
            v = e.args[1]
            if s is None:
                return None
            d = dict(kind='set', list=s[0], straight=s[2] and not s[1], e=e, off=None, len=None, vec=None)
            if v.op == 'at':
                d.update(vec=v.args[0], off=subst(v.args[1], m), len=ONE)
            elif v.op == 'slice':
                d.update(vec=v.args[0], off=subst(v.args[1], m), len=subst(v.args[2], m))
            res.append(d)
        elif e.kind == 'store':
            l, v = e.args[0], e.args[1]
            x = v
            if not (x.op == 'ld' and x.args[0].op == 'H' and x.args[0].args[1] == '@value'):
                return None
            s = signal(x.args[0].args[0])
            if s is None or len(l.args[1]) != 1:
                return None
            p = l.args[1][0]
            d = dict(kind='get', list=s[0], deriv=s[1], straight=s[2], e=e, root=l.args[0], off=subst(p[1], m), len=subst(p[2], m) if p[0] == 's' else ONE, ep=x.args[1] if len(x.args) > 1 else None)
            res.append(d)
        elif e.kind == 'loop':
            return None
        elif e.kind in ('call', 'fn') and e.name in PASS:
            return None
    for d in res:
        d['full'] = lp.n is size({'value': R.VL, 'scalar': R.SL, 'array': R.AL}[d['list']])
        d['loop'] = lp
    if not res and any(e.kind not in ('get',) for e in o.events):
        return None
    return res


def tokens(events, R):
    """a path as a sequence of: clear / set / get transfers, inputs, input_cb, pre_step, post_step, process..., other loops"""
    out = []
    for e in events:
        if e.kind == 'loop':
            ts = transfers(e.x, R)
            if ts is None:
                out.append(('loop', e))
            else:
                out += [(d['kind'], e, d) for d in ts]
        elif e.kind == 'fn':
            out.append(('inputs', e) if e.args and e.args[0] is R.cb else ('fn', e))
        elif e.kind == 'call' and e.name in PASS:
            out.append((e.name, e))
        elif e.kind in ('set', 'clear', 'store'):
            out.append(('single', e))
    return out


def offset(d, ns, sizes):
    """the entries a transfer touches for each signal of its list, for the given numbers of signals and array sizes"""
    out = []
    n = {'scalar': ns, 'array': len(sizes)}[d['list']]
    R = d['R']

    def atom(x):
        if x.op == 'ld' and x.args[0].op == 'H' and x.args[0].args[1] == '@size':
            s = x.args[0].args[0]
            if s.op == 'ld' and s.args[0].args[1] == '@deriv':
                s = s.args[0].args[0]
            for i in range(len(sizes)):
                if s is at(R.AL, num(i)):
                    return Fr(sizes[i])
            for i in range(ns):
                if s is at(R.SL, num(i)):
                    return Fr(1)
        return None
    for i in range(n):
        W = World(atom, {R.SL: ns, R.AL: len(sizes)})
        m = {KH: num(i)}
        try:
            o, l = W.number(subst(d['off'], m)), W.number(subst(d['len'], m))
        except Unknown:
            return None
        out.append((int(o), int(l)))
    return out


# ---------------------------------------------------------------- small models: blocks with linked signals
KIND = {'scalar': 'pooya::ScalarSignalImpl', 'array': 'pooya::ArraySignalImpl', 'int': 'pooya::IntSignalImpl', 'bool': 'pooya::BoolSignalImpl'}


class Sig:
    def __init__(self, name, kind, state=False, size=1):
        self.name, self.kind, self.state, self.size = name, kind, state, size
        self.t = sym('signal ' + name)


SIGS = dict((s.name, s) for s in (Sig('x', 'scalar', True), Sig('y', 'scalar', True), Sig('u', 'scalar'), Sig('A', 'array', True, 3), Sig('B', 'array', True, 2), Sig('v', 'array', False, 4),
                                  Sig('b', 'bool'), Sig('i', 'int')))
MODELS = ([], [''], ['x'], ['u'], ['A'], ['bi'], ['xx'], ['xuAvbi'], ['x', 'x'], ['xA', 'Ax'], ['xy', 'ub'], ['AB', 'BA', 'v'], ['xuA', '', 'yBx', 'bi'], ['yx', 'B', 'Av', 'xBu'])


# what links a block can have to a signal (input, output, internal, and required or not)
LINKS = (9, 2, 4, 12, 1, 6)


def network(R, blocks, P, extra=None, shift=0):
    """a world with the given model: for each block the signals linked to it"""
    seen = 0
    dom = mk('visited', R.model)
    lens, alias = {dom: len(blocks)}, {}
    for i, b in enumerate(blocks):
        ls = mk('ld', H(at(dom, num(i)), '@linked_signals'))
        lens[ls] = len(b)
        for j, c in enumerate(b):
            alias[fld(at(ls, num(j)), 'first')] = SIGS[c].t
            alias[fld(at(ls, num(j)), 'second')] = num(LINKS[(seen + shift) % len(LINKS)])
            seen += 1
    by = {s.t: s for s in SIGS.values()}

    def atom(t):
        if t.op == 'isa' and t.args[0] in by:
            k = KIND[by[t.args[0]].kind]
            return P.derives(k, t.args[1])
        if t.op == 'same':
            a, b = t.args
            if b is NULL or a is NULL:
                x = a if b is NULL else b
                if x.op == 'ld' and x.args[0].op == 'H' and x.args[0].args[1] == '@deriv' and x.args[0].args[0] in by:
                    return not by[x.args[0].args[0]].state
                if x.op == 'fld' or x in by:
                    return False
        if t.op == 'ld' and t.args[0].op == 'H' and t.args[0].args[0] in by and t.args[0].args[1] == '@size':
            return Fr(by[t.args[0].args[0]].size)
        return extra(t) if extra else None
    return World(atom, lens, alias)


def conds(W, o):
    for c in o.conds:
        try:
            yield W.val(now(c))
        except Unknown:
            yield None


# ---------------------------------------------------------------- runs
def mainrun(ctx, P, f):
    """the paths of a run with the evaluation of the model as an event, and the paths of the derivative function handed to the stepper"""
    cache = ctx.__dict__.setdefault('_mainrun', {})
    key = (P.config, f['id'])
    if key in cache:
        return cache[key]
    I = Interp(P, f['cls'], events_on_this={'process_model', 'init'})
    outs = I.run(f['id'])
    ctx.note(I, outs)
    lams = {}
    for o in outs:
        for e, l in walk(o.events):
            if e.kind == 'call' and e.name == 'step' and e.args[1].op == 'lam':
                lams.setdefault(e.args[1], e)
    cbs = []
    for lam, e in lams.items():
        cbs += callback(I, lam, e)
    ctx.note(I, cbs)
    cache[key] = (I, outs, cbs)
    return cache[key]


CT, CV = sym('trial time'), sym('trial state')


def callback(I, lam, e):
    """the paths of a function object called back with any time and state"""
    st = State()
    st.cells = {r: v for r, v in (e.snap or {}).items() if r.op not in ('H',)}
    st.nframe, st.nev, st.nnew = 5000, 5000, 5000
    st.epoch = mk('ep', 'trial')
    I.facts.ty[CT] = 'double'
    I.facts.ty[CV] = 'Eigen::Array<double, -1, 1, 0, -1, 1>'
    r = mk('A', 'trial state')
    st.cells[r] = CV

    def thunk():
        v = I.call_lam(lam, [I.temp(CT), loc(r)])
        raise IN.ReturnEx(v)
    I.stack = [IN.Frame(4999, {}, I.this, dict(id='cb', q='callback', n='callback', rt='', params=[]), None)]
    try:
        return I.explore(thunk, st, ('callback', lam))
    finally:
        I.stack = []
