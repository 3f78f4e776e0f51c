"""Signals and handles analysed as plain code (nothing about them is assumed)."""
from lib import *
from algebra import *

VALUE = ('pooya::ScalarSignalImpl', 'pooya::IntSignalImpl', 'pooya::BoolSignalImpl', 'pooya::ArraySignalImpl')
ARR = 'pooya::ArraySignalImpl'
SIGT = 'pooya::SignalImpl'
VP = 'pooya::ValueSignalImpl'
TRACE = ('A', 'L', 'G', 'T', 'M')


def impls(ctx, P):
    """the concrete value signal classes"""
    out = sorted(c for c in P.derived(VP) if c in VALUE)
    if len(out) < 4:
        raise Broken('value signal classes missing: found %s' % out)
    return out


def handles(ctx, P, bus=True):
    """typed handle class -> signal class"""
    out = {}
    for h, i in P.handles.items():
        if i in VALUE or (bus and i == 'pooya::BusImpl'):
            if P.recs[h]['ct'] != 'pooya::SignalT':
                out[h] = i
    if len(out) < (5 if bus else 4):
        raise Broken('typed handle classes missing: found %s' % sorted(out))
    return out


def viewfields(P, h):
    """the fields of a handle that point to its signal"""
    return [f['f'] for c, f in P.all_fields(h) if pointee(f['ty']) and P.derives(pointee(f['ty']), SIGT)]


def rootobj(P, h, S):
    return rec({f: S for f in viewfields(P, h)})


def interp(P, cls, **kw):
    return Interp(P, cls, raw=True, **kw)


def know(I, S, impl):
    I.facts.ty[S] = impl + ' *'
    I.facts.nonnulls.add(S)
    return S


def known(st, I, S, impl, P):
    """S certainly is an object of class impl"""
    st.pc.add(mk('isa', S, impl), True) if hasattr(st.pc, 'add') else None


def globals_(r):
    return r.op == 'G' or (r.op == 'H' and r.args[0].op == 'G')


def changed(o, start=None):
    """what a path leaves different: {root: value} of everything that outlives the call, diagnostics aside"""
    out = {}
    for r, v in o.cells.items():
        if r.op in ('L', 'T', 'M') or globals_(r) or (r.op == 'A' and start is None):
            continue
        if start is not None and start.cells.get(r) is v:
            continue
        if v is mk('ld', r):
            continue
        if r.op == 'H':
            a = r.args[0]
            if a.op == 'new' and start is None:
                pass
        out[r] = v
    return out


def ival(o):
    return now(o.val) if isinstance(o.val, T) else o.val


def world(asg, lens=()):
    """an interpretation given by a table of terms"""
    tab = {now(k): v for k, v in asg.items()}

    def atom(t):
        return tab.get(now(t))
    return World(atom, {})


def taken(outs, W):
    """the paths an interpretation may take; None when that is not known"""
    res, unknown = [], []
    for o in outs:
        u = False
        ok = True
        for c in o.conds:
            try:
                if not W.val(c):
                    ok = False
                    break
            except Unknown:
                u = True
        if ok:
            (unknown if u else res).append(o)
    return res, unknown
