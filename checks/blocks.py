"""What is documented about each library block: ports, formula (as terms over ports and constructor parameters)."""
from lib import *
from algebra import *

ANY = 65535


def par(c, i):
    return sym(c['params'][i]['n'] or 'arg%d' % i)


def io(i):
    return V(ibus_at(i))


N = size(mk('ld', H(IBUS, '@signals')))


def total(op):
    return mk(op, N, frozenset({(frozenset({frozenset()}), V(fld(at(mk('ld', H(IBUS, '@signals')), mk('bk', 0)), 'second')))}), 0)


class Spec:
    def __init__(self, ins, outs, inports, val=None, fn=None, stateful=False):
        self.ins, self.outs, self.inports, self.val, self.fn, self.stateful = ins, outs, inports, val, fn, stateful


def P0(name):
    """arity given by a constructor parameter of that position from the end"""
    return ('param', name)


SPEC = {
    'pooya::AddT': Spec(ANY, 1, None, val=lambda c: add(par(c, 0), total('sum'))),
    'pooya::MultiplyT': Spec(ANY, 1, None, val=lambda c: mul(par(c, 0), total('prod'))),
    'pooya::SubtractT': Spec(2, 1, [ibus_at(0), ibus_at(1)], val=lambda c: sub(io(0), io(1))),
    'pooya::DivideT': Spec(2, 1, [ibus_at(0), ibus_at(1)], val=lambda c: div(io(0), io(1))),
    'pooya::GainT': Spec(1, 1, [ibus_at(0)], val=lambda c: mul(par(c, 0), io(0))),
    'pooya::PipeT': Spec(1, 1, [ibus_at(0)], val=lambda c: io(0)),
    'pooya::ConstT': Spec(0, 1, [], val=lambda c: par(c, 0)),
    'pooya::SourceT': Spec(None, 1, [], fn=lambda c: (par(c, 0), sym('t'))),
    'pooya::SISOFunctionT': Spec(1, 1, [ibus_at(0)], fn=lambda c: (par(c, 0), sym('t'), io(0))),
    'pooya::SOFunctionT': Spec(('param', 3), 1, None, fn=lambda c: (par(c, 0), sym('t'), IBUS)),
    'pooya::Function': Spec(('param', 3), ('param', 4), None, fn=lambda c: (par(c, 0), sym('t'), IBUS, OBUS)),
    'pooya::Sources': Spec(0, ('param', 3), [], fn=lambda c: (par(c, 0), OBUS, sym('t'))),
    'pooya::MemoryT': Spec(1, 1, [ibus_at(0)], stateful=True),
    'pooya::DelayT': Spec(3, 1, [ibus_named('in'), ibus_named('delay'), ibus_named('initial')], stateful=True),
    'pooya::DerivativeT': Spec(1, 1, [ibus_at(0)], stateful=True),
    'pooya::InitialValueT': Spec(1, 1, [ibus_at(0)], stateful=True),
    'pooya::IntegratorT': Spec(1, 1, [ibus_at(0)], stateful=True),
    'pooya::TriggeredIntegratorT': Spec(2, 1, [ibus_at(0), ibus_named('trigger')], stateful=True),
}
ACT, PRE, POST = 'activation_function', 'pre_step', 'post_step'
OUT = obus_at(0)


def each_block(ctx, templates, P=None):
    """(class, spec, constructors) of every instance of the templates"""
    P = P or ctx.R
    for t in templates:
        cs = ctx.classes(t, P)
        if not cs:
            raise Broken('no block class %s' % t)
        for c in cs:
            ct = [k for k in ctx.ctors(c, P)]
            if not ct:
                if any(p[0] == 'instantiation' for p in P.problems):
                    continue      # reported by C30
                raise Broken('no constructor of %s' % c)
            yield c, SPEC[t], ct


def inst_ok(ctx, cls, P=None):
    P = P or ctx.R
    return not any(p[0] == 'instantiation' and p[1] == cls for p in P.problems)


def samesig(a, b):
    """the same port: by index or by label"""
    return now(a) is now(b)


def sets(o):
    """(signal, value, loop, event) of every signal assignment on a path"""
    return [(e.args[0], e.args[1], l, e) for e, l in walk(o.events) if e.kind == 'set']


def ctor_of(o, ctors):
    return o.connect.ctor if hasattr(o, 'connect') else None
