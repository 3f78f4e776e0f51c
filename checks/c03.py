"""C03: signals exist only under shared ownership and cannot be re-seated by accident"""
import re
from sigs import *
from engine import witness

RULE = """(1) Compile-fail witnesses: small programs that create a signal object without the factory (by each constructor form, by copy, by new, by make_shared, by forging
the passkey), or assign a generic signal or a handle of another kind to a typed value handle, are type-checked against the current headers in both build modes and must be
rejected; their positive twins (the factory, the handles, assigning values) must be accepted, so that a rejection is not an accident of the program's surroundings.
(2) Every field, global and static of the library whose type mentions a signal must hold it by shared_ptr, handle or container of these.  (3) Every construction of a shared_ptr
to a signal must take ownership of a fresh object, copy another owner or come from shared_from_this / make_shared.  (4) The assignment operators of the value handles that
overload resolution can select leave both views of the handle alone on every path."""
ASSUME = ['the listed witness programs stand for the ways of creating and assigning signals', 'deriving a class of one\'s own from a signal class is not accidental']

INC = '''#include "src/signal/bus.hpp"
#include "src/signal/scalar_signal.hpp"
#include "src/signal/int_signal.hpp"
#include "src/signal/bool_signal.hpp"
#include "src/signal/array_signal.hpp"
#include <memory>
#include <utility>
#include <vector>
using namespace pooya;
'''
H4 = {'ScalarSignal': ('ScalarSignalImpl', '"n"', '"n"', '1.0'), 'IntSignal': ('IntSignalImpl', '"n"', '"n"', '1'),
      'BoolSignal': ('BoolSignalImpl', '"n"', '"n"', 'true'), 'ArraySignal': ('ArraySignalImpl', '2, "n"', '2, "n"', 'Array::Zero(2)')}


def witnesses():
    """(name, code, must be accepted)"""
    w = []

    def rej(n, body, decl=''):
        w.append((n, INC + decl + 'void witness() { %s }\n' % body, False))

    def acc(n, body, decl=''):
        w.append((n, INC + decl + 'void witness() { %s }\n' % body, True))
    for h, (i, cargs, hargs, val) in H4.items():
        acc('%s by its factory' % i, 'auto p = %s::create_new(%s); %s h(*p); (void)h;' % (i, cargs, h))
        acc('%s of its own' % h, '%s a; %s b(%s); %s c(a); (void)b; (void)c;' % (h, h, hargs, h))
        acc('%s takes values and its own kind' % h, '%s a, b; a = b; a = %s;' % (h, val))
        rej('%s on the stack' % i, '%s x(%s);' % (i, cargs))
        rej('%s on the stack, passkey from {}' % i, '%s x({}, %s);' % (i, cargs))
        rej('%s by new' % i, 'auto* x = new %s(%s); (void)x;' % (i, cargs))
        rej('%s by new, passkey from {}' % i, 'auto* x = new %s({}, %s); (void)x;' % (i, cargs))
        rej('%s by default' % i, '%s x; (void)x;' % i)
        rej('%s by make_shared' % i, 'auto x = std::make_shared<%s>(%s); (void)x;' % (i, cargs))
        rej('%s with the named passkey' % i, '%s x(%s::Protected(), %s);' % (i, i, cargs))
        rej('%s with the named passkey in braces' % i, '%s x(%s::Protected{}, %s);' % (i, i, cargs))
        rej('copy of a %s' % i, 'auto p = %s::create_new(%s); %s x(*p); (void)x;' % (i, cargs, i))
        rej('%s moved out' % i, 'auto p = %s::create_new(%s); %s x(std::move(*p)); (void)x;' % (i, cargs, i))
        rej('%s overwritten' % i, 'auto p = %s::create_new(%s); auto q = %s::create_new(%s); *p = *q;' % (i, cargs, i, cargs))
        rej('%s in a container' % i, 'auto p = %s::create_new(%s); std::vector<%s> v; v.push_back(*p);' % (i, cargs, i))
        for g in ('Signal', 'const Signal', 'Bus'):
            w.append(('%s = %s' % (h, g), INC + 'void witness(%s& a, %s& g) { a = g; }\n' % (h, g), False))
        w.append(('%s = temporary Signal' % h, INC + 'void witness(%s& a, Bus& g) { a = g.at("x"); }\n' % h, False))
        w.append(('%s = Signal from its own kind' % h, INC + 'void witness(%s& a, %s& g) { a = Signal(g); }\n' % (h, h), False))
        w.append(('%s = signal object' % h, INC + 'void witness(%s& a, %s& g) { a = g.impl(); }\n' % (h, h), False))
        w.append(('%s from a signal without saying so' % h, INC + 'void f(%s); void witness(Signal& g) { f(g); }\n' % h, False))
        w.append(('%s from a signal, said so' % h, INC + 'void f(%s); void witness(Signal& g) { f(%s(g)); }\n' % (h, h), True))
    num_ = ('ScalarSignal', 'IntSignal', 'BoolSignal')
    for h in H4:
        for g in H4:
            if h != g and ('ArraySignal' in (h, g)):
                w.append(('%s = %s' % (h, g), INC + 'void witness(%s& a, %s& g) { a = g; }\n' % (h, g), False))
                w.append(('%s = const %s' % (h, g), INC + 'void witness(%s& a, const %s& g) { a = g; }\n' % (h, g), False))
    acc('Bus by its factory', 'ScalarSignal s; auto p = BusImpl::create_new({Signal(s)}, "b"); Bus b(*p); Bus c({s}, "c"); (void)c;')
    rej('BusImpl on the stack', 'ScalarSignal s; BusImpl x({Signal(s)}, "b");')
    rej('BusImpl on the stack, passkey from {}', 'ScalarSignal s; BusImpl x({}, {Signal(s)}, "b");')
    rej('BusImpl with the named passkey', 'ScalarSignal s; BusImpl x(BusImpl::Protected(), {Signal(s)}, "b");')
    rej('copy of a BusImpl', 'Bus b; BusImpl x(b.impl()); (void)x;')
    rej('BusImpl overwritten', 'Bus b, c; b.impl() = c.impl();')
    rej('SignalImpl on the stack', 'SignalImpl x("n");')
    rej('ValueSignalImpl on the stack', 'ValueSignalImpl x("n");')
    rej('SignalImpl by make_shared', 'auto x = std::make_shared<SignalImpl>("n"); (void)x;')
    rej('copy of a SignalImpl', 'Bus b; SignalImpl x(static_cast<SignalImpl&>(b.impl())); (void)x;')
    rej('a handle without a signal', 'Signal s; (void)s;')
    rej('a handle of nothing', 'Signal s(nullptr); (void)s;')
    return w


def check(ctx):
    ws = witnesses()
    ctx.extra = dict(witnesses=len(ws))
    for P in (ctx.R, ctx.D):
        ctx.each('witnesses', 'type checker', judge, ctx, P, ws)
        ctx.each('stored signals', 'fields', storage, ctx, P)
        ctx.each('owners', 'constructions', owners, ctx, P)
        for h, c in sorted(handles(ctx, P, bus=False).items()):
            ms = [m for m in P.methods.get(h, []) if m['n'] == 'operator=' and 'body' in m]
            if not ms:
                raise Broken('%s has no assignment' % h)
            for m in ms:
                ctx.each('assignment (%s)' % P.config, ctx.where(m), assignment, ctx, P, h, c, m)


def judge(ctx, P, ws):
    res = witness.accepted({n: c for n, c, _ in ws}, P.config)
    pos_ok = all(res[n] is None for n, c, a in ws if a)
    for n, c, a in ws:
        w = 'program "%s" (%s)' % (n, P.config)
        if a:
            if res[n] is None:
                ctx.hold('the twin program is accepted', w)
            else:
                # not demanded by the property itself, but then its negative twins say nothing
                ctx.undecided('the twin program is accepted', w, res[n])
        elif res[n] is not None:
            ctx.hold('the program is rejected by the type checker', w)
        else:
            ctx.violate('the program is rejected by the type checker', w, 'accepted:\n' + c[len(INC):])


def sigclass(P, t):
    t = strip(t)
    return t in P.recs and (P.derives(t, SIGT) or P.derives(t, 'pooya::Signal'))


RAW = re.compile(r'((?:const )?pooya::[A-Za-z_0-9]+(?:<[^*&]*>)?)(?: const)?\s*([*&])')


def rawparts(P, ty):
    """signal classes a type refers to by raw pointer or reference (parameter lists of function types aside)"""
    t = ty
    # function types hold no signal: drop  R (args)
    while True:
        n = re.sub(r'\([^()]*\)', '', t)
        if n == t:
            break
        t = n
    out = [m.group(1) + m.group(2) for m in RAW.finditer(t) if sigclass(P, m.group(1))]
    for wrap in ('std::weak_ptr<', 'std::reference_wrapper<', 'std::unique_ptr<', 'std::weak_ptr<const '):
        for m in re.finditer(re.escape(wrap), t):
            a = targ(t[m.start():])
            if a and sigclass(P, a):
                out.append(wrap + a + '>')
    # the object itself by value
    for c in P.recs:
        if P.derives(c, SIGT) and (strip(t) == c or re.search(r'<%s[,>]' % re.escape(c), t) and not re.search(r'(shared_ptr|enable_shared_from_this)<%s[,>]' % re.escape(c), t)):
            out.append(c)
    return out


from engine.prog import targ


def storage(ctx, P):
    n = 0
    for c, r in sorted(P.recs.items()):
        if not c.startswith('pooya::') and 'gnuplot' in c:
            continue
        for f in r['fields']:
            if not any(k in f['ty'] for k in ('Signal', 'Bus')):
                continue
            n += 1
            bad = rawparts(P, f['ty'])
            w = '%s:%s field %s::%s (%s)' % (short(r.get('file', '?')), f.get('l'), c, f['f'], P.config)
            ctx.check('a stored signal is shared', w, not bad, '%s holds %s' % (f['ty'], bad))
    for g in P.d['globals']:
        if 'Signal' in g['ty'] or 'Bus' in g['ty']:
            n += 1
            bad = rawparts(P, g['ty'])
            ctx.check('a stored signal is shared', '%s:%s %s' % (short(g['file']), g['l'], g['q']), not bad, g['ty'])
    if n < 15:
        raise Broken('only %d stored signals found' % n)


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def peel(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'temp', 'bind', 'cleanup') and isinstance(e.get('e'), dict):
        e = e['e']
    return e


def owners(ctx, P):
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f['id']):
        if 'body' not in f:
            continue
        for x in nodes([f['body'], f.get('inits', [])]):
            if x.get('k') not in ('ctor', 'call'):
                continue
            ty = strip(x.get('ty', ''))
            q = (x.get('c') or {}).get('q', '')
            args = x.get('args', [])
            if x['k'] == 'ctor':
                if not ty.startswith('std::shared_ptr<') or not sigclass(P, pointee(ty) or ''):
                    continue
                if not args:
                    continue
                a = args[0]
            elif q.endswith('::reset') and strip((x.get('obj') or {}).get('ty', '')).startswith('std::shared_ptr<') and sigclass(P, pointee(strip(x['obj']['ty'])) or '') and args:
                a = args[0]
            else:
                continue
            n += 1
            w = '%s:%s %s' % (short(f.get('file', '?')), x.get('l'), f['q'])
            at_ = strip(peel(a).get('ty', '') or a.get('ty', ''))
            raw = at_.endswith('*') and not peel(a).get('k') == 'new'
            alias = len(args) == 2 and not strip(args[1].get('ty', '')) == 'bool' and x['k'] == 'ctor' and strip(args[1].get('ty', '')).endswith('*')
            if at_ == 'std::nullptr_t' or peel(a).get('k') == 'null':
                raw = False
            if alias and at_.startswith('std::shared_ptr<') and not sigclass(P, pointee(at_) or ''):
                ctx.violate('an owner shares the signal it points to', w, 'aliasing constructor over %s' % at_)
            elif raw:
                ctx.check('an owner of a signal shares it', w, False if sigclass(P, pointee(at_) or '') else None, 'shared_ptr made from a plain %s' % at_)
            elif peel(a).get('k') == 'new' and len(args) > 1:
                ctx.undecided('an owner of a signal shares it', w, 'own deleter')
            else:
                ctx.hold('an owner of a signal shares it', w)
    if n < 5:
        raise Broken('only %d owners found' % n)


def assignment(ctx, P, h, c, m):
    I = interp(P, h)
    S, A = know(I, sym('self_signal'), c), know(I, sym('other_signal'), c)
    st = State()
    for n in viewfields(P, h):
        st.cells[H(this, n)] = S
    args = None
    t = strip(m['params'][0]['ty'])
    if t in P.handles or t == 'pooya::Signal':
        args = [loc(mk('D', sym('src')))]
        if t in P.handles:
            know(I, A, P.handles[t])
        for n in viewfields(P, t):
            st.cells[H(sym('src'), n)] = A
        I.facts.ty[sym('src')] = t + ' *'
        I.facts.nonnulls.add(sym('src'))
    outs = I.run(m['id'], st0=st, args=args)
    ctx.note(I, outs)
    for o in outs:
        vs = [o.cells.get(H(this, n)) for n in viewfields(P, h)]
        ok = all(v is S for v in vs)
        ctx.check('assigning to a value handle does not re-seat it', ctx.where(m), ok if ok or all(v is not None and v.op in ('sym', 'new', 'null') for v in vs) else None, showout(o), [o])
