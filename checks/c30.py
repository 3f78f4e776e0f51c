"""C30: every public type is usable from its own header"""
import os, shutil, tempfile
from lib import *
from engine import witness

RULE = """The compiler's front end decides, for both build modes: (1) every header under src/ compiles as the only include of a program, and, included first (hence twice), hides none of the
classes and aliases of all the headers together; all headers compile together in both orders; (2) every template class that an alias of the library names, and every template class reached
from the headers, is explicitly instantiated with all its members; (3) a small program per concrete block, stepper, simulator and signal handle, including only the header that offers
it, constructs it with the documented arguments (default and full) and is accepted; (4) one-definition lint over the typed syntax tree: no header defines a non-inline, externally visible,
non-template function or variable, and every non-pure function the headers declare and instantiate has a definition in the library; no function is defined by two source files."""
ASSUME = ['the usual include directories of the build (repository root, 3rdparty, Eigen)', 'the listed construction programs stand for the documented ways of construction']

VAL = {'': '0.5', 'I': '1', 'B': 'true', 'A': 'pooya::Array::Zero(2)'}
TY = {'': 'double', 'I': 'int', 'B': 'bool', 'A': 'pooya::Array'}
HANDLE = {'': 'ScalarSignal', 'I': 'IntSignal', 'B': 'BoolSignal', 'A': 'ArraySignal'}
FAMILY = {  # block -> (variants, leading arguments, trailing arguments, leading arguments have a default)
    'Integrator': (('', 'A'), '{v}', '', True), 'TriggeredIntegrator': (('', 'A'), '{v}', '', True), 'Add': (('', 'A'), '{v}', '', True), 'Multiply': (('', 'A'), '{v}', '', True),
    'Derivative': (('', 'A'), '{v}', '', True), 'Const': (('', 'A'), '{v}', '', False), 'Delay': (('', 'A'), '1.5', '', False), 'Gain': (('', 'I', 'A'), '{g}', '', False),
    'Memory': (('', 'I', 'B', 'A'), '{v}', '', False), 'Divide': (('', 'A'), None, '', True), 'Subtract': (('', 'A'), None, '', True),
    'InitialValue': (('', 'A'), None, '', True), 'Pipe': (('', 'I', 'B', 'A'), None, '', True),
    'SISOFunction': (('', 'A'), '[](double, {in_} x) -> {ret} {{ return x; }}', '', False), 'SOFunction': (('', 'A'), '[](double, const pooya::Bus&) -> {ret} {{ return {v}; }}', ', 2', False),
    'Source': (('', 'I', 'A'), '[](double) -> {ret} {{ return {v}; }}', '', False),
}
PLAIN = {  # name -> (header, statements)
    'Function': ('block/extra/function', 'pooya::Submodel p; pooya::Function a([](double, const pooya::Bus&, const pooya::Bus&) {}, &p, "a", 1, 1); pooya::Function b([](double, const pooya::Bus&, const pooya::Bus&) {});'),
    'Sources': ('block/extra/sources', 'pooya::Submodel p; pooya::Sources a([](const pooya::Bus&, double) {}, &p, "a", 2); pooya::Sources b([](const pooya::Bus&, double) {});'),
    'BusMemory': ('block/extra/bus_memory', 'pooya::Submodel p; pooya::BusMemory a(p); pooya::BusMemory b(p, {{"x", 1.0}, {"y", 2}, {"z", true}, {"w", pooya::Array::Zero(2)}}, {"q"});'),
    'BusPipe': ('block/extra/bus_pipe', 'pooya::Submodel p; pooya::BusPipe a(p); pooya::BusPipe b(p, {"q"});'),
    'Submodel': ('block/submodel', 'pooya::Submodel a; pooya::Submodel b(&a, "b"); pooya::Submodel c(&a, "c", 1, 2);'),
    'Simulator': ('solver/simulator', 'pooya::Submodel m; pooya::Simulator a(m); pooya::Simulator b(m, [](pooya::Block&, double) {}, nullptr, true);'),
    'FastSimulator': ('solver/fast_simulator', 'pooya::Submodel m; pooya::FastSimulator a(m); pooya::FastSimulator b(m, [](pooya::Block&, double) {}, nullptr);'),
    'Euler': ('solver/euler', 'pooya::Euler a; pooya::StepperBase& b = a; (void)b;'),
    'Rk4': ('solver/rk4', 'pooya::Rk4 a; pooya::StepperBase& b = a; (void)b;'),
    'Rkf45': ('solver/rkf45', 'pooya::Rkf45 a; pooya::StepperBase& b = a; (void)b;'),
    'History': ('solver/history', 'pooya::History a; pooya::History b(10);'),
    'ScalarSignal': ('signal/scalar_signal', 'pooya::ScalarSignal a; pooya::ScalarSignal b("b"); b = 1.0; double x = b; (void)x;'),
    'IntSignal': ('signal/int_signal', 'pooya::IntSignal a; pooya::IntSignal b("b"); b = 1; int x = b; (void)x;'),
    'BoolSignal': ('signal/bool_signal', 'pooya::BoolSignal a; pooya::BoolSignal b("b"); b = true; bool x = b; (void)x;'),
    'ArraySignal': ('signal/array_signal', 'pooya::ArraySignal a(2); pooya::ArraySignal b(2, "b"); b = pooya::Array::Zero(2); const pooya::Array& x = b; (void)x;'),
    'Bus': ('signal/bus', 'pooya::Bus a; pooya::Bus b({{"a", a}}); pooya::Bus c({a, b}, "c"); (void)c;'),
    'ValidName': ('shared/named_object', 'pooya::ValidName a("x"); pooya::ValidName b = a / "y"; pooya::ValidName c = a | "y"; (void)b; (void)c;'),
}
NEEDS = {'Simulator': '#include "src/block/submodel.hpp"\n', 'FastSimulator': '#include "src/block/submodel.hpp"\n'}


def headers(hs):
    return [h for h in hs if h.startswith('src/')]


def base(f):
    i = f.rfind('/src/')
    return f[i + 1:] if i >= 0 else f


def constructions(P, c):
    """(name, header, statements)"""
    al = {a['n']: a for a in P.d['aliases'] if a['ns'] and a['q'].startswith('pooya::')}
    out = []
    for fam, (vs, lead, trail, dflt) in FAMILY.items():
        for v in vs:
            n = fam + v
            if n in al:
                h = base(al[n]['file'])
            elif 'pooya::' + n in P.recs:
                h = base(P.recs['pooya::' + n]['file'])
            else:
                c.violate('%s is offered' % n, 'library', 'no class or alias pooya::%s is declared by any header' % n)
                continue
            sub = dict(v=VAL[v], g='0.5' if v == 'A' else VAL[v], ret=TY[v], in_='const pooya::Array&' if v == 'A' else TY[v])
            s = []
            if lead is None:
                s.append('pooya::%s a(&p, "a"), b(&p), d;' % n)
            else:
                l = lead.format(**sub)
                s.append('pooya::%s a(%s, &p, "a"%s), b(%s, &p), d(%s);' % (n, l, trail, l, l))
                if dflt and v != 'A':
                    s.append('pooya::%s e;' % n)
            s.append('pooya::Block& x = a; (void)x;')
            out.append((n, h, 'pooya::Submodel p; ' + ' '.join(s)))
    for n, (h, s) in PLAIN.items():
        q = 'pooya::' + n
        if q in P.recs:
            h = base(P.recs[q]['file'])
        elif n in al:
            h = base(al[n]['file'])
        else:
            c.violate('%s is offered' % n, 'library', 'no class pooya::%s is declared by any header' % n)
            continue
        out.append((n, h, s))
    return out


def check(c):
    hs, cs = FE.sources()
    hs = headers(hs)
    for cfg in ('release', 'debug'):
        P = c.R if cfg == 'release' else c.D
        w = {}
        names = sorted(set([r for r, d in P.recs.items() if r.startswith('pooya::') and '<' not in r and '(' not in r and d.get('file', '').endswith('.hpp') and public(P, r)] +
                           [a['q'] for a in P.d['aliases'] if a['ns'] and a['q'].startswith('pooya::') and a['file'].endswith('.hpp')]))
        uses = ''.join('using verif_t%d = %s;\n' % (i, n) for i, n in enumerate(names))
        for h in hs:
            own = [a['q'] for a in P.d['aliases'] if a['ns'] and a['q'].startswith('pooya::') and base(a['file']) == h] + [n for n in names if n in P.recs and base(P.recs[n]['file']) == h]
            w['alone ' + h] = '#include "%s"\n' % h + ''.join('using verif_t%d = %s;\n' % (i, n) for i, n in enumerate(sorted(set(own))))
            w['first ' + h] = '#include "%s"\n' % h + ''.join('#include "%s"\n' % x for x in hs if 'gp-ios' not in x) + uses
        w['all together'] = ''.join('#include "%s"\n' % h for h in hs) + uses
        w['all together, reverse order'] = ''.join('#include "%s"\n' % h for h in reversed(hs)) + uses
        cons = constructions(P, c)
        for n, h, s in cons:
            w['construct ' + n] = '#include "%s"\n%s#include <utility>\nvoid witness() { %s }\n' % (h, NEEDS.get(n, '') if '/submodel.hpp' not in h else '', s)
            if 'pooya::Submodel' in s and 'submodel' not in h:
                w['construct ' + n] = '#include "%s"\n#include "src/block/submodel.hpp"\nvoid witness() { %s }\n' % (h, s)
        res = witness.accepted(w, cfg)
        for h in hs:
            for k, t in (('alone ', 'compiles on its own and offers what it declares'), ('first ', 'hides nothing when it is included first')):
                d = res[k + h]
                c.check('%s %s (%s)' % (h, t, cfg), h, d is None, d or '')
        for k in ('all together', 'all together, reverse order'):
            d = res[k]
            c.check('headers compile %s and offer their %d names (%s)' % (k, len(names), cfg), 'src', d is None, d or '')
        for n, h, s in cons:
            d = res['construct ' + n]
            c.check('%s can be constructed from its own header (%s)' % (n, cfg), h, d is None, d or '')
        # ---- instances
        bad = {p[1]: p for p in P.d['problems'] if p[0] == 'instantiation'}
        for t in P.d['instances']:
            p = bad.get(t)
            c.check('all members of %s compile (%s)' % (short(t), cfg), base(p[3]) + ':%s' % p[4] if p else short(t), p is None, p[2][-1500:] if p else '')
        for p in P.d['problems']:
            if p[0] in ('header', 'headers'):
                c.violate('%s compiles (%s)' % (p[1], cfg), p[1], p[2][-1500:])
        # ---- one definition
        defs = list(P.d['hdrdefs'])
        glob = list(P.d['globals'])
        for h in hs:
            if 'gp-ios' in h:
                tool = FE.extractor()
                work = tempfile.mkdtemp(prefix='pooya-g-')
                try:
                    d, err = FE.run_extract(tool, FE.REPO, os.path.join(FE.REPO, h), ['-I' + FE.REPO + '/3rdparty', '-xc++'] + FE.CONFIGS[cfg], work, 'gp')
                finally:
                    shutil.rmtree(work, ignore_errors=True)
                if d is not None:
                    defs += [x for x in d['hdrdefs'] if 'gp-ios' in x['file']]
                    glob += [x for x in d['globals'] if 'gp-ios' in x['file']]
        for x in defs:
            c.check('%s may be defined in a header (%s)' % (x['q'], cfg), '%s:%s' % (base(x['file']), x['l']), bool(x['ok']),
                    'a non-inline function with external linkage is defined in a header: two translation units including it define it twice')
        for g in glob:
            if g['def'] and g['file'].endswith(('.hpp', '.h', '.hh')):
                c.check('variable %s may be defined in a header (%s)' % (g['q'], cfg), '%s:%s' % (base(g['file']), g['l']), not (g['ext'] and not g['inl'] and not g['const']),
                        'a non-inline variable with external linkage is defined in a header')
        # ---- declared functions are defined
        for f in P.fns.values():
            if 'body' in f or f.get('pure') or f.get('deleted') or f.get('defaulted') or not f['q'].startswith('pooya') or not (f.get('file') or '').endswith('.hpp'):
                continue
            if f['n'].startswith('operator ') and f['q'].startswith('pooya::IntSignal::'):
                continue   # artefacts of looking up the handle's conversion template
            if f.get('implicit'):
                continue
            c.violate('%s is defined (%s)' % (f['q'], cfg), '%s:%s' % (base(f['file']), f['l']), 'declared in a header, but no header or source file of the library defines it')
        for g in glob:
            if not g['def'] and g['file'].endswith('.hpp') and g['ext']:
                ok = any(k['q'] == g['q'] and k['def'] for k in glob)
                c.check('variable %s is defined (%s)' % (g['q'], cfg), '%s:%s' % (base(g['file']), g['l']), ok, 'declared in a header, defined nowhere')


def public(P, r):
    """namespace-level class (not nested in a class)"""
    parent = r.rsplit('::', 1)[0]
    return parent not in P.recs and not any(k.startswith(parent + '<') for k in P.recs) and 'anonymous' not in r
