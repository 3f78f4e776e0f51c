"""The typed program: classes, overriding, field roles."""
import re
from . import frontend

KNOWN_FIELDS = {  # role names of fields that are observable through a public accessor (or define the object's content)
    ('pooya::ValueSignalImpl', '_assigned'): '@assigned', ('pooya::Block', '_processed'): '@processed',
    ('pooya::Block', '_connected'): '@connected', ('pooya::Block', '_parent'): '@parent', ('pooya::Block', '_ibus'): '@ibus',
    ('pooya::Block', '_obus'): '@obus', ('pooya::Block', '_linked_signals'): '@linked_signals',
    ('pooya::NamedObject', '_name'): '@name', ('pooya::BusImpl', '_signals'): '@signals',
    ('pooya::ScalarSignalImpl', '_scalar_value'): '@value', ('pooya::IntSignalImpl', '_int_value'): '@value',
    ('pooya::BoolSignalImpl', '_bool_value'): '@value', ('pooya::ArraySignalImpl', '_array_value'): '@value',
    ('pooya::FloatSignalImplT', '_deriv_sig'): '@deriv', ('pooya::FloatSignalImplT', '_size'): '@size',
}
ACCESSORS = {  # accessor -> role
    ('pooya::ValueSignalImpl', 'assigned'): '@assigned', ('pooya::Block', 'processed'): '@processed',
    ('pooya::Block', 'connected'): '@connected', ('pooya::Block', 'parent'): '@parent', ('pooya::Block', 'ibus'): '@ibus',
    ('pooya::Block', 'obus'): '@obus', ('pooya::Block', 'linked_signals'): '@linked_signals', ('pooya::NamedObject', 'name'): '@name',
    ('pooya::ScalarSignalImpl', 'get_value'): '@value', ('pooya::IntSignalImpl', 'get_value'): '@value',
    ('pooya::BoolSignalImpl', 'get_value'): '@value', ('pooya::ArraySignalImpl', 'get_value'): '@value',
    ('pooya::FloatSignalImplT', 'deriv_signal'): '@deriv', ('pooya::FloatSignalImplT', 'state_variable'): '@deriv',
    ('pooya::FloatSignalImplT', 'size'): '@size',
}
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'long long', 'unsigned long long'}
UINTS = {'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'unsigned long long'}


def strip(ty):
    ty = (ty or '').strip()
    while True:
        o = ty
        if ty.endswith('&'):
            ty = ty.rstrip('&').strip()
        if ty.startswith('const '):
            ty = ty[6:].strip()
        if ty.startswith('volatile '):
            ty = ty[9:].strip()
        if ty.endswith('*const'):
            ty = ty[:-5].strip()
        if ty == o:
            return ty


def isref(ty):
    return (ty or '').strip().endswith('&')


def targ(ty):
    """the first template argument of  X<A, ...>"""
    i = ty.find('<')
    if i < 0:
        return None
    d, j = 0, i
    for j in range(i, len(ty)):
        if ty[j] == '<':
            d += 1
        elif ty[j] == '>':
            d -= 1
            if d == 0:
                return ty[i + 1:j].strip()
        elif ty[j] == ',' and d == 1:
            return ty[i + 1:j].strip()
    return None


def pointee(ty):
    """the class an (owning or raw) pointer type points to, or None"""
    ty = strip(ty)
    if ty.endswith('*'):
        return strip(ty[:-1])
    for p in ('std::shared_ptr<', 'std::unique_ptr<', 'std::__shared_ptr<', 'std::weak_ptr<', 'std::__shared_ptr_access<'):
        if ty.startswith(p):
            return strip(targ(ty))
    return None


class Prog:
    def __init__(self, d, config):
        self.d, self.config = d, config
        self.fns = d['functions']
        self.recs = d['records']
        self.problems = d['problems']
        self.bases = {n: [strip(b['ty']) for b in r['bases']] for n, r in self.recs.items()}
        self._anc = {}
        self.methods = {}
        for f in self.fns.values():
            if f.get('cls'):
                self.methods.setdefault(f['cls'], []).append(f)
        self.over = {}
        for f in self.fns.values():
            for o in f.get('over', []):
                self.over.setdefault(o, []).append(f['id'])
        self.fields = {}
        for n, r in self.recs.items():
            for f in r['fields']:
                self.fields[(n, f['f'])] = f
        self._canon = {}
        self._roles()
        self.handles = {n: self.handle_impl(n) for n in self.recs if self.derives(n, 'pooya::Signal')}

    def ancestors(self, c):
        r = self._anc.get(c)
        if r is None:
            r = [c]
            for b in self.bases.get(c, []):
                for x in self.ancestors(b):
                    if x not in r:
                        r.append(x)
            self._anc[c] = r
        return r

    def derives(self, d, b):
        return b in self.ancestors(d)

    def derived(self, b):
        return [n for n in self.recs if self.derives(n, b)]

    def template(self, c):
        r = self.recs.get(c)
        return r['ct'] if r else re.sub(r'<.*', '', c)

    def body(self, fid):
        f = self.fns.get(fid)
        return f if f and 'body' in f else None

    def method(self, cls, name, nparams=None, own=False):
        """methods called name visible in cls (most derived class first)"""
        out = []
        for c in ([cls] if own else self.ancestors(cls)):
            ms = [m for m in self.methods.get(c, []) if m['n'] == name and (nparams is None or len(m['params']) == nparams)]
            if ms:
                out += ms
                break
        return out

    def overrides(self, m, fid, seen=None):
        if m == fid:
            return True
        f = self.fns.get(m)
        return bool(f) and any(self.overrides(o, fid) for o in f.get('over', []))

    def overriders(self, fid):
        out, st = [], [fid]
        while st:
            x = st.pop()
            for o in self.over.get(x, []):
                if o not in out:
                    out.append(o)
                    st.append(o)
        return out

    def final(self, cls, fid):
        """the function a virtual call of fid reaches on an object of dynamic type cls"""
        for c in self.ancestors(cls):
            for m in self.methods.get(c, []):
                if self.overrides(m['id'], fid):
                    return m['id']
        return fid

    def trivial_accessor(self, f):
        b = f.get('body')
        if not b or f.get('static'):
            return None
        ss = [s for s in b.get('s', []) if not (s['k'] == 'block' and not s['s'])]
        if self.config == 'debug':
            ss = [s for s in ss if s['k'] in ('ret',)]
        if len(ss) != 1 or ss[0]['k'] != 'ret' or not ss[0].get('e'):
            return None
        e = ss[0]['e']
        while e.get('k') in ('cast', 'ctor') and (e.get('e') or (e.get('copy') and len(e['args']) == 1)):
            e = e.get('e') or e['args'][0]
        if e.get('k') == 'call' and e['c'] and e['c']['n'] == 'get' and e.get('obj'):
            e = e['obj']
        if e.get('k') == 'mem' and e['base'].get('k') == 'this':
            return e['rec'], e['f']
        return None

    def _roles(self):
        for n, r in self.recs.items():
            ct = r['ct']
            for f in r['fields']:
                role = KNOWN_FIELDS.get((ct, f['f']))
                if role:
                    self._canon[(n, f['f'])] = role
                elif ct == 'pooya::BusImpl' and 'std::pair<' in f['ty'] and 'pooya::Signal>' in f['ty']:
                    self._canon[(n, f['f'])] = '@signals'
        for f in self.fns.values():
            if not f.get('cls') or f['cls'] not in self.recs:
                continue
            role = ACCESSORS.get((self.recs[f['cls']]['ct'], f['n']))
            if role and not f['params']:
                t = self.trivial_accessor(f)
                if t and t not in self._canon and role not in [v for (c, _), v in self._canon.items() if c == t[0]]:
                    self._canon[t] = role

    def canon(self, rec, f):
        r = self._canon.get((rec, f))
        if r:
            return r
        return f

    def rolefield(self, cls, role):
        for c in self.ancestors(cls):
            for (r, f), v in self._canon.items():
                if r == c and v == role:
                    return f
        return None

    def handle_impl(self, c):
        for a in self.ancestors(c):
            r = self.recs.get(a)
            if r:
                for f in r['fields']:
                    p = pointee(f['ty'])
                    if p and self.derives(p, 'pooya::SignalImpl'):
                        return p
        return None

    def all_fields(self, cls):
        out = []
        for c in self.ancestors(cls):
            r = self.recs.get(c)
            for f in (r['fields'] if r else []):
                out.append((c, f))
        return out

    def line(self, f, l=None):
        return '%s:%s' % (short(f.get('file', '?')), l if l is not None else f.get('l'))


def short(p):
    i = p.rfind('/src/')
    return p[i + 1:] if i >= 0 else p


_cache = {}


def load(config='release'):
    if config not in _cache:
        ds = frontend.load(('debug', 'release'))
        for c, d in ds.items():
            _cache[c] = Prog(d, c)
    return _cache[config]
