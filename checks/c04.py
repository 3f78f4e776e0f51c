"""C04: names contain only letters, digits and underscores, and compose predictably"""
from sigs import *
from words import *

RULE = """The functions that make names (ValidName's constructors, assignments, emend and joins; NamedObject's construction and renaming; the constructors of every concrete
block, signal and bus; full_name) are summarised path by path as plain code.  The extracted summaries - not the compiled program - are evaluated on strings: every single
character (all 256), every pair with representatives of each character class in both positions, and lengths around every constant a length is compared with.  When the summary
of emend rewrites each position by its own character alone (the element-wise form), the single characters settle all strings of all lengths; the evidence says whether they did.
Joins must yield left + separator + valid right; a block's full name its parent's joined with its own name (the root's parent counting as empty)."""
ASSUME = ['names already made are valid (induction over the operations that make them)', 'characters are signed 8-bit, the "C" locale']
VN = 'pooya::ValidName'
REPS = ['a', 'Z', '0', '_', '.', '/', ' ', '\0', '\x80', '\xff', '-', '[']
FEW = ['', 'a', 'x.y', 'a b', '_', '9z', 'A-', '\xe9t\xe9', 'a\0b', '..', 'Zz09_', '/x', 'x_', ' ', 'a.b/c d']
TEXT = ('std::basic_string', 'std::string', 'std::basic_string_view', 'std::string_view')


def istext(ty):
    s = strip(ty)
    return s.startswith(TEXT) or s.startswith('const char') or s.startswith('char')


def evaluate(outs, given, get, extra=None):
    """the string a function yields for given strings"""
    m = Words(given, extra)
    o = m.start([o for o in outs])
    if o.kind != 'return':
        return ('raised', o)
    return m.text(get(o)), o


def compare(ctx, what, w, outs, cases, get, extra=None):
    """cases: list of (given, expected)"""
    for given, exp in cases:
        try:
            r, o = evaluate(outs, given, get, extra)
        except (Unknown, Stuck, Endless) as x:
            ctx.undecided(what, w, 'for %r: %s %s' % (list(given.values()), type(x).__name__, str(x)[:600]))
            return False
        if r == 'raised' and o.kind != 'return':
            ctx.check(what, w, False, 'for %r an exception leaves the function; expected %r' % (list(given.values()), exp), [o])
            return False
        if r != exp:
            ctx.check(what, w, False, 'for %r the result is %r, expected %r\n%s' % (list(given.values()), r, exp, showout(o)[:2500]), [o])
            return False
    ctx.hold(what, w)
    return True


def words(ctx, outs):
    ts = [c for o in outs for c in o.conds] + [o.val for o in outs if isinstance(o.val, T)] + [v for o in outs for v in o.cells.values()]
    for o in outs:
        for e, _ in walk(o.events):
            if e.kind == 'loop':
                for x in e.x.outs:
                    ts += list(x.conds)
    ls = lengths(ts)
    out = [''] + [chr(i) for i in range(256)]
    out += [a + b for a in REPS for b in REPS] + [a + b + c for a in REPS[:5] for b in REPS[:5] for c in REPS[:5]]
    for n in ls:
        if n > 1:
            out += [('a.' * n)[:n], ('.b' * n)[:n], 'z' * n]
    return out


def elementwise(v):
    """the value rewrites each position by its own character alone"""
    if v.op == 'mapped':
        kap = mk('bk', v.args[3])
        for cnd, upd in v.args[2]:
            if upd[0] is not kap:
                return False
            for s in list(subterms(cnd)) + list(subterms(upd[1])):
                if s.op == 'at' and s.args[1] is not kap:
                    return False
                if s is kap and False:
                    return False
        return v.args[0].op == 'sym' and equal(v.args[1], mk('size', v.args[0])) is True
    return False


def textparam(f):
    ps = [p for p in f['params'] if istext(p['ty'])]
    return ps[0] if len(ps) == 1 else None


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(VN, P)
        cfg = P.config
        ms = [f for f in P.methods.get(VN, []) if 'body' in f and not f.get('deleted')]
        em = [f for f in ms if f['n'] == 'emend']
        if not any(istext(f['params'][0]['ty']) for f in em if f['params']):
            raise Broken('ValidName::emend for text not found')
        for f in ms:
            ctx.each('%s (%s)' % (f['n'], cfg), ctx.where(f), one, ctx, P, f)
        # named objects
        for q in ('NamedObject',):
            c = 'pooya::NamedObject'
            ctx.cls(c, P)
            for f in P.methods.get(c, []):
                if 'body' in f and not f.get('deleted'):
                    ctx.each('%s (%s)' % (f['q'], cfg), ctx.where(f), named, ctx, P, c, f)
        # objects that get a name when they are made
        for c in sorted(P.recs):
            if P.derives(c, 'pooya::NamedObject') and c != 'pooya::NamedObject' and not P.recs[c].get('abstract') and 'verif_driver' not in c:
                for k in ctx.ctors(c, P):
                    if textparam(k):
                        ctx.each('name of a new %s (%s)' % (short(c), cfg), ctx.where(k), made, ctx, P, c, k)
        for c in sorted(P.derived('pooya::Block')):
            if 'verif_driver' in c:
                continue
            f = ctx.method(c, 'full_name', P, np=0)
            if f is None:
                raise Broken('no full_name of %s' % c)
            if c == 'pooya::Block' or strip(f.get('cls', '')) not in ('pooya::Block',):
                ctx.each('full name (%s)' % cfg, ctx.where(f), full, ctx, P, c, f)
        f = ctx.need('pooya::Block', 'full_name', P, np=0)
        ctx.each('full name (%s)' % cfg, ctx.where(f), full, ctx, P, 'pooya::Block', f)


def run(ctx, P, cls, f, st=None):
    I = interp(P, cls)
    st = st or State()
    outs = I.run(f['id'], st0=st)
    ctx.note(I, outs)
    return outs


def namefield(P):
    fs = [f['f'] for c, f in P.all_fields(VN) if istext(f['ty'])]
    if len(fs) != 1:
        raise Maybe('fields of ValidName: %s' % fs)
    return fs[0]


def one(ctx, P, f):
    w = ctx.where(f)
    fld_ = namefield(P)
    own = H(this, fld_)
    if f['n'] == 'str':
        outs = run(ctx, P, VN, f)
        compare(ctx, 'str yields the name (%s)' % P.config, w, outs, [({mk('ld', own): s}, s) for s in ('', 'a', 'x/y.z')], lambda o: now(mk('ld', o.val.args[0])) if o.val.op == 'loc' else now(o.val))
        return
    if f.get('isdtor') or f['n'].startswith('~'):
        return
    if f.get('isctor') or f['n'] == 'operator=':
        outs = run(ctx, P, VN, f)

        def get(o):
            v = o.cells.get(own)
            if v is None:
                raise Unknown('name not set')
            return v
        if not f['params']:
            compare(ctx, 'a default name is empty (%s)' % P.config, w, outs, [({}, '')], get)
        elif strip(f['params'][0]['ty']) == VN:
            p = f['params'][0]['n'] or 'arg0'
            src = mk('ld', H(sym(p), fld_))
            src2 = fld(sym(p), fld_)
            compare(ctx, 'a copied name is the same name (%s)' % P.config, w, outs, [({src: s, src2: s}, s) for s in ('', 'a', 'x/y.z', 'a.b')], get)
        else:
            p = textparam(f)
            if p is None:
                raise Maybe('parameters')
            compare(ctx, 'a name made from text is the valid form of the text (%s)' % P.config, w, outs, [({sym(p['n']): s}, valid(s)) for s in FEW], get)
        return
    if f['n'] == 'emend' and f.get('params') and istext(f['params'][0]['ty']):
        outs = run(ctx, P, VN, f)
        p = f['params'][0]['n']
        ws = words(ctx, outs)
        r = compare(ctx, 'emend keeps length and valid characters and replaces the others by underscores (%s)' % P.config, w, outs, [({sym(p): s}, valid(s)) for s in ws], lambda o: o.val)
        ctx.extra = dict(getattr(ctx, 'extra', {}))
        ctx.extra['emend'] = dict(strings=len(ws), elementwise=all(elementwise(o.val) for o in outs if o.kind == 'return'))
        return
    if strip(f['rt']) == VN or (f['n'] == 'emend'):
        outs = run(ctx, P, VN, f)
        sep = {'operator|': '.', 'operator/': '/'}.get(f['n'])
        if f['n'] == 'emend':
            q = f['params'][0]
            src = sym(q['n'])
            compare(ctx, 'a valid name stays as it is (%s)' % P.config, w, outs, [({fld(src, fld_): s, mk('ld', H(src, fld_)): s}, s) for s in ('', 'a', 'x/y.z')], lambda o: o.val)
            return
        if not f['params']:
            raise Maybe('a member making names: %s' % f['n'])
        ps = f['params']
        right = ps[0]
        sepp = ps[1] if len(ps) > 1 else None
        cases = []
        ls = lengths([c for o in outs for c in o.conds] + [o.val for o in outs if isinstance(o.val, T)])
        for l in ['', 'a', 'x/y', 'p.q'] + ['/ab' * n for n in ls if n > 2]:
            for s in (FEW if l == 'a' else FEW[:7]):
                for sp in ([sep] if sep else ['/', '.', '', '--']):
                    g = {mk('ld', own): l}
                    if sepp is not None:
                        g[sym(sepp['n'])] = sp
                    elif not sep:
                        raise Maybe('a member making names: %s' % f['n'])
                    if strip(right['ty']) == VN:
                        g[fld(sym(right['n']), fld_)] = s.replace('\0', '0')
                        g[mk('ld', H(sym(right['n']), fld_))] = s.replace('\0', '0')
                        cases.append((g, l + sp + s.replace('\0', '0')))
                    else:
                        if '[' in right['ty'] and '\0' in s:
                            continue
                        g[sym(right['n'])] = s
                        cases.append((g, l + sp + valid(s)))
        compare(ctx, '%s joins left, separator and valid right (%s)' % (f['n'], P.config), w, outs, cases, lambda o: o.val)


def objname(o, p, P):
    v = o.cells.get(H(p, '@name'))
    return mk('ld', H(p, '@name')) if v is None else v


def named(ctx, P, c, f):
    w = ctx.where(f)
    fld_ = namefield(P)
    if f.get('isctor'):
        ps = [strip(p['ty']) for p in f['params']]
        if ps == [c]:
            return
        outs = run(ctx, P, c, f)
        p = f['params'][0]['n'] if f['params'] else None
        if ps and ps[0] == VN:
            compare(ctx, 'a named object keeps the name it is given (%s)' % P.config, w, outs, [({sym(p): s, fld(sym(p), fld_): s}, s) for s in ('', 'a', 'a_1')], lambda o: objname(o, this, P))
        elif textparam(f):
            compare(ctx, 'a named object keeps the valid form of the name (%s)' % P.config, w, outs, [({sym(textparam(f)['n']): s}, valid(s)) for s in FEW], lambda o: objname(o, this, P))
        return
    if f['n'] == 'name':
        outs = run(ctx, P, c, f)
        nm = H(this, '@name')
        compare(ctx, 'name() is the object\'s name (%s)' % P.config, w, outs, [({mk('ld', nm): s}, s) for s in ('', 'a')], lambda o: mk('ld', o.val.args[0]) if o.val.op == 'loc' else o.val)
    elif f['n'] == 'rename':
        outs = run(ctx, P, c, f)
        p = textparam(f)
        if p is not None:
            compare(ctx, 'renaming gives the valid form of the new name (%s)' % P.config, w, outs, [({sym(p['n']): s, mk('ld', H(this, '@name')): 'old'}, valid(s)) for s in FEW], lambda o: objname(o, this, P))


def made(ctx, P, c, k):
    w = ctx.where(k)
    p = textparam(k)
    raw = interp(P, c)
    st = State()
    outs = raw.run(k['id'], st0=st)
    ctx.note(raw, outs)
    what = 'a new %s has the valid form of the given name (%s)' % (short(c), P.config)
    seen = set()
    for o in outs:
        if o.kind != 'return':
            continue
        v = o.cells.get(H(this, '@name'))
        if v is None:
            raise Maybe('name not set')
        if v in seen:
            continue
        seen.add(v)
        ok = True
        for s in FEW:
            m = Words({sym(p['n']): s})
            try:
                if not all(m.val(q) for q in o.conds if any(x is sym(p['n']) for x in subterms(q)) and q.op not in ('lexit', 'loopset')):
                    continue
            except Unknown as x:
                ctx.undecided(what, w, 'conditions: %s' % x)
                ok = None
                break
            try:
                r = m.text(v)
            except (Unknown, Stuck) as x:
                ctx.undecided(what, w, '%r: %s' % (s, x))
                ok = None
                break
            if r != valid(s):
                ok = False
                ctx.check(what, w, False, 'given %r the name is %r\n%s' % (s, r, showout(o)[:2000]), [o])
                break
        if not ok:
            return
    ctx.hold(what, w)


def full(ctx, P, c, f):
    w = ctx.where(f)
    outs = run(ctx, P, c, f)
    par = mk('ld', H(this, '@parent'))
    nm = mk('ld', H(this, '@name'))

    def extra(has):
        def ex(t):
            if t.op == 'same' and NULL in t.args and par in [now(x) for x in t.args]:
                return not has
            if t.op == 'isnull' and now(t.args[0]) is par:
                return not has
            return None
        return ex
    for has in (True, False):
        for own in ('a', 'x_1', ''):
            for up in (('/p', '/p/q', '/') if has else ('',)):
                what = 'the full name is the parent\'s joined by "/" with the block\'s own (%s)' % P.config
                m = Words({nm: own, mk('ld', H(par, '@name')): up.split('/')[-1]}, extra(has))
                rets = {s for o in outs for v in [o.val] if isinstance(v, T) for s in subterms(v) if s.op == 'ret'} | \
                       {s for o in outs for q in o.conds for s in subterms(q) if s.op == 'ret'}
                for r in rets:
                    if r.args[0] == 'full_name' and [now(x) for x in r.args[1]] == [par]:
                        m.bind[r] = mk('lst', chars(up))
                        m.bind[now(r)] = m.bind[r]
                try:
                    o = m.start(outs)
                    r = m.text(o.val)
                except (Unknown, Stuck, Endless) as x:
                    ctx.undecided(what, w, '%s %s' % (type(x).__name__, x))
                    return
                if r != up + '/' + own:
                    ctx.check(what, w, False, 'parent %r, own name %r: %r\n%s' % (up if has else None, own, r, showout(o)[:2000]), [o])
                    return
    ctx.hold(what, w)
