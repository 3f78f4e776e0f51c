"""What the interpreter knows about the standard library and Eigen."""
import re
from fractions import Fraction as Fr
from .terms import *
from .prog import strip, isref, pointee, targ, INTS, UINTS

TRANSPARENT = {'move', 'forward', 'as_const', 'ref', 'cref', 'static_pointer_cast', 'const_pointer_cast', 'reinterpret_pointer_cast'}
IDENTITY_METHODS = {'noalias', 'eval', 'array', 'matrix', 'derived', 'const_cast_derived', 'c_str', 'data_'}
APPS = {'abs', 'fabs', 'sqrt', 'pow', 'exp', 'log', 'sin', 'cos', 'tan', 'floor', 'ceil', 'round', 'isnan', 'isfinite', 'isinf', 'isalnum',
        'isalpha', 'isdigit', 'tolower', 'toupper', 'fmod', 'hypot', 'nextafter', 'copysign', 'tan', 'square', 'sum', 'minCoeff', 'maxCoeff', 'mean',
        'cwiseAbs', 'abs2', 'norm', 'all', 'any', 'isZero', 'cwiseMax', 'cwiseMin'}


def undecided(msg):
    from .interp import Undecided
    return Undecided(msg)


def loc(root, path=()):
    return mk('loc', root, path)


def sub_loc(l, step):
    return loc(l.args[0], l.args[1] + (step,))


def hd(ty):
    """template name of a type"""
    return strip(ty).split('<')[0]


def isstr(ty):
    return hd(ty) in ('std::basic_string', 'std::string', 'std::basic_string_view', 'std::string_view') or strip(ty) in ('char *', 'const char *') or strip(ty).startswith(('const char[', 'char['))


def tyof(a):
    return a.get('ty') or (a.get('to') if a.get('k') == 'cast' else None) or ('char' if a.get('chr') else '')


def text(v, ty):
    """a value as a piece of text"""
    if strip(ty) == 'char':
        return string(chr(int(numval(v)) % 256)) if is_num(v) and 0 <= numval(v) < 128 else mk('chr', v)
    if v.op in ('str', 'cat') or isstr(ty):
        return v
    if v.op == 'fnref' or (v.op == 'ld' and 'endl' in show(v)):
        return string('\n')
    if strip(ty) == 'pooya::ValidName':
        return v
    return mk('tostr', v)


def member(s, x):
    while s.op == 'sadd':
        if s.args[1] is x:
            return TRUE
        if s.args[1].op in CONSTOPS and x.op in CONSTOPS:
            s = s.args[0]
            continue
        break
    if s.op == 'empty':
        return FALSE
    return mk('member', s, x)


def haskey(m, k):
    while m.op == 'mput':
        if m.args[1] is k:
            return TRUE
        if m.args[1].op in CONSTOPS and k.op in CONSTOPS:
            m = m.args[0]
            continue
        break
    if m.op == 'merase' and m.args[1] is k:
        return FALSE
    if m.op == 'empty':
        return FALSE
    return mk('haskey', m, k)


def recv(I, e):
    o = e['obj']
    if e.get('arrow'):
        return I.deref(I.eval(o))
    if o['k'] == 'this':
        return I.deref(I.stack[-1].this)
    return I.evalloc(o)


def opaque(I, e, c, why=None):
    """a library call nothing is known about"""
    vals = []
    if e.get('obj') is not None:
        vals.append(I.argval(I.evalloc(e['obj'])))
    vals += [I.eval(a) for a in e.get('args', [])]
    if not c['q'].startswith('std::uncaught_exception'):      # the world outside decides
        I.unk(why or 'library call ' + c['q'])
    t = mk('ret', c['q'], tuple(vals), I.evid())
    I.settype(t, c.get('rt'))
    return t


# ---------------------------------------------------------------- algorithms
def rng(I, b, e):
    """a pair of iterators as (container location or value, lo, hi, reversed)"""
    if b.op == e.op and b.op in ('it', 'rit', 'eptr', 'vit') and b.args[0] is e.args[0]:
        return b.op, b.args[0], b.args[1], e.args[1]
    raise undecided('iterator range %s' % show(b))


def scan(I, node, b, e, body):
    """for (it = b; it != e; ++it) body(location of *it); body may raise BreakEx.  Returns the final iterator."""
    from .interp import L, ExhaustEx
    op, base, lo, hi = rng(I, b, e)
    r = L(I.stack[-1].id, 'alg%s.%d' % (node.get('l', 0), I.st.nloop))
    I.st.cells[r] = lo

    def it():
        i = I.rootval(r)
        if not I.branch(lt(i, hi)):
            raise ExhaustEx()
        body(I.deref(mk(op, base, i)))
        I.st.cells[r] = add(I.rootval(r), ONE)
    I.loop(node, it, hidden=r)
    i = I.rootval(r)
    return mk(op, base, i)


def truthcall(I, f, locs, e):
    v = I.call_value(f, locs, e)
    if isinstance(v, T) and v.op == 'loc':
        v = I.read(v)
    return I.branch(v)


def algorithm(I, e, n, args):
    from .interp import BreakEx
    if n in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'for_each', 'count_if', 'count', 'accumulate', 'transform',
             'replace_if', 'replace', 'fill', 'copy', 'copy_if', 'lower_bound', 'upper_bound', 'partition_point') and len(args) >= 3 or n in ('distance',):
        b, en = I.eval(args[0]), I.eval(args[1])
    if n == 'distance':
        return I.arith('-', en, b, 'long', args[1], args[0])
    if n in ('find', 'find_if', 'find_if_not'):
        x = I.eval(args[2])

        def body(l):
            if n == 'find':
                v = I.read(l)
                hit = I.branch(I.compare('==', v, x, '', args[2].get('ty', '')))
            else:
                hit = truthcall(I, x, [l], e) == (n == 'find_if')
            if hit:
                raise BreakEx()
        return scan(I, e, b, en, body)
    if n in ('lower_bound', 'upper_bound', 'partition_point') and len(args) >= 3:
        # on the sorted range these algorithms require, the first position that does not precede the value
        x = I.eval(args[2])
        xl = I.temp(x) if n != 'partition_point' else None
        f = I.eval(args[3]) if len(args) > 3 else None

        def body(l):
            if n == 'partition_point':
                hit = not truthcall(I, x, [l], e)
            elif f is not None:
                hit = not truthcall(I, f, [l, xl], e) if n == 'lower_bound' else truthcall(I, f, [xl, l], e)
            else:
                v = I.read(l)
                hit = I.branch(ge(v, x) if n == 'lower_bound' else gt(v, x))
            if hit:
                raise BreakEx()
        return scan(I, e, b, en, body)
    if n in ('any_of', 'all_of', 'none_of'):
        f = I.eval(args[2])
        stop = n != 'all_of'

        def body(l):
            if truthcall(I, f, [l], e) == stop:
                raise BreakEx()
        r = scan(I, e, b, en, body)
        ended = I.branch(eqn(r.args[1], en.args[1]))
        return boolc(ended if n in ('all_of', 'none_of') else not ended)
    if n == 'for_each':
        f = I.eval(args[2])
        scan(I, e, b, en, lambda l: I.call_value(f, [l], e))
        return f
    if n in ('count_if', 'count'):
        f = I.eval(args[2])
        acc = I.temp(ZERO)

        def body(l):
            if n == 'count_if':
                hit = truthcall(I, f, [l], e)
            else:
                hit = I.branch(I.compare('==', I.read(l), f, '', args[2].get('ty', '')))
            if hit:
                I.st.cells[acc.args[0]] = add(I.read(acc), ONE)
        scan(I, e, b, en, body)
        return I.read(acc)
    if n == 'accumulate':
        acc = I.temp(I.eval(args[2]))
        f = I.eval(args[3]) if len(args) > 3 else None
        elty = args[2].get('ty', '')

        def body(l):
            if f is None:
                v = I.arith('+', I.read(acc), I.read(l)) if not isstr(elty) else cat(I.read(acc), I.read(l))
            else:
                v = I.call_value(f, [I.temp(I.read(acc)), l], e)
                if v.op == 'loc':
                    v = I.read(v)
            I.st.cells[acc.args[0]] = v
        scan(I, e, b, en, body)
        return I.read(acc)
    if n == 'transform' and len(args) == 4:
        out, f = I.eval(args[2]), I.eval(args[3])
        cell = I.temp(out)

        def body(l):
            v = I.call_value(f, [l], e)
            if v.op == 'loc':
                v = I.read(v)
            put(I, cell, v)
        scan(I, e, b, en, body)
        return I.read(cell)
    if n in ('replace_if', 'replace'):
        f, new = I.eval(args[2]), I.eval(args[3])

        def body(l):
            hit = truthcall(I, f, [l], e) if n == 'replace_if' else I.branch(I.compare('==', I.read(l), f, '', ''))
            if hit:
                I.write(l, new)
        scan(I, e, b, en, body)
        return VOID
    if n == 'fill':
        x = I.eval(args[2])
        scan(I, e, b, en, lambda l: I.write(l, x))
        return VOID
    if n in ('copy', 'copy_if'):
        cell = I.temp(I.eval(args[2]))
        f = I.eval(args[3]) if n == 'copy_if' else None

        def body(l):
            if f is None or truthcall(I, f, [l], e):
                put(I, cell, I.read(l))
        scan(I, e, b, en, body)
        return I.read(cell)
    return None


def put(I, cell, v):
    """*out++ = v"""
    o = I.read(cell)
    if o.op == 'inserter':
        l = o.args[0]
        I.write(l, mk('append', I.read(l), v))
        return
    I.write(I.deref(o), v)
    I.st.cells[cell.args[0]] = I.advance(o, ONE)


# ---------------------------------------------------------------- constructors
def ctor(I, ct, ty, e, args):
    h = ct.split('<')[0] if ct else hd(ty)
    if h.endswith('PrivateType') or h in ('std::allocator', 'std::less', 'Eigen::Stride', 'std::hash', 'std::equal_to', 'std::enable_shared_from_this',
                                          'std::greater', 'Eigen::InnerStride', 'Eigen::OuterStride', 'std::ios_base::Init', 'std::lock_guard', 'std::allocator_arg_t'):
        return VOID
    if h == 'std::nullopt_t':
        return mk('none')
    if h == 'std::optional':
        if not args:
            return mk('none')
        if hd(tyof(args[0])) == 'std::nullopt_t':
            return mk('none')
        v = I.eval(args[0])
        return v if hd(tyof(args[0])) == 'std::optional' or v.op == 'none' else mk('some', v)
    if h in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr'):
        return I.eval(args[0]) if args else NULL
    if h == 'std::reference_wrapper':
        return I.addr(I.evalloc(args[0]))
    if h == 'std::function':
        return I.eval(args[0]) if args else NULL
    if h in ('std::basic_string', 'std::basic_string_view'):
        if not args:
            return string('')
        real = [a for a in args if hd(a.get('ty', '')) != 'std::allocator']
        if len(real) == 1:
            return I.eval(real[0])
        if not real:
            return string('')
        vals = [I.eval(a) for a in real]
        if all(v.op in ('it', 'vit') for v in vals[:2]) and len(vals) == 2:
            o, base, lo, hi = rng(I, vals[0], vals[1])
            v = I.read(base) if base.op == 'loc' else base
            return substr(v, lo, sub(hi, lo))
        if len(vals) == 2 and is_num(vals[0]) and strip(tyof(real[1])) == 'char' and is_num(vals[1]):
            return string(chr(int(numval(vals[1]))) * int(numval(vals[0])))
        if len(vals) == 2 and strip(tyof(real[1])) == 'char':
            return mk('filled', *vals)
        if len(vals) == 2 and vals[0].op == 'cstr':
            return substr(vals[0].args[0], ZERO, vals[1])
        if len(vals) == 3 and isstr(tyof(real[0])) and vals[0].op != 'cstr':
            return substr(vals[0], vals[1], vals[2])
        return mk('app', 'string', *vals)
    if h in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream'):
        return I.eval(args[0]) if args and isstr(tyof(args[0])) else string('')
    if h in ('std::basic_ofstream', 'std::basic_fstream'):
        vals = [I.eval(a) for a in args]
        I.event('open', 'open', vals)
        return mk('file', vals[0] if vals else NULL)
    if h == 'std::initializer_list':
        return I.eval(args[0]) if args else mk('seq')
    if h in ('std::vector', 'std::map', 'std::unordered_map', 'std::unordered_set', 'std::set', 'std::deque', 'std::list'):
        real = [a for a in args if hd(a.get('ty', '')) not in ('std::allocator', 'std::less', 'std::hash', 'std::equal_to')]
        if not real:
            return EMPTY
        v = I.eval(real[0])
        aty = strip(real[0].get('ty', ''))
        if len(real) == 1:
            if aty in INTS:
                return mk('filled', v, mk('zeroval'))
            if v.op == 'seq' and h in ('std::map', 'std::unordered_map', 'std::unordered_set', 'std::set'):
                return EMPTY if not v.args else mk('fromseq', v)
            return EMPTY if v.op == 'seq' and not v.args else v
        w = I.eval(real[1])
        if aty in INTS:
            return mk('filled', v, w)
        if v.op in ('it', 'vit', 'eptr') and w.op == v.op and v.args[0] is w.args[0]:
            base = I.read(v.args[0]) if v.args[0].op == 'loc' else v.args[0]
            if v.args[1] is ZERO and w.args[1] is size(base):
                return base
            return mk('slice', base, v.args[1], sub(w.args[1], v.args[1]))
        raise undecided('constructor of ' + ty)
    if h == 'std::pair':
        if len(args) == 1:
            return I.eval(args[0])
        return rec({'first': I.eval(args[0]), 'second': I.eval(args[1])}) if args else rec({})
    if h in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator',
             'std::__detail::_Node_const_iterator', 'std::reverse_iterator', 'std::back_insert_iterator'):
        v = I.eval(args[0]) if args else NULL
        if h == 'std::reverse_iterator' and v.op == 'it':
            return mk('rit', v.args[0], sub(size(I.read(v.args[0])), v.args[1]))
        return v
    if h == 'std::runtime_error' or h.endswith(('_error', 'out_of_range', 'exception', 'invalid_argument')):
        return mk('app', h, *[I.eval(a) for a in args])
    if h == 'Eigen::Map':
        p = I.eval(args[0])
        n = I.eval(args[1]) if len(args) > 1 else None
        if p.op == 'eptr' and n is not None:
            return loc(p.args[0].args[0], p.args[0].args[1] + (('s', p.args[1], n),))
        if p.op == 'adv' and p.args[0].op == 'eptr':
            q = p.args[0]
            return loc(q.args[0].args[0], q.args[0].args[1] + (('s', add(q.args[1], p.args[1]), n),))
        return I.deref(mk('mapptr', p, n or VOID))
    if h in ('Eigen::Array', 'Eigen::Matrix'):
        real = [a for a in args if not a.get('ty', '').endswith('PrivateType')]
        if not real:
            return EMPTY
        if len(real) == 1:
            v = I.eval(real[0])
            if strip(real[0].get('ty', '')) in INTS or (strip(real[0].get('ty', '')) in ('Eigen::Index',)):
                return mk('resized', EMPTY, v)
            return v
        if strip(real[0].get('ty', '')) in INTS and strip(real[1].get('ty', '')) in INTS:
            return mk('resized', EMPTY, I.eval(real[0]), I.eval(real[1]))
        return I.eval(real[0])
    if h.startswith('Eigen::'):
        if len(args) == 1:
            return I.evalloc(args[0])
    if h in ('Eigen::Block', 'Eigen::Ref', 'Eigen::VectorBlock'):
        return I.evalloc(args[0])
    vals = [I.eval(a) for a in args]
    if (ty in I.prog.recs) and not vals:
        return I.default_rec(ty)
    I.unk('constructor of ' + ty)
    return mk('ctorval', ty, *vals)


def substr(s, a, n):
    if s.op == 'str' and is_num(a):
        i = int(numval(a))
        if n.op == 'npos':
            return string(s.args[0][i:])
        if is_num(n):
            return string(s.args[0][i:i + int(numval(n))])
    if a is ZERO and (n.op == 'npos' or n is size(s)):
        return s
    return mk('substr', s, a, n)


# ---------------------------------------------------------------- calls
def call(I, e, c):
    n, q = c['n'], c['q']
    args = e.get('args', [])
    cls = (c.get('ct') or c.get('cls') or '').split('<')[0]
    if e.get('obj') is None and not c.get('cls') or cls.startswith('std') and e.get('obj') is None and n.startswith('operator'):
        r = free(I, e, c, n, q, args)
    elif e.get('obj') is None:
        r = static(I, e, c, n, cls, args)
    else:
        r = method(I, e, c, n, cls, args)
    if r is None:
        return opaque(I, e, c)
    return r


def free(I, e, c, n, q, args):
    ty = lambda i: tyof(args[i])
    if n in TRANSPARENT:
        return I.evalloc(args[0])
    if n == 'addressof':
        return I.addr(I.evalloc(args[0]))
    if n == 'dynamic_pointer_cast':
        return I.dyn(I.eval(args[0]), pointee(c['rt']))
    if n in ('make_shared', 'make_unique'):
        return make(I, e, c, pointee(c['rt']), args)
    if n in ('make_pair',) or n == 'pair':
        return rec({'first': I.eval(args[0]), 'second': I.eval(args[1])})
    if n == 'get' and len(args) == 1:
        l = I.evalloc(args[0])
        if hd(ty(0)) in ('std::pair', 'std::tuple'):
            m = re.search(r'get<(\d+)', c['id'])
            if m:
                return sub_loc(l, ('f', ('first', 'second')[int(m.group(1))] if int(m.group(1)) < 2 else 'f' + m.group(1)))
        v = mk('vget', I.read(l), strip(c['rt']))
        I.settype(v, c['rt'])
        return v
    if n == 'get_if':
        p = I.eval(args[0])
        t = strip(strip(c['rt'])[:-1])
        v = I.read(I.deref(p))
        if not I.branch(mk('holds', v, t)):
            return NULL
        r = mk('vget', v, t)
        I.settype(r, t)
        return I.addr(I.temp(r))
    if n == 'holds_alternative':
        return mk('holds', I.eval(args[0]), c['id'])
    if n in ('min', 'max'):
        if len(args) == 1:
            v = I.eval(args[0])
            if v.op != 'seq' or not v.args:
                return None
            r = v.args[0]
            for x in v.args[1:]:
                if I.branch(lt(x, r) if n == 'min' else lt(r, x)):
                    r = x
            return r
        a, b = I.eval(args[0]), I.eval(args[1])
        if I.branch(lt(b, a) if n == 'min' else lt(a, b)):
            return b
        return a
    if n == 'clamp':
        v, lo, hi = I.eval(args[0]), I.eval(args[1]), I.eval(args[2])
        if I.branch(lt(v, lo)):
            return lo
        if I.branch(lt(hi, v)):
            return hi
        return v
    if n == 'swap' and len(args) == 2:
        a, b = I.evalloc(args[0]), I.evalloc(args[1])
        x, y = I.read(a), I.read(b)
        I.write(a, y)
        I.write(b, x)
        return VOID
    if n == 'exchange':
        a = I.evalloc(args[0])
        x = I.read(a)
        I.write(a, I.eval(args[1]))
        return x
    if n == 'to_string':
        v = I.eval(args[0])
        return string(str(numval(v))) if is_num(v) and numval(v).denominator == 1 else mk('tostr', v)
    if n in ('next', 'prev'):
        p = I.eval(args[0])
        d = I.eval(args[1]) if len(args) > 1 else ONE
        return I.advance(p, d if n == 'next' else neg(d))
    if n == 'advance':
        l = I.evalloc(args[0])
        I.write(l, I.advance(I.read(l), I.eval(args[1])))
        return VOID
    if n in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'empty', 'data') and len(args) == 1:
        return sequence(I, e, c, n, I.container(I.evalloc(args[0])), [])
    if n == 'back_inserter':
        return mk('inserter', I.evalloc(args[0]))
    if n == 'make_reverse_iterator':
        v = I.eval(args[0])
        return mk('rit', v.args[0], sub(size(I.read(v.args[0])), v.args[1])) if v.op == 'it' else None
    if n in APPS:
        vals = [I.eval(a) for a in args]
        if n in ('abs', 'fabs'):
            if is_num(vals[0]):
                return num(abs(numval(vals[0])))
            return mk('app', 'abs', *vals)
        return mk('app', n, *vals)
    r = algorithm(I, e, n, args)
    if r is not None:
        return r
    if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
        if len(args) == 2:
            return cmp_op(I, n[8:], I.eval(args[0]), I.eval(args[1]), ty(0), ty(1))
    if n == 'operator<<' and len(args) == 2:
        l = I.evalloc(args[0])
        return out(I, l, I.eval(args[1]), ty(1))
    if n in ('operator+', 'operator-', 'operator*', 'operator/') and len(args) == 2:
        a, b = I.eval(args[0]), I.eval(args[1])
        if n == 'operator+' and (isstr(ty(0)) or isstr(ty(1)) or hd(c.get('rt', '')) == 'std::basic_string'):
            return cat(text(a, ty(0)), text(b, ty(1)))
        return I.arith(n[8:], a, b, None, args[0], args[1])
    if n == 'operator-' and len(args) == 1:
        return neg(I.eval(args[0]))
    if n == 'operator|' and len(args) == 2:
        return I.bitop('|', I.eval(args[0]), I.eval(args[1]))
    return None


def cmp_op(I, o, a, b, ta, tb):
    ta2 = '' if hd(ta).startswith(('std::', '__gnu')) else ta
    tb2 = '' if hd(tb).startswith(('std::', '__gnu')) else tb
    if o in ('==', '!=') and isstr(ta) and isstr(tb):
        r = same(a, b)
        return r if o == '==' else notb(r)
    return I.compare(o, a, b, ta2, tb2)


def out(I, l, v, ty):
    root = l.args[0]
    if root.op == 'G':
        return l
    old = I.read(l)
    if old.op in ('file',) or root.op in ('D', 'A'):
        I.event('out', '<<', (text(v, ty), old if old.op == 'file' else mk('stream', root)))
        return l
    I.write(l, cat(old, text(v, ty)))
    return l


def make(I, e, c, cls, args):
    vals = [I.eval(a) for a in args]
    I.st.nnew += 1
    p = mk('new', 'm%s.%d' % (I.evid(), I.st.nnew), cls or c.get('rt', ''))
    if cls in I.prog.recs and I.raw:
        cs = [m for m in I.prog.methods.get(cls, []) if m.get('isctor') and len(m['params']) == len(args) and 'body' in m and
              not (len(args) == 1 and strip(m['params'][0]['ty']) == cls)]
        if len(cs) == 1:
            I.invoke(cs[0], p, [I.temp(v) for v in vals])
            I.event('make', cls, vals, ret=p)
            return p
    I.event('make', cls or '?', vals, ret=p)
    if cls and hd(cls).startswith('Eigen::'):
        return p
    return p


def static(I, e, c, n, cls, args):
    if cls == 'std::numeric_limits':
        t = strip(c.get('rt', ''))
        w = {'unsigned int': 32, 'unsigned long': 64, 'unsigned short': 16, 'unsigned char': 8}.get(t)
        if w and n == 'max':
            return num(2 ** w - 1)
        if n in ('min', 'lowest') and w:
            return ZERO
        if t == 'int':
            return num(2 ** 31 - 1 if n == 'max' else -2 ** 31)
        return mk('app', 'limits::' + n)
    if n == 'Zero' and cls.startswith('Eigen'):
        return mk('zeros', *[I.eval(a) for a in args])
    if n == 'Ones' and args:
        return mk('filled', I.eval(args[0]), ONE)
    if n == 'Constant' and len(args) >= 2:
        v = I.eval(args[-1])
        if v is ZERO:
            return mk('zeros', I.eval(args[0]))
        return mk('filled', I.eval(args[0]), v)
    return None


ITERS = ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator',
         'std::__detail::_Node_const_iterator', 'std::reverse_iterator')


def method(I, e, c, n, cls, args):
    if n.startswith('operator ') and cls in ('std::basic_string',):
        return I.eval(e['obj'])
    if cls in ITERS or cls.startswith('std::__detail::_Node'):
        return iterator(I, e, c, n, args)
    if cls in ('std::__shared_ptr', 'std::__shared_ptr_access', 'std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::reference_wrapper'):
        return pointer(I, e, c, n, cls, args)
    if cls == 'std::enable_shared_from_this' and n == 'shared_from_this':
        return I.objptr(e)
    if cls == 'std::function':
        if n == 'operator()':
            return I.call_value(I.eval(e['obj']), [I.evalloc(a) for a in args], e)
        if n == 'operator bool':
            return I.truthptr(I.eval(e['obj']))
        if n == 'operator=':
            l = I.evalloc(e['obj'])
            I.write(l, I.eval(args[0]))
            return l
    if cls == 'std::optional' or cls.startswith('std::_Optional'):
        l = recv(I, e)
        v = I.read(l)
        if n in ('has_value', 'operator bool', '_M_is_engaged'):
            return TRUE if v.op == 'some' else FALSE if v.op == 'none' else mk('hasval', v)
        if n in ('operator*', 'value', 'operator->', '_M_get'):
            if v.op == 'some':
                x = v.args[0]
            else:
                x = mk('optval', v)
                I.settype(x, targ(strip(e['obj'].get('ty', '')) if not e.get('arrow') else ''))
            return I.addr(I.temp(x)) if n == 'operator->' else I.temp(x)
        if n == 'value_or':
            b = v.op == 'some' if v.op in ('some', 'none') else I.branch(mk('hasval', v))
            return (v.args[0] if v.op == 'some' else mk('optval', v)) if b else I.eval(args[0])
        if n == 'operator=':
            x = I.eval(args[0])
            if x.op not in ('none', 'some') and hd(tyof(args[0])) != 'std::optional':
                x = mk('some', x)
            I.write(l, x)
            return l
        if n == 'reset':
            I.write(l, mk('none'))
            return VOID
        if n == 'emplace':
            I.write(l, mk('some', I.eval(args[0])))
            return I.temp(I.eval(args[0]))
        return None
    if cls in ('std::basic_string', 'std::basic_string_view'):
        r = strings(I, e, c, n, args)
        if r is not None:
            return r
    if cls in ('std::basic_ostream', 'std::basic_stringstream', 'std::basic_ofstream', 'std::basic_ostringstream', 'std::basic_fstream', 'std::basic_ios', 'std::ios_base'):
        l = recv(I, e)
        if n == 'operator<<':
            return out(I, l, I.eval(args[0]), tyof(args[0]))
        if n == 'str':
            if args:
                I.write(l, I.eval(args[0]))
                return VOID
            return I.read(l)
        if n in ('precision', 'flags', 'setf', 'width', 'fill', 'flush', 'close', 'exceptions'):
            vals = [I.eval(a) for a in args]
            if I.read(l).op == 'file':
                I.event('out', n, tuple(vals) + (I.read(l),))
            return VOID
        if n in ('put',):
            return out(I, l, I.eval(args[0]), 'char')
        if n in ('is_open', 'good', 'fail', 'operator bool', 'operator!', 'bad', 'eof'):
            return mk('app', 'stream.' + n, I.read(l))
        if n == 'open':
            vals = [I.eval(a) for a in args]
            I.event('open', 'open', vals)
            I.write(l, mk('file', vals[0]))
            return VOID
        if n == 'operator=':
            I.write(l, I.eval(args[0]))
            return l
        return None
    if cls.startswith('Eigen::'):
        return eigen(I, e, c, n, cls, args)
    if cls in ('std::map', 'std::unordered_map'):
        return mapping(I, e, c, n, recv(I, e), args)
    if cls in ('std::unordered_set', 'std::set'):
        return sets(I, e, c, n, recv(I, e), args)
    if cls in ('std::vector', 'std::deque', 'std::initializer_list', 'std::list', 'std::array', 'std::basic_string', 'std::basic_string_view'):
        return sequence(I, e, c, n, recv(I, e), args)
    if cls == 'std::pair' and n == 'operator=':
        l = recv(I, e)
        I.write(l, I.eval(args[0]))
        return l
    if cls.endswith('exception') or cls.endswith('_error'):
        return mk('app', n, I.eval(e['obj']))
    return None


def iterator(I, e, c, n, args):
    l = recv(I, e)
    v = I.read(l)
    if n == 'operator*':
        if v.op == 'mit' and 'set' in e['obj'].get('ty', ''):
            return v.args[1]
        return I.deref(v)
    if n == 'operator->':
        return I.addr(I.deref(v)) if v.op not in ('it', 'rit', 'mit', 'vit') else mk('addr', I.deref(v))
    if n in ('operator++', 'operator--'):
        new = I.advance(v, ONE if n == 'operator++' else num(-1))
        I.write(l, new)
        return v if args else l
    if n in ('operator+', 'operator-'):
        return I.arith(n[8:], v, I.eval(args[0]), None, e['obj'], args[0])
    if n in ('operator+=', 'operator-='):
        I.write(l, I.arith(n[8], v, I.eval(args[0]), None, e['obj'], args[0]))
        return l
    if n == 'operator[]':
        return I.deref(I.advance(v, I.eval(args[0])))
    if n == 'operator=':
        I.write(l, I.eval(args[0]))
        return l
    if n in ('operator==', 'operator!='):
        return I.compare(n[8:], v, I.eval(args[0]))
    if n == 'base':
        if v.op == 'it':
            return v
        if v.op == 'rit':
            return mk('it', v.args[0], sub(size(I.read(v.args[0])), v.args[1]))
    return None


def pointer(I, e, c, n, cls, args):
    if n in ('get', 'operator->', 'lock'):
        v = I.eval(e['obj'])
        if e.get('arrow'):
            v = I.read(I.deref(v))
        if n == 'get' and cls == 'std::reference_wrapper':
            return I.deref(v)
        return v
    if n == 'operator*':
        return I.deref(I.eval(e['obj']))
    if n == 'operator bool':
        return I.truthptr(I.eval(e['obj']))
    if n.startswith('operator ') and cls == 'std::reference_wrapper':
        return I.deref(I.eval(e['obj']))
    l = recv(I, e)
    if n == 'operator=':
        I.write(l, I.moved(args[0], cls + '<') if '&&' in c.get('id', '') else I.eval(args[0]))
        return l
    if n == 'reset':
        I.write(l, I.eval(args[0]) if args else NULL)
        return VOID
    if n == 'release':
        v = I.read(l)
        I.write(l, NULL)
        return v
    if n == 'swap':
        m = I.evalloc(args[0])
        x, y = I.read(l), I.read(m)
        I.write(l, y)
        I.write(m, x)
        return VOID
    return None


def strings(I, e, c, n, args):
    l = recv(I, e)
    v = I.read(l)
    if n == 'empty':
        return same(v, string(''))
    if n in ('find', 'rfind', 'find_first_of', 'find_last_of') and len(args) < 3:
        x = I.eval(args[0])
        x = text(x, tyof(args[0]))
        if n in ('find_first_of', 'find_last_of'):
            if not (x.op == 'str' and len(x.args[0]) == 1 or x.op == 'chr'):
                return mk('s' + n, v, x, *[I.eval(a) for a in args[1:]])
            n = 'find' if n == 'find_first_of' else 'rfind'
        if n == 'rfind':
            pos = I.eval(args[1]) if len(args) > 1 else mk('npos')
            if pos.op == 'num' and numval(pos) == 2 ** 64 - 1:
                pos = mk('npos')
            return mk('srfind', v, x) if pos.op == 'npos' else mk('srfind', v, x, pos)
        pos = I.eval(args[1]) if len(args) > 1 else ZERO
        if v.op == 'str' and x.op == 'str' and is_num(pos):
            i = v.args[0].find(x.args[0], int(numval(pos)))
            return mk('npos') if i < 0 else num(i)
        if pos is not ZERO:
            return mk('sfind', v, x, pos)
        return mk('sfind', v, x)
    if n == 'substr':
        a = I.eval(args[0]) if args else ZERO
        m = I.eval(args[1]) if len(args) > 1 else mk('npos')
        if m.op == 'num' and numval(m) == 2 ** 64 - 1:
            m = mk('npos')
        return substr(v, a, m)
    if n in ('operator=', 'assign') and len(args) == 1:
        I.write(l, text(I.eval(args[0]), tyof(args[0])))
        return l
    if n in ('operator+=', 'append') and len(args) == 1:
        I.write(l, cat(v, text(I.eval(args[0]), tyof(args[0]))))
        return l
    if n == 'push_back':
        I.write(l, cat(v, text(I.eval(args[0]), 'char')))
        return VOID
    if n == 'clear':
        I.write(l, string(''))
        return VOID
    if n in ('c_str', 'data'):
        return v if v.op == 'str' else mk('cstr', v)
    if n in ('length',):
        return size(v)
    if n == 'remove_prefix':
        I.write(l, substr(v, I.eval(args[0]), mk('npos')))
        return VOID
    if n == 'compare' and len(args) == 1:
        return mk('app', 'compare', v, text(I.eval(args[0]), tyof(args[0])))
    if n == 'compare' and len(args) == 3 and tyof(args[2]) != 'unsigned long':
        return mk('app', 'compare', substr(v, I.eval(args[0]), I.eval(args[1])), text(I.eval(args[2]), tyof(args[2])))
    if n == 'resize' or n == 'reserve':
        if n == 'reserve':
            return VOID
    return None


def defval(I, ty):
    t = strip(ty or '')
    if t == 'bool':
        return FALSE
    if t in INTS or t in ('double', 'float'):
        return ZERO
    if pointee(t):
        return NULL
    if isstr(t) or t == 'pooya::ValidName':
        return string('')
    if t in I.prog.recs:
        return I.default_rec(t)
    return EMPTY


def element(I, e, vty, args):
    """a new element of a sequence of type vty built from args"""
    et = strip(targ(strip(vty)) or '')
    if not args:
        return defval(I, et)
    vals = [I.eval(a) for a in args]
    if len(vals) == 1:
        return vals[0]
    if hd(et) == 'std::pair' and len(vals) == 2:
        if et.startswith('std::pair<pooya::ValidName') or 'std::pair<const pooya::ValidName' in et:
            if strip(tyof(args[0])) != 'pooya::ValidName' and not I.raw:
                vals[0] = I.emend(vals[0])
        return rec({'first': vals[0], 'second': vals[1]})
    r = I.prog.recs.get(et)
    if r:
        cs = [m for m in I.prog.methods.get(et, []) if m.get('isctor') and len(m['params']) == len(args) and 'body' in m]
        if len(cs) == 1:
            from .interp import L
            I.st.nnew += 1
            o = L('obj', 'e%d' % I.st.nnew)
            I.st.declared.add(o)
            I.st.cells[o] = I.default_rec(et, False)
            I.invoke(cs[0], mk('addr', loc(o)), [I.temp(v) for v in vals])
            return I.st.cells[o]
    return mk('ctorval', et, *vals)


def sequence(I, e, c, n, l, args):
    v = I.read(l)
    oty = e['obj'].get('ty', '') if e.get('obj') is not None else ''
    if e.get('arrow'):
        oty = strip(oty)
        oty = oty[:-1].strip() if oty.endswith('*') else (pointee(oty) or oty)
    if n in ('begin', 'cbegin'):
        return mk('it', l, ZERO)
    if n in ('end', 'cend'):
        return mk('it', l, size(v))
    if n in ('rbegin', 'crbegin'):
        return mk('rit', l, ZERO)
    if n in ('rend', 'crend'):
        return mk('rit', l, size(v))
    if n in ('size', 'length'):
        return size(v)
    if n == 'empty':
        return eqn(size(v), ZERO)
    if n in ('operator[]', 'at'):
        i = I.eval(args[0])
        if n == 'at':
            I.st.pc.log  # bounds-checked access: out of range raises
            if I.raw:
                from .interp import ThrowEx
                if not I.branch(lt(i, size(v))):
                    raise ThrowEx(string('out_of_range'), I.where)
        x = sub_loc(l, ('i', i))
        I.settype(I.read(x), c.get('rt'))
        return x
    if n == 'back':
        return sub_loc(l, ('i', sub(size(v), ONE)))
    if n == 'front':
        return sub_loc(l, ('i', ZERO))
    if n == 'data':
        return mk('eptr', l, ZERO)
    if n == 'capacity':
        t = mk('app', 'capacity', v)
        I.facts.ty.setdefault(t, 'unsigned long')
        return t
    if n in ('reserve', 'shrink_to_fit'):
        [I.eval(a) for a in args]
        return VOID
    if n in ('push_back', 'emplace_back', 'emplace') and n != 'emplace':
        x = element(I, e, oty or 'std::vector<>', args)
        v = I.read(l)
        I.write(l, mk('append', v, x))
        return sub_loc(l, ('i', size(v)))
    if n == 'pop_back':
        I.write(l, v.args[0] if v.op == 'append' else mk('erase', v, sub(size(v), ONE), size(v)))
        return VOID
    if n == 'clear':
        I.write(l, EMPTY)
        return VOID
    if n == 'resize':
        m = I.eval(args[0])
        I.write(l, v if m is size(v) else mk('resized', v, m))
        return VOID
    if n == 'erase':
        a = I.eval(args[0])
        b = I.eval(args[1]) if len(args) > 1 else I.advance(a, ONE)
        if a.op == 'it' and b.op == 'it' and a.args[0] is l:
            if a.args[1] is b.args[1]:
                return a
            I.write(l, mk('erase', v, a.args[1], b.args[1]))
            return a
        return None
    if n in ('insert', 'emplace'):
        a = I.eval(args[0])
        if len(args) == 2 and a.op == 'it' and a.args[1] is size(v):
            I.write(l, mk('append', v, I.eval(args[1])))
            return a
        if len(args) == 3 and a.op == 'it' and a.args[1] is size(v):
            b, en = I.eval(args[1]), I.eval(args[2])
            if b.op == en.op and b.op in ('it', 'vit') and b.args[0] is en.args[0] and b.args[1] is ZERO:
                w = I.read(b.args[0]) if b.args[0].op == 'loc' else b.args[0]
                if en.args[1] is size(w):
                    I.write(l, w if v is EMPTY else mk('concat', v, w))
                    return a
        if len(args) == 2 and a.op == 'it':
            I.write(l, mk('inserted', v, a.args[1], I.eval(args[1])))
            return a
        return None
    if n == 'assign' and len(args) == 2:
        a, b = I.eval(args[0]), I.eval(args[1])
        if a.op in ('it', 'vit') and b.op == a.op and a.args[0] is b.args[0] and a.args[1] is ZERO:
            w = I.read(a.args[0]) if a.args[0].op == 'loc' else a.args[0]
            if b.args[1] is size(w):
                I.write(l, w)
                return VOID
        if a.op not in ('it', 'vit'):
            I.write(l, mk('filled', a, b))
            return VOID
        return None
    if n == 'assign' and len(args) == 1:
        I.write(l, I.eval(args[0]))
        return VOID
    if n == 'operator=':
        x = I.moved(args[0], cls_of(e)) if '&&' in c.get('id', '') else I.eval(args[0])
        I.write(l, EMPTY if x.op == 'seq' and not x.args else x)
        return l
    if n == 'swap':
        m = I.evalloc(args[0])
        w = I.read(m)
        I.write(l, w)
        I.write(m, v)
        return VOID
    return None


def mapping(I, e, c, n, l, args):
    v = I.read(l)
    if n == 'find':
        k = I.eval(args[0])
        return mk('mit', l, k) if I.branch(haskey(v, k)) else mk('it', l, size(v))
    if n in ('count', 'contains'):
        t = haskey(v, I.eval(args[0]))
        r = I.branch(t)
        return boolc(r) if n == 'contains' else (ONE if r else ZERO)
    if n == 'at':
        k = I.eval(args[0])
        if I.st.pc.decide(haskey(v, k), I.facts) is False:
            from .interp import ThrowEx
            raise ThrowEx(string('out_of_range'), I.where)
        return sub_loc(l, ('k', k))
    if n == 'operator[]':
        k = I.eval(args[0])
        if not I.branch(haskey(v, k)):
            I.write(l, mk('mput', v, k, defval(I, c.get('rt'))))
        return sub_loc(l, ('k', k))
    if n == 'insert_or_assign':
        k, x = I.eval(args[0]), I.eval(args[1])
        I.write(l, mk('mput', I.read(l), k, x))
        return rec({'first': mk('mit', l, k)})
    if n in ('emplace', 'try_emplace', 'insert'):
        if len(args) == 2:
            k, x = I.eval(args[0]), I.eval(args[1])
        elif len(args) == 1:
            p = I.eval(args[0])
            k, x = fld(p, 'first'), fld(p, 'second')
        else:
            return None
        if I.branch(haskey(v, k)):
            return rec({'first': mk('mit', l, k), 'second': FALSE})
        I.write(l, mk('mput', v, k, x))
        return rec({'first': mk('mit', l, k), 'second': TRUE})
    if n == 'erase':
        a = I.eval(args[0])
        k = a.args[1] if a.op == 'mit' else a if a.op not in ('it',) else fld(at(v, a.args[1]), 'first') if len(args) == 1 and a.args[0] is l else None
        if k is None:
            return None
        if a.op not in ('mit', 'it') and I.st.pc.decide(haskey(v, k), I.facts) is False:
            return ZERO
        I.write(l, mk('merase', v, k))
        return VOID
    return sequence(I, e, c, n, l, args) if n in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty', 'clear', 'reserve', 'operator=', 'swap') else None


def sets(I, e, c, n, l, args):
    v = I.read(l)
    if n == 'find':
        k = I.eval(args[0])
        return mk('mit', l, k) if I.branch(member(v, k)) else mk('it', l, size(v))
    if n in ('count', 'contains'):
        r = I.branch(member(v, I.eval(args[0])))
        return boolc(r) if n == 'contains' else (ONE if r else ZERO)
    if n in ('insert', 'emplace'):
        if len(args) != 1:
            return None
        k = I.eval(args[0])
        t = member(v, k)
        d = I.st.pc.decide(t, I.facts)
        if d is not True:
            I.write(l, mk('sadd', v, k))
        return rec({'first': mk('mit', l, k), 'second': FALSE if d is True else TRUE if d is False else notb(t)})
    if n == 'erase':
        a = I.eval(args[0])
        k = a.args[1] if a.op == 'mit' else a if a.op != 'it' else None
        if k is None:
            return None
        I.write(l, mk('serase', v, k))
        return VOID
    return sequence(I, e, c, n, l, args) if n in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty', 'clear', 'reserve', 'operator=', 'swap') else None


def is2d(ty):
    t = strip(ty)
    m = re.match(r'Eigen::Matrix<double, (-?\d+), (-?\d+)', t)
    return bool(m) and m.group(2) != '1'


def cls_of(e):
    return strip((e.get('obj') or {}).get('ty', ''))


def eigen(I, e, c, n, cls, args):
    oty = e['obj'].get('ty', '')
    if n == 'operator=':
        l = recv(I, e)
        v = I.eval(args[0])
        I.write(l, v)
        return l
    if n in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        l = recv(I, e)
        I.write(l, I.arith(n[8], I.read(l), I.eval(args[0])))
        return l
    if n in ('operator+', 'operator-', 'operator*', 'operator/'):
        a = I.eval(e['obj'])
        if not args:
            return neg(a)
        return I.arith(n[8:], a, I.eval(args[0]))
    if n in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
        l = recv(I, e)
        ix = [I.eval(a) for a in args]
        if is2d(oty):
            r = sub_loc(sub_loc(l, ('i', ix[0])), ('i', ix[1] if len(ix) > 1 else ZERO))
        elif len(ix) == 2 and 'Block' in hd(oty):
            r = sub_loc(l, ('i', ix[1]))
        else:
            r = sub_loc(l, ('i', ix[0]))
        I.settype(I.read(r), 'double')
        return r
    l = recv(I, e)
    v = I.read(l)
    if n in ('size', 'rows'):
        return size(v)
    if n == 'cols':
        return mk('cols', v)
    if n == 'data':
        return mk('eptr', l, ZERO)
    if n == 'row':
        return sub_loc(l, ('i', I.eval(args[0])))
    if n in ('segment', 'head'):
        a = I.eval(args[0])
        return sub_loc(l, ('s', a, I.eval(args[1]))) if n == 'segment' else sub_loc(l, ('s', ZERO, a))
    if n == 'setZero':
        if args:
            I.write(l, mk('zeros', *[I.eval(a) for a in args]))
        else:
            I.write(l, mk('zeros', size(v)))
        return l
    if n in ('setConstant', 'fill') and len(args) == 1:
        x = I.eval(args[0])
        I.write(l, mk('zeros', size(v)) if x is ZERO else mk('filled', size(v), x))
        return l
    if n in ('resize', 'conservativeResize'):
        ns = [I.eval(a) for a in args]
        keep = v if n == 'conservativeResize' else EMPTY
        if len(ns) == 1 and ns[0] is size(v):
            return VOID
        two = (ns[1],) if len(ns) > 1 and hd(args[1].get('ty', '')) != 'Eigen::NoChange_t' and strip(args[1].get('ty', '')) in INTS else ()
        I.write(l, mk('resized', keep, ns[0], *two))
        return VOID
    if n in IDENTITY_METHODS:
        return l
    if n == 'swap':
        m = I.evalloc(args[0])
        w = I.read(m)
        I.write(l, w)
        I.write(m, v)
        return VOID
    if n == 'abs':
        return mk('app', 'cwiseAbs', v)
    if n in APPS:
        t = mk('app', n, v, *[I.eval(a) for a in args])
        return t
    return None
