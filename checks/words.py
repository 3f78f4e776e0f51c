"""Follows extracted paths on given strings: a string is the sequence of its characters (as signed char, like the compiler used here)."""
from lib import *
from algebra import *
import machine
from machine import Machine, Stuck, Endless


def chars(s):
    """characters of a byte string as the numbers a (signed) char has"""
    b = s.encode('latin-1') if isinstance(s, str) else s
    return tuple(num(x - 256 if x > 127 else x) for x in b)


def valid(s):
    return ''.join(ch if ord(ch) < 128 and (ch.isalnum() or ch == '_') else '_' for ch in s)


class Words(Machine):
    LIMIT = LIM = 1100

    def __init__(self, given, extra=None):
        """given: {term: str}"""
        Machine.__init__(self, [], sym('no model'), extra)
        self.stack = []
        self.given = {}
        for t, s in given.items():
            v = mk('lst', chars(s))
            self.bind[t] = v
            self.given[t] = v
            x = now(t)
            if x is not t:
                self.bind[x] = v

    def text(self, t):
        """the string a term stands for"""
        s = self.seq(t)
        if s is None:
            raise Unknown('not a known string: %s' % show(t)[:200])
        out = []
        for x in s:
            n = int(self.number(x))
            if not -128 <= n <= 255:
                raise Unknown('not a character: %d' % n)
            out.append(chr(n % 256))
        return ''.join(out)

    def norm(self, t):
        if t.op == 'str':
            return t
        return Machine.norm(self, t)

    def seq(self, v):
        if v in self.bind:
            v = self.bind[v]
        op = v.op
        if op == 'lst':
            return list(v.args[0])
        if op == 'str':
            return list(chars(v.args[0].encode()))
        if op == 'rec':
            d = dict((k, x) for k, x in v.args[0])
            if set(d) == {'_name'} or len(d) == 1:
                return self.seq(list(d.values())[0])
            return None
        if op == 'cat':
            out = []
            for x in v.args:
                s = self.seq(x)
                if s is None:
                    s = self.single(x)
                if s is None:
                    return None
                out += s
            return out
        if op == 'chr':
            return self.single(v.args[0])
        if op == 'cstr':
            s = self.seq(v.args[0])
            if s is None:
                return None
            z = [i for i, x in enumerate(s) if self.number(x) == 0]
            return s[:z[0]] if z else s
        if op == 'tostr':
            x = v.args[0]
            try:
                n = self.number(x)
            except Unknown:
                return self.seq(x)
            return list(chars(str(int(n)).encode())) if n == int(n) else None
        if op == 'ccomp' or op == 'comp' and any(x.op == 'mu' for x in subterms(v.args[2])):
            s = self.seq(v.args[0])
            if s is None:
                return None
            s = list(s)
            n = int(self.number(v.args[1]))
            mus = {x for x in subterms(v.args[2]) if x.op == 'mu'}
            if len(mus) > 1:
                return None
            saved = dict(self.bind)
            try:
                for k in range(n):
                    for m in mus:
                        self.bind[m] = mk('lst', tuple(s))
                    if mus:
                        self.touch()
                    new = []
                    for cnd, items in instance(v.args[2], v.args[3], k):
                        if self.dnf(cnd):
                            for x in items:
                                y = self.seq(x) if op == 'ccomp' else [self.norm(x)]
                                if y is None:
                                    y = self.single(x)
                                if y is None:
                                    return None
                                new += y
                    s += new
            finally:
                self.bind = saved
                if mus:
                    self.touch()
            return s
        if op == 'mapped':
            s = self.seq(v.args[0])
            if s is None:
                return None
            s = list(s)
            n = int(self.number(v.args[1]))
            mus = {x for x in subterms(v.args[2]) if x.op == 'mu'}
            if len(mus) > 1:
                return None
            old = mk('old')
            saved = dict(self.bind)
            try:
                for k in range(n):
                    for m in mus:
                        self.bind[m] = mk('lst', tuple(s))
                    self.touch()
                    news = []
                    for cnd, upd in instance(v.args[2], v.args[3], k):
                        if self.dnf(cnd):
                            i = int(self.number(upd[0]))
                            if not 0 <= i < len(s):
                                raise Unknown('store outside')
                            self.bind[old] = s[i]
                            self.touch()
                            news.append((i, num(self.number(upd[1]))))
                    for i, x in news:
                        s[i] = x
            finally:
                self.bind = saved
                self.touch()
            return s
        if op == 'slice':
            s = self.seq(v.args[0])
            if s is None:
                return None
            i, n = int(self.number(v.args[1])), int(self.number(v.args[2]))
            return s[i:i + n] if 0 <= i <= len(s) and n >= 0 else None
        if op == 'fld' and v.args[1] in ('first', 'second') and v.args[0].op == 'lst':
            return None
        if op == 'fld' and v.args[1] == '_name':
            return self.seq(v.args[0])
        if op == 'substr':
            s = self.seq(v.args[0])
            if s is None:
                return None
            i = int(self.number(v.args[1]))
            n = self.number(v.args[2]) if len(v.args) > 2 and v.args[2].op != 'npos' else len(s)
            n = len(s) if n < 0 else int(n)
            if not 0 <= i <= len(s):
                raise Unknown('substr outside')
            return s[i:i + n]
        if op == 'resized':
            s = self.seq(v.args[0])
            n = int(self.number(v.args[1]))
            return None if s is None or n > len(s) else s[:n]
        if op == 'filled':
            n = int(self.number(v.args[0]))
            return [v.args[1]] * n
        if op == 'upd' and v.args[1] == '_name':
            return self.seq(v.args[2])
        return Machine.seq(self, v)

    def search(self, t):
        s, x = self.text(t.args[0]), self.seq(t.args[1])
        x = self.text(mk('lst', tuple(x if x is not None else self.single(t.args[1]) or [sym('?')])))
        p = None
        if len(t.args) > 2 and t.args[2].op != 'npos':
            p = int(self.number(t.args[2]))
        if t.op == 'sfind':
            i = s.find(x, p or 0) if (p or 0) <= len(s) else -1
        elif t.op == 'srfind':
            i = s.rfind(x) if p is None else s.rfind(x, 0, p + len(x))
        else:
            ks = [k for k, ch in enumerate(s) if ch in x and (p is None or (k >= p if t.op == 'sfind_first_of' else k <= p))]
            i = -1 if not ks else ks[0] if t.op == 'sfind_first_of' else ks[-1]
        return Fr(2 ** 64 - 1 if i < 0 else i)

    def single(self, x):
        try:
            return [num(self.number(x))]
        except Unknown:
            return None

    def value(self, t):
        if t.op in ('true', 'false', 'num'):
            return World.val(self, t)
        if t.op == 'size':
            s = self.seq(t.args[0])
            if s is not None:
                return Fr(len(s))
        if t.op in ('sfind', 'srfind', 'sfind_first_of', 'sfind_last_of'):
            return self.search(t)
        if t.op == 'npos':
            return Fr(2 ** 64 - 1)
        if t.op == 'member' and self.seq(t.args[1]) is not None:
            x = self.seq(t.args[0])
            if x is None:
                x = self.single(t.args[0])
            if x is not None:
                return self.text(mk('lst', tuple(x))) in self.text(t.args[1])
        if t.op == 'app' and t.args[0] in ('narrow:char', 'narrow:signed char'):
            n = int(self.number(t.args[1])) % 256
            return Fr(n - 256 if n > 127 else n)
        if t.op == 'app' and len(t.args) > 1:
            v = self.app(t)
            if v is not None:
                return v
        if t.op == 'same':
            a, b = self.seq(t.args[0]), self.seq(t.args[1])
            if a is not None and b is not None:
                return [self.number(x) for x in a] == [self.number(x) for x in b]
        return Machine.value(self, t)

    def app(self, t):
        f = t.args[0]
        if f in ('isalnum', 'isalpha', 'isdigit', 'isupper', 'islower', 'ispunct', 'isspace'):
            try:
                n = int(self.number(t.args[1]))
            except Unknown:
                return None
            if not 0 <= n <= 255:
                raise Unknown('%s of a negative character' % f)
            c = chr(n)
            a = n < 128
            return Fr(int(a and dict(isalnum=c.isalnum(), isalpha=c.isalpha(), isdigit=c.isdigit(), isupper=c.isupper(), islower=c.islower(),
                                     ispunct=33 <= n <= 126 and not c.isalnum(), isspace=c in ' \t\n\v\f\r')[f]))
        return None


def lengths(terms):
    """lengths worth trying: around every constant a size is compared with"""
    out = {0, 1, 2, 3}
    for t in terms:
        for s in subterms(t):
            if s.op == 'cmp' and any(x.op == 'size' for x in subterms(s)):
                n = abs(int(s.args[1]))
                if n <= 1024:
                    out |= {max(n - 1, 0), n, n + 1}
            if s.op == 'substr' or s.op == 'slice' or s.op == 'resized':
                for a in s.args[1:]:
                    if is_num(a) and 0 <= numval(a) <= 1024:
                        out |= {int(numval(a)), int(numval(a)) + 1}
    return sorted(out)
