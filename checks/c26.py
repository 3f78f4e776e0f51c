"""C26: the history keeps the recorded value of every tracked signal at every step"""
from hist import *

RULE = """The history's constructor, track, untrack, update, shrink_to_fit, nrows, time and lookup are summarised path by path (both build modes).  The extracted summaries are followed, starting
from the state the constructor leaves, on model histories: every kind of signal (scalars, integers, booleans, arrays of one and several entries, buses), every growth setting from none
up, rows recorded in order, with gaps, backwards and repeatedly, signals assigned in some rows and not in others, with and without shrinking in between.  After every step each recorded
row must hold its time and exactly the values recorded for it; every access must lie within the storage at that point; the number of rows is one more than the highest row; shrinking
leaves exactly the rows in use."""
ASSUME = ['the summaries are uniform: right on the model histories means right on longer ones and on more signals', 'rows never recorded may hold anything']
HI = 'pooya::History'


class Use:
    """a history being used, next to what it should hold"""

    def __init__(self, ctx, P, grow):
        self.ctx, self.P = ctx, P
        self.m = Machine(P, HI)
        self.fns = {n: ctx.need(HI, n, P, np=k, own=True) for n, k in (('track', 1), ('untrack', 1), ('update', 2), ('shrink_to_fit', 0), ('nrows', 0), ('time', 0), ('operator[]', 1))}
        ks = [k for k in ctx.ctors(HI, P) if len(k['params']) == 1 and strip(k['params'][0]['ty']) in PG.INTS and 'body' in k]
        if len(ks) != 1:
            raise Broken('constructor of the history')
        self.m.mem[('base',)] = {}
        self.m.call(ctx, ks[0], grow)
        self.rows, self.tracked, self.said = {}, [], ['History(%s)' % grow]

    def do(self, n, *args):
        r = self.m.call(self.ctx, self.fns[n], *args)
        if r[0] == 'throw':
            raise Bad('%s raises an exception' % n)
        return r[1]

    def track(self, s):
        self.said.append('track %s' % s)
        r = self.do('track', s)
        want = s.kind != 'bus' and s not in self.tracked
        if r is not want and r != want:
            raise Bad('track returns %s for %s' % (r, 'a value signal not tracked yet' if want else 'a bus' if s.kind == 'bus' else 'a signal that is tracked already'))
        if want:
            self.tracked.append(s)

    def untrack(self, s):
        self.said.append('untrack %s' % s)
        self.do('untrack', s)
        if s in self.tracked:
            self.tracked.remove(s)

    def update(self, k, vals):
        """vals: which tracked signals are assigned"""
        n = len(self.said)
        t = Fr(8 * n - 93, 16)
        for i, s in enumerate(self.tracked):
            s.assigned = False
            if i in vals:
                v = Fr(100 * n + 10 * i) + Fr(1, 3)
                s.put(Tab(-v - j for j in range(s.size)) if s.kind == 'A' else (n % 2 == 0 if s.kind == 'B' else v if s.kind == 'S' else -int(v)))
        self.said.append('update(%d) with %s assigned' % (k, [s.name for i, s in enumerate(self.tracked) if i in vals]))
        self.do('update', k, t)
        if self.tracked:
            self.rows[k] = (t, {s: s.entries() for s in self.tracked})
        self.compare()

    def shrink(self):
        self.said.append('shrink_to_fit')
        self.do('shrink_to_fit')
        self.compare(True)

    def compare(self, exact=False):
        n = self.do('nrows') % 2 ** 32
        want = max(self.rows) + 1 if self.rows else 0
        if n != want:
            raise Bad('nrows is %s, the highest row stored is %s' % (n, want - 1))
        tm = self.do('time')
        if len(tm) < n:
            raise Bad('%d times are kept for %d rows' % (len(tm), n))
        if exact and len(tm) != n:
            raise Bad('%d times are left after shrinking to %d rows' % (len(tm), n))
        for k, (t, vals) in self.rows.items():
            if tm[k] is UNDEF or tm[k] != t:
                raise Bad('row %d holds the time %r, recorded at %r' % (k, tm[k], t))
        if not self.rows:
            return
        for s in self.tracked:
            tab = self.do('operator[]', s)
            if not isinstance(tab, Tab):
                raise Unknown('a table %r' % (tab,))
            if len(tab) < n:
                raise Bad('the table of %r has %d rows, %d are recorded' % (s, len(tab), n))
            if exact and len(tab) != n:
                raise Bad('the table of %r has %d rows after shrinking to %d' % (s, len(tab), n))
            if (tab.cols or 1) != s.size:
                raise Bad('the table of %r has %s columns' % (s, tab.cols or 1))
            for k, (t, vals) in self.rows.items():
                row = tab[k] if isinstance(tab[k], list) else [tab[k]]
                for x, y in zip(row, vals[s]):
                    if x is not y and not (isinstance(x, (int, Fr)) and isinstance(y, (int, Fr)) and x == y):
                        raise Bad('row %d of %r holds %r, %r was recorded' % (k, s, x, y))


def signals():
    return [Sig('S', 's'), Sig('I', 'i'), Sig('B', 'b'), Sig('A', 'a', 3), Sig('A', 'one', 1)]


ROWS = [[0, 1, 2, 3, 4], [0, 5, 2], [3, 1, 0], [7], [0, 0, 1, 0], [2, 9, 3], [1, 2, 4, 8]]


def scenarios(deep):
    for grow in (0, 1, 2, 3, 5) if not deep else range(0, 9):
        for rows in ROWS:
            for shrink in ((), (1,), (2,), (0, 2)):
                yield grow, rows, shrink


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(HI, P)
        f = ctx.need(HI, 'update', P, np=2, own=True)
        w = ctx.where(f)
        run(ctx, 'tracking takes each value signal once and nothing else (%s)' % P.config, ctx.where(ctx.need(HI, 'track', P, np=1, own=True)), tracking, ctx, P)
        for kinds in ('all', 'S', 'I', 'B', 'A', 'one'):
            for grow, rows, shrink in scenarios(ctx.tier == 'thorough'):
                if kinds != 'all' and (shrink == (2,) or grow > 3 and ctx.tier != 'thorough'):
                    continue
                run(ctx, 'recorded rows are kept (%s; signals: %s; growth %d; rows %s; shrunk after %s)' % (P.config, kinds, grow, rows, list(shrink)), w, recording, ctx, P, kinds, grow, rows, shrink)
        run(ctx, 'a history without signals records nothing (%s)' % P.config, w, nothing, ctx, P)
        run(ctx, 'only value signals have a recorded history (%s)' % P.config, ctx.where(ctx.need(HI, 'operator[]', P, np=1, own=True)), others, ctx, P)


def run(ctx, what, where, fn, *args):
    said = []
    try:
        fn(said, *args)
    except Bad as x:
        ctx.check(what, where, False, '%s\nafter: %s' % (x, '; '.join(said)))
    except (Unknown, Undecided) as x:
        ctx.undecided(what, where, '%s after %s' % (str(x)[:600], '; '.join(said)[-200:]))
    else:
        ctx.hold(what, where)


def recording(said, ctx, P, kinds, grow, rows, shrink):
    u = Use(ctx, P, grow)
    u.said = said
    sigs = signals()
    for s in sigs:
        if kinds in ('all', s.name.upper(), s.name):
            u.track(s)
    n = len(u.tracked)
    for i, k in enumerate(rows):
        u.update(k, {j for j in range(n) if (i + j) % 3 != 2} if kinds == 'all' else set(range(n)) if i % 3 != 1 else set())
        if i in shrink:
            u.shrink()


def tracking(said, ctx, P):
    for order in (0, 1):
        u = Use(ctx, P, 2)
        u.said = said
        ss = signals()
        bus = Sig('bus', 'bus')
        other = Sig('S', 'other')
        for s in (ss[0], ss[0], bus, ss[1], ss[2], ss[1], ss[3], ss[4], ss[3], ss[0], bus):
            u.track(s)
        u.untrack(other)
        u.untrack(bus)
        u.untrack(ss[1] if not order else ss[4])
        u.untrack(ss[1] if not order else ss[4])
        u.untrack(ss[0])
        u.track(ss[0])
        u.update(0, {0, 1, 2, 3})
        u.update(1, {1, 3})
        gone = ss[1] if not order else ss[4]
        if any(k is gone for k in u.m.mem[('base',)]):
            raise Bad('%r is recorded although it was untracked' % gone)
        if len(u.m.mem[('base',)]) != len(u.tracked):
            raise Bad('%d signals are recorded, %d are tracked' % (len(u.m.mem[('base',)]), len(u.tracked)))


def nothing(said, ctx, P):
    u = Use(ctx, P, 3)
    u.said = said
    u.compare()
    u.update(0, ())
    u.update(4, ())
    if u.m.mem[('base',)]:
        raise Bad('something is recorded')
    s = Sig('S', 's')
    u.track(s)
    u.untrack(s)
    u.update(1, ())
    u.track(s)
    u.update(0, {0})


def others(said, ctx, P):
    u = Use(ctx, P, 3)
    u.said = said
    s = Sig('S', 's')
    u.track(s)
    u.update(0, {0})
    r = u.m.call(ctx, u.fns['operator[]'], Sig('bus', 'bus'))
    if r[0] != 'throw':
        raise Bad('looking up a bus gives %r' % (r[1],))
