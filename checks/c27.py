"""C27: the CSV export has matching columns and one line per recorded row"""
from hist import *
import c26

RULE = """The history's functions and the export are summarised path by path (both build modes).  Recorded model histories (every kind of signal, one signal or several, arrays of one and
several entries, tables with spare rows and shrunk ones, both orders of walking the map) are built by following the extracted summaries as in C26, then the extracted path of the export
is followed and what it writes is read back as text: a header of "time" and each signal's columns, then one line per recorded row with the row's time and values in the order of the
header.  Without anything recorded nothing must be written or opened."""
ASSUME = c26.ASSUME + ['numbers are printed by the standard library', 'names of signals contain neither commas nor line breaks (C04)']
HI = c26.HI


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(HI, P)
        f = ctx.need(HI, 'export_csv', P, np=1, own=True)
        w = ctx.where(f)
        for order in (0, 1):
            for kinds in ('s', 'i', 'b', 'a', 'one', 's a', 'a s', 'a one i', 's i b a one', 'one b a i s'):
                for grow, rows, shrink in ((0, [0, 1, 2], ()), (2, [0], ()), (2, [0, 1, 2, 3], ()), (3, [0, 1], (1,)), (1, [2, 1, 0], ()), (5, [0, 1, 1, 2], (2,))):
                    c26.run(ctx, 'the export shows the recorded rows (%s; signals: %s; growth %d; rows %s%s; order %d)' % (P.config, kinds, grow, rows, '; shrunk' if shrink else '', order),
                            w, exporting, ctx, P, f, order, kinds.split(), grow, rows, shrink)
        for tracked in ((), ('s',), ('a', 's')):
            c26.run(ctx, 'nothing recorded, nothing written (%s; tracking: %s)' % (P.config, list(tracked)), w, nothing, ctx, P, f, tracked)


def by_name(kinds):
    ss = {s.name: s for s in c26.signals()}
    return [ss[k] for k in kinds]


def exporting(said, ctx, P, f, order, kinds, grow, rows, shrink):
    u = c26.Use(ctx, P, grow)
    u.said = said
    u.m.order = order
    for s in by_name(kinds):
        u.track(s)
    for i, k in enumerate(rows):
        u.update(k, set(range(len(kinds))) if i % 3 != 1 else {j for j in range(len(kinds)) if j % 2 == 0})
        if i in shrink:
            u.shrink()
    n = max(rows) + 1
    said.append('export_csv')
    u.m.out, u.m.opened = [], 0
    r = u.m.call(ctx, f, 'file.csv')
    if r[0] == 'throw':
        raise Bad('export_csv raises an exception')
    lines = split(u.m.out)
    if not lines:
        raise Bad('nothing is written')
    head, body = lines[0], lines[1:]
    cols = [''.join(str(x) if isinstance(x, str) else '%s' % int(x.v) if isinstance(x.v, (int, Fr)) else repr(x) for x in c) for c in head]
    if not cols or cols[0].strip() != 'time':
        raise Bad('the header does not start with time: %s' % cols)
    where, left = [], list(u.tracked)
    i = 1
    while i < len(cols):
        s = [s for s in left if named(cols[i], s)]
        if len(s) != 1:
            raise Bad('column %r of the header belongs to %s' % (cols[i], s or 'no tracked signal left'))
        s = s[0]
        left.remove(s)
        part = cols[i:i + s.size]
        if len(part) < s.size or not all(named(c, s) for c in part) or len(set(part)) != len(part):
            raise Bad('the columns of %r are %s' % (s, part))
        where += [(s, j) for j in range(s.size)]
        i += s.size
    if left:
        raise Bad('no column for %s; header: %s' % (left, cols))
    if len(body) != n:
        raise Bad('%d lines follow the header, %d rows are recorded' % (len(body), n))
    for k, line in enumerate(body):
        if len(line) != len(cols):
            raise Bad('line %d has %d columns, the header %d: %s' % (k, len(line), len(cols), line))
        t, vals = u.rows[k]
        for c, want, cell in zip(cols, [t] + [vals[s][j] for s, j in where], line):
            got = cell[0].v if len(cell) == 1 and isinstance(cell[0], Tok) else None
            if got is True or got is False:
                got = int(got)
            if isinstance(want, bool):
                want = int(want)
            if got is not want and not (isinstance(got, (int, Fr)) and isinstance(want, (int, Fr)) and got == want):
                raise Bad('column %r of line %d shows %s, recorded was %r' % (c, k, cell, want))


def named(col, s):
    """is it a column of this signal"""
    c = col.strip()
    return c == s.name if s.kind != 'A' else c.startswith(s.name) and (len(c) == len(s.name) or not (c[len(s.name)].isalnum() or c[len(s.name)] == '_'))


def split(out):
    """written pieces as lines of cells of pieces"""
    lines, cell, line = [], [], []
    for x in out:
        if isinstance(x, Tok):
            cell.append(x)
            continue
        for ch in x:
            if ch == ',':
                line.append(cell)
                cell = []
            elif ch == '\n':
                lines.append(line + [cell])
                line, cell = [], []
            elif cell and isinstance(cell[-1], str):
                cell[-1] += ch
            else:
                cell.append(ch)
    if cell or line:
        raise Bad('the last line is not ended: %s' % (line + [cell]))
    return lines


def nothing(said, ctx, P, f, tracked):
    u = c26.Use(ctx, P, 2)
    u.said = said
    for s in by_name(tracked):
        u.track(s)
    u.m.out, u.m.opened = [], 0
    said.append('export_csv')
    u.m.call(ctx, f, 'file.csv')
    if u.m.out:
        raise Bad('%s is written' % u.m.out)
    if u.m.opened:
        raise Bad('the file is opened (and emptied)')
