"""compact C++-like printer of the dumped trees (reports and debugging)"""
from .prog import strip


def e(x):
    if x is None:
        return ''
    k = x.get('k')
    if k in ('int', 'flt', 'bool'):
        return str(x['v'])
    if k == 'str':
        return repr(x['v'])
    if k == 'null':
        return 'nullptr'
    if k == 'this':
        return 'this'
    if k == 'var':
        return x.get('n') or '_%s' % x['id']
    if k == 'gvar':
        return x['q']
    if k == 'fn':
        return x.get('q', 'fn')
    if k == 'mem':
        if x['base'].get('k') == 'this':
            return x['f']
        return e(x['base']) + ('->' if x['arrow'] else '.') + x['f']
    if k == 'un':
        o = x['op']
        return e(x['e']) + o[4:] if o.startswith('post') else o.replace('pre', '') + e(x['e'])
    if k == 'bin':
        return '(%s %s %s)' % (e(x['a']), x['op'], e(x['b']))
    if k == 'cond':
        return '(%s ? %s : %s)' % (e(x['c']), e(x['a']), e(x['b']))
    if k == 'idx':
        return '%s[%s]' % (e(x.get('a')), e(x.get('b')))
    if k == 'dyncast':
        return 'dynamic_cast<%s>(%s)' % (x['to'], e(x['e']))
    if k == 'cast':
        return e(x['e']) if x['ck'] not in ('f2i', 'i2b', 'f2b') else '%s(%s)' % (x['ck'], e(x['e']))
    if k == 'ctor':
        return '%s(%s)' % (strip(x['ty']).split('<')[0], ', '.join(map(e, x['args'])))
    if k == 'initlist':
        return '{%s}' % ', '.join(map(e, x.get('items', [])))
    if k == 'lambda':
        return '[..](%s){%s}' % (', '.join(p['n'] for p in x['params']), ' '.join(s(y) for y in x['body'].get('s', [])))
    if k == 'call':
        if x.get('c') is None:
            return '(%s)(%s)' % (e(x.get('fe')), ', '.join(map(e, x['args'])))
        n = x['c']['n']
        if x.get('obj') is not None:
            o = e(x['obj'])
            return ('' if o == 'this' else o + ('->' if x.get('arrow') else '.')) + '%s(%s)' % (n, ', '.join(map(e, x['args'])))
        return '%s(%s)' % (n, ', '.join(map(e, x['args'])))
    return k + str({a: b for a, b in x.items() if a != 'k'})[:80]


def s(x, ind=0):
    if x is None:
        return ';'
    k = x['k']
    if k == 'block':
        return '{ ' + ' '.join(s(y) for y in x['s'] if not (y['k'] == 'block' and not y['s'])) + ' }'
    if k == 'expr':
        return e(x['e']) + ';'
    if k == 'decl':
        return '%s %s = %s;' % (strip(x['ty']).split('<')[0], x['n'], e(x.get('init')))
    if k == 'decomp':
        return 'auto[%s] = %s;' % (', '.join(b['n'] for b in x['b']), e(x.get('init')))
    if k == 'if':
        return 'if (%s) %s' % (e(x['c']), s(x['t'])) + (' else ' + s(x['e']) if x.get('e') else '')
    if k == 'while':
        return 'while (%s) %s' % (e(x['c']), s(x['b']))
    if k == 'do':
        return 'do %s while (%s);' % (s(x['b']), e(x['c']))
    if k == 'for':
        return 'for (%s %s; %s) %s' % (s(x.get('init')), e(x.get('c')), e(x.get('inc')), s(x['b']))
    if k == 'rfor':
        return 'for (%s : %s) %s' % (x['var'].get('n') or [b['n'] for b in x['var'].get('b', [])], e(x['range']), s(x['b']))
    if k == 'ret':
        return 'return %s;' % e(x.get('e'))
    return k + ';'
