"""C08: a leaf block runs at most once per pass, and only when its inputs are ready"""
import itertools
from blocks import *

RULE = """Every path of Leaf::process (and of any override of it in a library leaf block) is compared, for every list of up to 3 linked signals with every
combination of roles and assigned flags and both values of the processed flag, with the specified behaviour: the computation is called exactly once, with the given time, and 1 is returned and the block marked, exactly when the
block is unprocessed and every required signal is assigned; otherwise nothing happens and 0 is returned. Readiness itself is decided the same way. Every library block other than
the bus-block builders is unprocessed after the start of a pass and after construction, and no other function changes the processed flag."""
ASSUME = ['up to 3 linked signals in the case analysis (each entry is treated alike by the loops)']
LS = mk('ld', H(this, '@linked_signals'))
PR = H(this, '@processed')
ROLES = (1, 2, 9, 10, 8)


def worlds(processed):
    for n in range(4):
        roles = ROLES if n < 2 else (2, 9, 10) if n == 2 else (2, 9)
        for combo in itertools.product(list(itertools.product(roles, (True, False))), repeat=n):
            for p in processed:
                yield n, combo, p


def world(n, combo, p):
    ents = [at(LS, num(i)) for i in range(n)]

    def atom(t):
        if t.op == 'asg':
            for (r, a), e in zip(combo, ents):
                if t.args[0] is now(fld(e, 'first')):
                    return a
        if t.op == 'fld' or t.op == 'at':
            for (r, a), e in zip(combo, ents):
                if t is now(fld(e, 'second')):
                    return Fr(r)
        if t is mk('ld', PR):
            return p
        return None
    return World(atom, {LS: n})


def check(ctx):
    for P in (ctx.R, ctx.D):
        done = set()
        seen = 0
        for cls in sorted(P.recs):
            if not (cls.startswith('pooya::') and P.derives(cls, 'pooya::Leaf')):
                continue
            m = ctx.need(cls, 'process', P, np=2)
            seen += 1
            if m['id'] in done:
                continue
            done.add(m['id'])
            ctx.each('%s::process (%s)' % (m['cls'], P.config), ctx.where(m), process, ctx, P, m)
        if seen < 20:
            raise Broken('only %d leaf classes' % seen)
        f = ctx.need('pooya::Leaf', 'ready_to_process', P, np=0)
        ctx.each('readiness (%s)' % P.config, ctx.where(f), ready, ctx, P, f)
    P = ctx.R
    done = set()
    for cls in sorted(P.recs):
        if cls.startswith('pooya::') and P.derives(cls, 'pooya::Block') and P.template(cls) not in ('pooya::BusBlockBuilder',) and not any(P.template(a) == 'pooya::BusBlockBuilder' for a in P.ancestors(cls)):
            m = ctx.need(cls, '_mark_unprocessed', P, np=0)
            if m['id'] not in done:
                done.add(m['id'])
                ctx.each('%s starts a pass unprocessed' % cls, ctx.where(m), fresh, ctx, P, m, cls)
    for c in ctx.ctors('pooya::Block'):
        ctx.each('a new block is unprocessed', ctx.where(c), newblock, ctx, P, c)
    only(ctx, P)


def fields_changed(o, allow=()):
    out = []
    for r, v in o.cells.items():
        if r.op in ('H', 'G') and v is not mk('ld', r) and r not in allow and not (r.op == 'H' and r.args[0].op == 'new') and now(v) is not now(mk('ld', r)):
            out.append(show(r))
    return out


def process(ctx, P, m):
    w = ctx.where(m) + ' (%s)' % P.config
    cls = m['cls']
    I = Interp(P, cls, events_on_this={'activation_function'})
    outs = I.run(m['id'])
    ctx.note(I, outs)
    t = sym(m['params'][0]['n'] or 'arg0')
    bad = unclear = total = 0
    for n, combo, p in worlds((True, False)):
        total += 1
        W = world(n, combo, p)
        what = '%d linked signals %s, processed=%s' % (n, ['role %d %sassigned' % (r, '' if a else 'not ') for r, a in combo], p)
        run = not p and all(a for r, a in combo if r & 8)
        for o in W.paths(outs) or [None]:
          if o is None:
            unclear += 1
            continue
          acts = [e for e, l in walk(o.events) if e.kind == 'call' and e.name == 'activation_function']
          v = o.cells.get(PR, mk('ld', PR))
          try:
              v = W.val(now(v))
          except Unknown:
              v = None
          if o.kind == 'return' and isinstance(o.val, T):
              try:
                  ret = W.val(now(o.val))
              except Unknown:
                  ret = None
          else:
              ret = o.kind
          ok = ret == (1 if run else 0) and v == (True if run else p) and len(acts) == (1 if run else 0)
          ok = ok and all(e.args[0] is this and e.args[1] is t for e in acts)
          if ok and any(l for e, l in walk(o.events) if e in acts):
              ok = None
          if v is None or ret is None:
              ok = None if len(acts) == (1 if run else 0) else False
          if ok is None:
              unclear += 1
          elif not ok:
              bad += 1
              if bad == 1:
                  ctx.check('a block runs exactly when it is unprocessed and its required signals are assigned', w, False, '%s: expected run=%s, found %s activations, returns %s, processed=%s\n%s' % (what, run, len(acts), ret, v, showout(o)), [o])
    if unclear:
        ctx.undecided('a block runs exactly when it is unprocessed and its required signals are assigned', w, '%d of %d cases not clear' % (unclear, total))
    for i in range(total - bad - unclear):
        pass
    if not bad and not unclear:
        ctx.hold('a block runs, reports 1 and is marked processed exactly when it is unprocessed and its required signals are assigned (%d cases)' % total, w)
    for o in outs:
        acts = [e for e, l in walk(o.events) if e.kind == 'call' and e.name == 'activation_function']
        ch = fields_changed(o, (PR,))
        ctx.check('processing changes only the processed flag by itself', w, not ch or None, '%s\n%s' % (ch, showout(o)), [o])
        if not acts:
            other = [e for e, l in walk(o.events) if e.kind in ('set', 'clear', 'fset', 'link', 'deriv')]
            ctx.check('a block that does not run touches no signal', w, not other, showout(o), [o])


def ready(ctx, P, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, 'pooya::Leaf', P)
    bad = unclear = total = 0
    for n, combo, p in worlds((False,)):
        total += 1
        W = world(n, combo, p)
        want = all(a for r, a in combo if r & 8)
        for o in W.paths(outs) or [None]:
          try:
            v = W.val(now(o.val)) if o is not None and o.kind == 'return' else None
          except Unknown:
            v = None
          if o is None or v is None:
            unclear += 1
          elif bool(v) != want:
            bad += 1
            if bad == 1:
                ctx.check('ready exactly when every required signal is assigned', w, False, '%s: %s\n%s' % (combo, v, showout(o)), [o])
    if unclear:
        ctx.undecided('ready exactly when every required signal is assigned', w, '%d of %d cases not clear' % (unclear, total))
    if not bad and not unclear:
        ctx.hold('ready exactly when every required signal is assigned (%d cases)' % total, w)
    for o in outs:
        ctx.check('asking for readiness changes nothing', w, not fields_changed(o) and not top(o, ('set', 'clear')), showout(o), [o])


def fresh(ctx, P, m, cls):
    I, outs = ctx.runs(m, cls, P)
    for o in outs:
        v = o.cells.get(PR, mk('ld', PR))
        ctx.check('the start of a pass makes the block unprocessed', ctx.where(m), v is FALSE and o.kind == 'return', showout(o), [o])


def newblock(ctx, P, c):
    st = State()
    I = Interp(P, 'pooya::Block')
    import lib
    lib.base(I, st, 'pooya::Block')
    for o in I.run(c['id'], st0=st):
        ctx.check('a new block is unprocessed', ctx.where(c), o.cells.get(PR) is FALSE, showout(o), [o])


def only(ctx, P):
    """who writes the flag"""
    fld_ = P.rolefield('pooya::Block', '@processed')
    if not fld_:
        raise Broken('processed flag not found')
    callers = {}
    for f in P.fns.values():
        for e in nodes(f.get('body') or {}):
            if e.get('k') == 'call' and isinstance(e.get('c'), dict):
                callers.setdefault(e['c'].get('id'), set()).add(f['id'])
    allowed = ('process', '_mark_unprocessed')
    n = 0
    for f in P.fns.values():
        if 'body' not in f:
            continue
        vals = [v for a, v in assigned_members(f['body']) if a['f'] == fld_ and P.canon(a['rec'], a['f']) == '@processed']
        if not vals:
            continue
        n += 1
        roots, seen, todo = set(), set(), [f['id']]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if P.fns[x]['n'] in allowed:
                continue
            cs = callers.get(x, set())
            if not cs or P.fns[x].get('virt') or P.fns[x].get('isctor'):
                roots.add(x)
            todo += cs
        for r in sorted(roots):
            g = P.fns[r]
            if all(v.get('k') == 'bool' and not v.get('v') for v in vals):
                continue
            ctx.check('only processing and starting a pass mark a block processed', ctx.where(f), False if (g.get('virt') or g.get('isctor')) and P.derives(g.get('cls') or '', 'pooya::Block') else None, 'reached from %s' % g['q'])
        if not roots:
            ctx.hold('only processing and starting a pass change the processed flag', ctx.where(f))
    if not n:
        raise Broken('no function marks a block processed')


def nodes(x):
    st = [x]
    while st:
        e = st.pop()
        if isinstance(e, dict):
            yield e
            st.extend(e.values())
        elif isinstance(e, list):
            st.extend(e)


def assigned_members(b):
    for e in nodes(b):
        if e.get('k') == 'bin' and str(e.get('op', '')).endswith('=') and e.get('op') not in ('==', '!=', '<=', '>='):
            a = e.get('a')
            if isinstance(a, dict) and a.get('k') == 'mem':
                yield a, e.get('b') or {}


def calls(g, fid):
    return any(e.get('k') == 'call' and isinstance(e.get('c'), dict) and e['c'].get('id') == fid for e in nodes(g.get('body') or {}))
