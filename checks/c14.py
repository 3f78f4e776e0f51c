"""C14: every evaluation starts from cleared signals"""
from simrun import *

RULE = """The lists of signals the simulator keeps are extracted from its initialisation as comprehensions over the visited blocks and their linked signals, and compared with
the specified sets on every model of a fixed family (up to 4 blocks, every kind of signal, every kind of link, shared and repeated signals): each value signal exactly once, each scalar or array state exactly
once, independent of what the lists held before. Then, on every path of every simulator function, a traversal that clears the complete list must lie between two evaluations or publications of
the states (one full clearing loop before each pre-step that follows an evaluation, and before each evaluation)."""
ASSUME = ['a visit presents every block of the model (C09)', 'blocks list their linked value signals (C06)', 'signals clear as specified (C01)']


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(SB, P)
        R = Roles(P)
        f = ctx.need(SB, 'init', P, np=1)
        ctx.each('the lists of signals (%s)' % P.config, ctx.where(f), lists, ctx, P, R, f)
        ctx.each('clearing after initialisation (%s)' % P.config, ctx.where(f), initclear, ctx, P, R, f)
        g = ctx.need(SB, 'run', P, np=3)
        ctx.each('clearing during a run (%s)' % P.config, ctx.where(g), running, ctx, P, R, g)
        for c in simulators(P):
            g = ctx.need(c, 'init', P, np=1)
            if g['cls'] != SB:
                ctx.each('%s::init (%s)' % (c, P.config), ctx.where(g), derivedinit, ctx, P, R, g, c)
            h = ctx.need(c, 'run', P, np=3)
            if h['cls'] != SB:
                ctx.each('%s::run (%s)' % (c, P.config), ctx.where(h), running, ctx, P, R, h)


def names(W, v):
    s = W.seq(W.norm(now(v)))
    if s is None:
        return None
    by = {x.t: x.name for x in SIGS.values()}
    r = [by.get(x) for x in s]
    return None if None in r else r


def lists(ctx, P, R, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, SB, P)
    for o in outs:
        if o.kind != 'return':
            ctx.check('initialisation completes', w, False if P.config == 'release' else None, showout(o)[:1500], [o])
            continue
        for root, what, want in ((R.VLr, 'value signals', lambda s: True), (R.SLr, 'scalar states', lambda s: s.kind == 'scalar' and s.state), (R.ALr, 'array states', lambda s: s.kind == 'array' and s.state)):
            v = o.cells.get(root)
            if v is None:
                ctx.check('initialisation collects the %s' % what, w, False, showout(o)[:2000], [o])
                continue
            old = any(s.op == 'ld' and s.args[0] in (R.VLr, R.SLr, R.ALr) for s in subterms(v))
            ctx.check('the list of %s does not depend on an earlier initialisation' % what, w, not old, show(v)[:1500], [o])
            if old:
                continue
            bad = None
            for mdl, shift in ((m, j) for m in MODELS for j in range(len(LINKS))):
                W = network(R, mdl, P, shift=shift)
                try:
                    if not all(x is not False for x in conds(W, o)):
                        continue        # another path handles this model
                    got = names(W, v)
                except Unknown as x:
                    lim = [y for y in subterms(v) if y.op == 'visited' and len(y.args) > 2 and is_num(y.args[2])]
                    bad = (False if lim else None, 'model %s: %s%s' % (mdl, x, '; blocks deeper than %s are not visited' % show(lim[0].args[2]) if lim else ''))
                    break
                exp = sorted({c for b in mdl for c in b if want(SIGS[c])})
                if got is None or sorted(got) != exp:
                    bad = (None if got is None or not sure(v) else False, 'model %s (signals linked to each block): got %s, expected %s\n%s' % (mdl, got, exp, show(v)[:1500]))
                    break
            ctx.check('the list of %s holds each of them exactly once (%d models)' % (what, len(MODELS) * len(LINKS)), w, True if bad is None else bad[0], bad and bad[1], [o])
    lv = [e for o in outs for e in top(o, ('loop',)) if e.x.visited]
    for e in lv:
        lvl = [a for a in e.x.visited[1]]
        ctx.hold('visits the model', e.where or w)


def initclear(ctx, P, R, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, SB, P)
    for o in outs:
        if o.kind != 'return':
            continue
        ok = any(clears(e, R, o.cells.get(R.VLr)) for e in top(o, ('loop',)))
        if not ok and any(e.kind == 'clear' for e, l in walk(o.events)):
            ok = None
        ctx.check('initialisation clears every value signal', w, ok, showout(o)[:1500], [o])


def clears(e, R, lst):
    """does a loop clear every entry of the list of value signals"""
    lp = e.x
    its = [o for o in lp.outs if o.kind != 'exhaust']
    if len(its) != 1 or its[0].kind != 'ok' or lp.n is None:
        return False
    cs = [x for x in its[0].events if x.kind not in ('get',)]
    if len(cs) != 1 or cs[0].kind != 'clear':
        return False
    x = now(cs[0].args[0])
    lst = now(lst if lst is not None else R.VL)
    n = now(lp.n)
    return n is size(lst) and x is now(at(lst, mk('k', lp.uid))) and not its[0].conds


def guarded(e, R, lst):
    """a loop over all value signals that clears some and leaves others alone: True when those it leaves are unassigned, False when it leaves assigned ones"""
    lp = e.x
    lst = now(lst if lst is not None else R.VL)
    its = [o for o in lp.outs if o.kind != 'exhaust']
    if lp.n is None or now(lp.n) is not size(lst) or not its or any(o.kind != 'ok' for o in its):
        return None
    x = now(at(lst, mk('k', lp.uid)))
    left = []
    for o in its:
        ev = [y for y in o.events if y.kind not in ('get',)]
        if not ev:
            left.append(o)
        elif len(ev) != 1 or ev[0].kind != 'clear' or now(ev[0].args[0]) is not x:
            return None
    if len(left) == len(its):
        return None
    ass = now(mk('ld', H(x, '@assigned')))
    r = True
    for o in left:
        cs = [now(c) for c in o.conds]
        if notb(ass) in cs:
            continue
        if cs == [ass]:
            return False
        r = None
    return r


def seq_clear(ctx, w, o, toks, state, R, lst=None):
    """walk the tokens of a path; state: 'clean' (cleared, nothing evaluated since), 'pub' (states published after clearing), 'dirty', 'unknown'"""
    for t in toks:
        k = t[0]
        if k == 'clear' and t[2]['list'] == 'value' and t[2]['straight'] and t[2]['full']:
            state = 'clean'
        elif k == 'loop' and lst is not None and clears(t[1], R, lst):
            state = 'clean'
        elif k == 'loop' and guarded(t[1], R, lst) is not None:
            state = 'clean' if guarded(t[1], R, lst) else state
        elif k == 'clear':
            if state != 'clean':
                state = 'unknown'
        elif k == 'loop':
            inner = [e for e, l in walk([t[1]]) if e.kind == 'call' and e.name in PASS]
            if any(e.kind == 'clear' for e, l in walk([t[1]])) and not inner:
                if state != 'clean':
                    state = 'unknown'
                continue
            if not inner:
                continue
            for x in t[1].x.outs:
                st = seq_clear(ctx, w, x, tokens(x.events, R), 'dirty' if not oneshot(t[1].x) else state, R, lst)
            state = 'dirty'
        elif k == 'pre_step':
            verdict(ctx, w, o, 'signals are cleared before the states are published', state in ('clean',), state, t[1])
            state = 'pub'
        elif k in ('process_model',):
            verdict(ctx, w, o, 'signals are cleared before the model is evaluated', state == 'clean', state, t[1])
            state = 'dirty'
        elif k == '_mark_unprocessed':
            if state not in ('clean', 'pub'):
                state = state
        elif k in ('process', 'activation_function'):
            verdict(ctx, w, o, 'signals are cleared before blocks are evaluated', state in ('clean', 'pub'), state, t[1])
        elif k in ('step',):
            state = 'dirty'
        elif k in ('post_step',):
            state = 'dirty'
    return state


def oneshot(lp):
    return False


def verdict(ctx, w, o, what, ok, state, e):
    ctx.check(what, e.where or w, True if ok else None if state == 'unknown' else False, 'signals are %s here\n%s' % (state, showout(o)[:2500]), [o])


def running(ctx, P, R, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs, cbs = mainrun(ctx, P, f)
    n = 0
    for o in outs:
        if o.kind == 'throw':
            continue
        ts = tokens(o.events, R)
        seq_clear(ctx, w, o, ts, 'dirty', R, o.cells.get(R.VLr) if R.VLr in o.cells else None)
        n += sum(1 for t in ts if t[0] in ('process_model', 'loop'))
    if not n:
        raise Maybe('a run evaluates nothing')
    for o in cbs:
        ts = tokens(o.events, R)
        if not any(t[0] == 'process_model' for t in ts):
            ctx.check('a trial evaluation evaluates the model', w, False if not any(t[0] == 'loop' for t in ts) else None, showout(o)[:1500], [o])
        seq_clear(ctx, w, o, ts, 'dirty', R)
    if not cbs:
        ctx.undecided('trial evaluations', w, 'no derivative function found')


def derivedinit(ctx, P, R, f, cls):
    w = ctx.where(f) + ' (%s)' % P.config
    I = Interp(P, cls, events_on_this={'process_model'}, noinline={SB + '::init'})
    outs = I.run(f['id'])
    ctx.note(I, outs)
    for o in outs:
        if o.kind == 'throw':
            continue
        base_ = [i for i, e in enumerate(o.events) if e.kind == 'call' and e.name == 'init']
        ctx.check('initialisation of the simulator includes that of the base', w, True if base_ else None, showout(o)[:1500], [o])
        if not base_:
            continue
        before = [e for e, l in walk(o.events[:base_[0]]) if e.kind == 'call' and e.name in PASS]
        ctx.check('nothing is evaluated before the signals are known', w, not before, showout(o)[:1500], [o])
        ts = tokens(o.events[base_[0] + 1:], R)
        initseq(ctx, w, o, ts, R)


def initseq(ctx, w, o, ts, R):
    """the base initialisation leaves the signals cleared; an ordering pass counts as one evaluation"""
    state = 'clean'
    for t in ts:
        k = t[0]
        if k == 'clear' and t[2]['list'] == 'value' and t[2]['straight'] and t[2]['full']:
            state = 'clean'
        elif k == 'loop':
            inner = [e for e, l in walk([t[1]]) if e.kind == 'call' and e.name in ('process', 'activation_function')]
            if inner:
                verdict(ctx, w, o, 'signals are cleared before blocks are evaluated', state in ('clean', 'pub', 'busy'), state, t[1])
                state = 'busy'
            elif any(e.kind == 'clear' for e, l in walk([t[1]])):
                state = 'unknown'
        elif k == 'pre_step':
            verdict(ctx, w, o, 'signals are cleared before the states are published', state == 'clean', state, t[1])
            state = 'pub'
        elif k == 'process_model':
            verdict(ctx, w, o, 'signals are cleared before the model is evaluated', state == 'clean', state, t[1])
            state = 'dirty'
        elif k in ('process', 'activation_function'):
            state = 'busy'
        elif k in ('step', 'post_step'):
            state = 'dirty'
