"""C13: every pass supplies inputs and states before any block is evaluated"""
import copy
from c18 import *

RULE = """Every path of process_model of each simulator, in both builds: the calls of the input callback, of the model's input hook, of its pre-step, of the evaluation of blocks (a call, or a loop
containing calls of process or of an activation function) and of its post-step are put in order. That order must be: callback (exactly when there is one), input hook, pre-step (exactly when
asked for), evaluation, post-step (exactly when asked for), each once, on the model of the simulator and with the time of the pass; marking all blocks as unprocessed comes before the
evaluation. Every path of the initialisation that returns asks for exactly one pass, at the initial time and with both phases, after all other evaluations (determining an order), which
must not commit anything, supply inputs and states first, and be followed by clearing all signals. Wherever a run has the states published itself, callback and hook come
first, for the same time. What they supplied is never cleared before it is used."""
ASSUME = ['the pre-step and post-step calls that a run makes itself are covered by C18', 'the hooks reach every block (C09)']


def check(ctx):
    for P in (ctx.R, ctx.D):
        ctx.cls(SB, P)
        R = Roles(P)
        for c in simulators(P):
            f = ctx.need(c, 'process_model', P, np=3)
            ctx.each('order of a pass (%s, %s)' % (c, P.config), ctx.where(f), onepass, ctx, P, R, c, f)
            g = ctx.need(c, 'init', P, np=1)
            ctx.each('initialisation (%s, %s)' % (c, P.config), ctx.where(g), initial, ctx, P, R, c, g)
        f = ctx.need(SB, 'run', P, np=3)
        ctx.each('states published by a run (%s)' % P.config, ctx.where(f), running, ctx, P, R, f)


EVAL = ('process', 'activation_function')
ORDERED = ('inputs', 'input_cb', 'pre_step', 'post_step')


def steps(events, R):
    """the calls a path makes in order: (kind, model or block, time, events)"""
    out = []
    for e in events:
        k = None
        if e.kind == 'fn' and e.args and e.args[0] is R.cb:
            out.append(('inputs', e.args[1], e.args[2], [e]))
        elif e.kind == 'call' and e.name in ('input_cb', 'pre_step', 'post_step'):
            out.append((e.name, e.args[0], e.args[1], [e]))
        elif e.kind == 'call' and e.name == '_mark_unprocessed':
            out.append(('mark', e.args[0], None, [e]))
        elif e.kind == 'call' and e.name in EVAL:
            out.append(('evaluate', None, e.args[1], [e]))
        elif e.kind == 'call' and e.name == 'process_model':
            out.append(('pass', None, e.args[1], [e]))
        elif e.kind == 'loop':
            inner = [y for y, l in walk([e]) if y.kind in ('call', 'fn')]
            ev = [y for y in inner if y.kind == 'call' and y.name in EVAL]
            bad = [y for y in inner if y.kind == 'fn' and y.args and y.args[0] is R.cb or y.kind == 'call' and y.name in ('input_cb', 'pre_step', 'post_step', '_mark_unprocessed', 'process_model')]
            if bad:
                out.append(('loop', None, None, bad))
            if ev:
                out.append(('evaluate', None, None, ev))
            if not ev and not bad and e.x.n is not None:
                ts = transfers(e.x, R)
                for d in ts or ():
                    if d['kind'] == 'clear':
                        out.append(('clear', d, None, [e]))
    return out


def wipes(e, R):
    """does a loop clear signals: True all of them, None some of them perhaps, False none"""
    ts = transfers(e.x, R)
    if ts is not None:
        cl = [d for d in ts if d['kind'] == 'clear']
        return True if any(d['list'] == 'value' and d['full'] and d['straight'] for d in cl) else None if cl else False
    return None if any(y.kind == 'clear' for y, l in walk([e])) else False


def kept(ctx, w, o, events, R, d):
    """what the callback and the hook have supplied is not cleared before blocks are evaluated"""
    given = False
    for e in events:
        if e.kind == 'fn' and e.args and e.args[0] is R.cb or e.kind == 'call' and e.name == 'input_cb':
            given = True
        elif e.kind == 'call' and (e.name in ('pre_step', 'post_step', 'process_model', 'step') or e.name in EVAL):
            given = False
        elif e.kind == 'loop' and given:
            inner = [y for y, l in walk([e]) if y.kind in ('call', 'fn')]
            if any(y.kind == 'fn' and y.args and y.args[0] is R.cb or y.kind == 'call' and y.name in EVAL + ('pre_step', 'input_cb', 'process_model') for y in inner):
                given = False
                continue
            wp = wipes(e, R)
            if wp is not False:
                ctx.check('inputs that were supplied are not cleared before they are used', e.where or w, False if wp else None, d, [o])
                given = False


def merged(ss):
    """consecutive evaluations are one phase"""
    out = []
    for s in ss:
        if s[0] == 'evaluate' and out and out[-1][0] == 'evaluate':
            out[-1] = ('evaluate', None, None, out[-1][3] + s[3])
        else:
            out.append(s)
    return out


def flag(o, p):
    for c in o.conds:
        if c is p:
            return True
        if c.op == 'not' and c.args[0] is p:
            return False
    return None


def times(ctx, w, what, ss, t, model, o, d):
    for k, m, tt, es in ss:
        if k in ORDERED or k == 'evaluate':
            for e in es:
                x = e.args[2] if e.kind == 'fn' else e.args[1]
                ok = x is t or (False if sure(x) else None)
                ctx.check('%s: %s with the time of the pass' % (what, k), w, ok, 'time: %s\n%s' % (show(x), d), [o])
        if k in ORDERED or k == 'mark':
            ctx.check('%s: %s of the model being simulated' % (what, k), w, m is model or (False if m is not None and sure(m) else None), 'of: %s\n%s' % (m is not None and show(m), d), [o])


def onepass(ctx, P, R, c, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs = ctx.runs(f, c, P)
    t, pre, post = (sym(p['n']) for p in f['params'])
    got = 0
    for o in outs:
        if o.kind not in ('return', 'throw'):
            continue
        ss = merged(steps(o.events, R))
        d = '%s\n%s' % ([s[0] for s in ss], showout(o)[:1500])
        kept(ctx, w, o, o.events, R, d)
        if any(s[0] == 'loop' for s in ss):
            raise Maybe('a phase is run in a loop: %s' % d)
        if any(s[0] == 'pass' for s in ss):
            raise Maybe('a pass within a pass: %s' % d)
        null = nullcb(o.conds, R)
        a, b = flag(o, pre), flag(o, post)
        want = (['inputs'] if null is False else []) + ['input_cb'] + (['pre_step'] if a else []) + ['evaluate'] + (['post_step'] if b else [])
        have = [s[0] for s in ss if s[0] in ORDERED or s[0] == 'evaluate']
        ks = [s[0] for s in ss]
        marked = [i for i, k in enumerate(ks) if k == 'mark']
        if o.kind == 'throw':
            # whatever happened before is a beginning of the order
            if null is None and 'inputs' not in have:
                pass
            wt = (['inputs'] if null is False else []) + ['input_cb'] + ['pre_step'] * (a is not False) + ['evaluate', 'post_step']
            ctx.check('phases before an error are in order', w, [x for x in have if x in wt] == have and sorted(have, key=wt.index) == have and len(set(have)) == len(have), d, [o])
        else:
            got += 1
            if null is None:
                raise Maybe('whether there is a callback does not matter: %s' % d)
            if a is None or b is None:
                ctx.check('the phases asked for are run', w, None if (a is None and 'pre_step' in have) or (b is None and 'post_step' in have) else False, 'pre-step asked for: %s, post-step: %s\n%s' % (a, b, d), [o])
                continue
            ctx.check('inputs, input hook, pre-step if asked for, evaluation, post-step if asked for: each once and in this order', w, have == want, 'want %s\n%s' % (want, d), [o])
        if 'evaluate' in ks and marked:
            ctx.check('blocks are marked as unprocessed before the evaluation', w, max(marked) < ks.index('evaluate'), d, [o])
        times(ctx, w, 'pass', ss, t, R.model, o, d)
    if not got:
        raise Maybe('no path returns')


def running(ctx, P, R, f):
    """where a run has the states published itself, the inputs are supplied before, for the same time"""
    w = ctx.where(f) + ' (%s)' % P.config
    I, outs, cbs = mainrun(ctx, P, f)
    n = 0

    def path(o, conds, moving):
        nonlocal n
        null = nullcb(conds, R)
        if any(notb(c) in conds for c in conds):
            return      # another way through the loop than the one this path left it by
        seen = []
        kept(ctx, w, o, o.events, R, showout(o)[:2500])
        for e in o.events:
            if e.kind == 'loop':
                inner = [y for y, l in walk([e])]
                if any(y.kind == 'call' and y.name in ('pre_step', 'input_cb') for y in inner):
                    for x in e.x.outs:
                        path(x, conds + list(x.conds), True)
                    seen = []
                continue
            if e.kind == 'call' and e.name in ('step', 'process_model', 'post_step'):
                seen = []
            elif e.kind == 'fn' and e.args and e.args[0] is R.cb:
                seen.append(('inputs', e.args[1], e.args[2]))
            elif e.kind == 'call' and e.name == 'input_cb':
                seen.append(('input_cb', e.args[0], e.args[1]))
            elif e.kind == 'call' and e.name == 'pre_step':
                n += 1
                d = '%s then pre-step of %s at %s\n%s' % ([(a, show(b), show(c)) for a, b, c in seen], show(e.args[0]), show(e.args[1]), [show(c) for c in conds][:30])
                have = [a for a, b, c in seen]
                want = (['inputs'] if null is False else []) + ['input_cb']
                ctx.check('a run: inputs, then the input hook, before it has the states published', w, True if have == want else None if null is None else False, d, [o])
                for a, b, c in seen:
                    ok = c is e.args[1] or linear.entails([x for x in conds if x.op == 'cmp'], eqn(c, e.args[1]))
                    # one changes from sub-step to sub-step, the other does not
                    ctx.check('a run: %s for the time at which the states are published' % a, w, True if ok else False if sure(c) or sure(e.args[1]) else None, d, [o])
                    ctx.check('a run: %s of the model being simulated' % a, w, b is R.model or (False if sure(b) else None), d, [o])
                seen = []
    for o in outs:
        if o.kind in ('return', 'throw'):
            path(o, list(o.conds), False)
    ctx.check('a run has the states published', w, True if n else None)


def current(R, o):
    """the signal lists as the initialisation leaves them"""
    r = copy.copy(R)
    r.VL, r.SL, r.AL = (cell(o, x.args[0]) or x for x in (R.VL, R.SL, R.AL))
    return r


def initial(ctx, P, R0, c, f):
    w = ctx.where(f) + ' (%s)' % P.config
    I = Interp(P, c, events_on_this={'process_model'})
    outs = I.run(f['id'])
    ctx.note(I, outs)
    t = sym(f['params'][0]['n'])
    got = 0
    for o in outs:
        R = current(R0, o)
        ss = merged(steps(o.events, R))
        d = '%s\n%s' % ([s[0] for s in ss], showout(o)[:1500])
        ps = [i for i, s in enumerate(ss) if s[0] == 'pass']
        lead = [s for s in (ss[:ps[0]] if ps else ss)]
        have = [s[0] for s in lead if s[0] in ORDERED or s[0] == 'evaluate']
        null = nullcb(o.conds, R)
        kept(ctx, w, o, o.events, R, d)
        if any(s[0] == 'loop' for s in ss):
            raise Maybe('a phase is run in a loop: %s' % d)
        if have:
            want = (['inputs'] if null is False else []) + ['input_cb', 'pre_step']
            rest = have[len(want):]
            ok = have[:len(want)] == want[:len(have)] and set(rest) <= {'evaluate'}
            ctx.check('an evaluation that determines an order is supplied with inputs and states first and commits nothing', w, ok, d, [o])
            times(ctx, w, 'initialisation', lead, t, R.model, o, d)
        if o.kind != 'return':
            continue
        got += 1
        if not ctx.check('initialisation asks for exactly one pass', w, len(ps) == 1, d, [o]):
            continue
        if have:
            last = max(i for i, s in enumerate(lead) if s[0] in ORDERED or s[0] == 'evaluate')
            cl = [s for s in lead[last + 1:] if s[0] == 'clear' and s[1]['list'] == 'value' and s[1]['full'] and s[1]['straight']]
            ctx.check('all signals are cleared before the pass', w, bool(cl), d, [o])
        e = ss[ps[0]][3][0]
        ok = e.args[0] is this and e.args[1] is t and e.args[2] is TRUE and e.args[3] is TRUE
        ctx.check('that pass is at the initial time and has both phases', w, ok or (False if sure(*e.args[1:4]) else None), d, [o])
        ctx.check('nothing is evaluated or committed after that pass', w, not any(s[0] in ORDERED or s[0] == 'evaluate' for s in ss[ps[0] + 1:]), d, [o])
    if not got:
        raise Maybe('no path returns')
