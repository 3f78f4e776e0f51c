"""python3 checks/run.py <property> [quick|thorough]   -  decide one property from the current source of /repo"""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(HERE)


def findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split('|') if '=' in x)
                out.append({k.strip(): v.strip() for k, v in d.items()})
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    import lib
    from engine import frontend
    mod = importlib.import_module(prop.lower())
    ctx = lib.Ctx(prop, tier)
    try:
        mod.check(ctx)
    except frontend.AnalysisBroken as x:
        print('cannot analyse: %s' % x)
        sys.exit(3)
    ev = os.path.join(os.environ.get('VERIF_EVIDENCE') or VERIF, 'evidence')
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    known, new = [], []
    fs = [f for f in findings() if f.get('property') == prop]
    for v in ctx.viol:
        k = [f for f in fs if f.get('where') and f['where'] in v['where'] and f.get('what', '') in v['what']]
        (known if k else new).append(v)
    obl = len(ctx.obl)
    cov = dict(explanation=mod.RULE.strip(), obligations=obl, discharged=obl - len(ctx.viol) - len(ctx.und),
               undecided=ctx.und[:40], functions_analysed=len(ctx.functions), paths=ctx.npaths, call_sites=ctx.ncalls,
               functions=sorted(lib.IN.short(f) for f in ctx.functions)[:200],
               samples=[dict(obligation=w, where=x) for w, x in ctx.obl[:25]])
    cov.update(getattr(ctx, 'extra', {}))
    rec = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
               coverage=cov, assumptions=getattr(mod, 'ASSUME', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(rec, f, indent=1)
    for l in dict.fromkeys('KNOWN-FINDING: property=%s %s at %s' % (prop, v['what'], v['where']) for v in known):
        print(l)
    for u in ctx.und:
        print('undecided: %s at %s: %s' % (u['what'], u['where'], u['why'][:300]))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d paths, %.1f s' % (
        prop, obl, cov['discharged'], len(ctx.und), len(new), len(ctx.functions), ctx.npaths, time.time() - t0))
    if new:
        for i, v in enumerate(new):
            p = os.path.join(ev, 'replay', '%s-%d.txt' % (prop, i))
            with open(p, 'w') as f:
                f.write('property %s\nrule: %s\nconstruct: %s\n\n%s\n' % (prop, v['what'], v['where'], v['detail']))
            if i < 10:
                print('violated: %s\n   at %s\n   %s' % (v['what'], v['where'], v['detail'][:600].replace('\n', '\n   ')))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.join(ev, 'replay', '%s-0.txt' % prop)))
        sys.exit(1)


if __name__ == '__main__':
    main()
