#!/usr/bin/env python3
"""Run checks on edited scratch copies of the sources:  mut.py LIST.py [filter]
LIST.py defines M = [(name, property|'*', 'bad'|'ok', [(file, old, new), ...]), ...]; 'bad' must be reported by that property, 'ok' by none."""
import os, shutil, subprocess, sys, tempfile, importlib.util, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = sorted(f[:-3].upper() for f in os.listdir(V + '/checks') if f[0] == 'c' and f[1:3].isdigit())
if os.environ.get('EVERY'):
    ALL.remove('C30')       # takes minutes for each tree


def job(m):
    name, prop, kind, edits = m
    if os.environ.get('EVERY'):
        prop = '*'      # every check has to stay quiet on what keeps the behaviour
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        shutil.copytree('/repo/src', d + '/src'); os.symlink('/repo/3rdparty', d + '/3rdparty')
        for f, old, new in edits:
            p = d + '/src/' + f
            s = open(p).read()
            if old not in s:
                return name, 'PATTERN NOT FOUND in %s: %r' % (f, old[:60])
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        env = dict(os.environ, POOYA_REPO=d, VERIF_EVIDENCE=d)
        res, msg = [], ''
        for c in (prop.split(',') if prop != '*' else ALL):
            r = subprocess.run([sys.executable, V + '/checks/run.py', c], env=env, capture_output=True, text=True)
            if prop == '*' or kind == 'ok':
                if r.returncode or 'VIOLATION' in r.stdout:
                    msg += '%s rc=%d %s%s ' % (c, r.returncode, r.stdout[:1500], r.stderr[-600:])
                elif 'undecided:' in r.stdout:
                    res.append('%s undecided (%s)' % (c, r.stdout[:400]))
            else:
                if r.returncode == 1 and 'VIOLATION property=%s ' % c in r.stdout:
                    return name, 'caught: ' + r.stdout.split('\n')[0][:150]
                msg += 'MISSED rc=%d %s%s' % (r.returncode, r.stdout[:700], r.stderr[-800:])
        return name, ('ALARM ' if prop == '*' or kind == 'ok' else '') + msg if msg else 'quiet ' + '; '.join(res)
    finally:
        shutil.rmtree(d)


def main():
    sp = importlib.util.spec_from_file_location('m', sys.argv[1])
    mod = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    ms = [m for m in mod.M if len(sys.argv) < 3 or any(a in m[0] or a == m[1] for a in sys.argv[2:])]
    if os.environ.get('EVERY'):
        ms = [m for m in ms if m[2] == 'ok']
    n = bad = 0
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS","6"))) as ex:
        for (name, r), m in zip(ex.map(job, ms), ms):
            n += 1
            good = r.startswith('caught') if m[2] == 'bad' else r.startswith('quiet')
            bad += not good
            print('%s %-28s %s' % ('  ' if good else '**', name, r))
    print('%d edits, %d not as expected' % (n, bad))


main()
