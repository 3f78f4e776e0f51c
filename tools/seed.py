#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from the list in seeds_src/*.py and confirm each in a scratch copy:  seed.py [id...]
A seed: dict(id, property, edits=[(file, old, new)], demo=C++ source (or sh=shell text), needs, breaks)."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in /repo after the build: exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 %s-DEIGEN_MPL_ONLY -DEIGEN_NO_DEBUG -iquote . -isystem /usr/include/eigen3 "$D/demo.cpp" $(find src -name '*.cpp') -o "$T/demo" || exit 2
cd "$T" && timeout 60 "$T/demo" >"$T/out" 2>&1
rc=$?
tail -5 "$T/out"
exit $rc
'''


def seeds():
    out = []
    for f in sorted(glob.glob(V + '/seeds_src/*.py')):
        sp = importlib.util.spec_from_file_location('s', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        out += m.S
    return out


def job(s):
    d = tempfile.mkdtemp(prefix='seed.')
    log = ''
    try:
        subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
        R = d + '/repo'
        base = subprocess.run(['git', '-C', R, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
        for f, old, new in s['edits']:
            p = R + '/src/' + f
            t = open(p).read()
            if old not in t:
                return s['id'], 'PATTERN NOT FOUND in %s: %r' % (f, old[:60])
            open(p, 'w').write(t.replace(old, new, 1))
        diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
        # removed lines must be lines of the original repository
        o = V + '/seeded/' + s['id']
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(o + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
        if 'demo' in s:
            open(o + '/demo.cpp', 'w').write(s['demo'])
        open(o + '/demo.sh', 'w').write(s.get('sh') or SH % ('-DNDEBUG ' if s.get('release') else ''))
        os.chmod(o + '/demo.sh', 0o755)
        # with the change: builds, tests pass, demo fails.  The build scripts name /repo: compile and run the tests by hand here
        env = dict(os.environ)
        libs = subprocess.run("find src -name '*.cpp'", shell=True, cwd=R, capture_output=True, text=True).stdout.split()
        tests = subprocess.run("ls tests/*.cpp", shell=True, cwd=R, capture_output=True, text=True).stdout.split()
        flags = '-std=c++17 -DEIGEN_MPL_ONLY -DEIGEN_NO_DEBUG -iquote . -isystem /usr/include/eigen3'.split()
        r = subprocess.run(['g++'] + flags + libs + tests + ['-lgtest', '-lgtest_main', '-lpthread', '-o', d + '/t'], cwd=R, capture_output=True, text=True)
        if r.returncode:
            return s['id'], 'TESTS DO NOT BUILD ' + r.stderr[-1500:]
        r = subprocess.run([d + '/t'], cwd=R, capture_output=True, text=True)
        if r.returncode:
            return s['id'], 'TESTS FAIL ' + r.stdout[-1500:]
        r1 = subprocess.run(['bash', o + '/demo.sh'], cwd=R, capture_output=True, text=True)
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
        r0 = subprocess.run(['bash', o + '/demo.sh'], cwd=R, capture_output=True, text=True)
        if r0.returncode or not r1.returncode:
            return s['id'], 'DEMO unchanged rc=%d, changed rc=%d\n%s\n%s' % (r0.returncode, r1.returncode, r0.stdout + r0.stderr[-2500:], r1.stdout + r1.stderr[-500:])
        # does the check catch it
        subprocess.run(['git', '-C', R, 'apply', o + '/patch.diff'], check=True)
        c = V + '/checks/%s.py' % s['property'].lower()
        if os.path.exists(c):
            r = subprocess.run([sys.executable, V + '/checks/run.py', s['property']], env=dict(os.environ, POOYA_REPO=R, VERIF_EVIDENCE=d), capture_output=True, text=True)
            caught = r.returncode == 1 and 'VIOLATION property=%s ' % s['property'] in r.stdout
            log += 'caught: ' + r.stdout.split('\n')[0][:160] if caught else '** MISSED rc=%d %s %s' % (r.returncode, r.stdout[:700], r.stderr[-500:])
        else:
            log += 'no check yet'
        return s['id'], 'ok (demo rc=%d: %s) %s' % (r1.returncode, r1.stdout.strip()[-80:], log)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ss = [s for s in seeds() if len(sys.argv) < 2 or any(a in s['id'] for a in sys.argv[1:])]
    with cf.ThreadPoolExecutor(5) as ex:
        for n, r in ex.map(job, ss):
            print('%-26s %s' % (n, r), flush=True)


main()
