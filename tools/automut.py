#!/usr/bin/env python3
"""Small mechanical edits of single lines of /repo/src; which checks notice each:  automut.py N SEED OUT [file part...]
Edits no check reports are compiled with the tests and listed for reading when the tests pass."""
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['C%02d' % i for i in range(1, 30)]     # C30 takes too long here
SWAP = [(r'(?<![<>=!+\-*/&|])<(?![<=>])(?= )', '<='), (r'(?<= )>(?= )', '>='), (r'<=(?!>)', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'), (r'(?<= )\*(?= )', '/'), (r'(?<= )/(?= )', '*'), (r'\+=', '-='), (r'\+=', '='), (r'\*=', '/='), (r'-=', '+='),
        (r'!(?=[\w(_])', ''), (r'\bnot ', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'\b0\.0\b', '1.0'), (r'\b1\.0\b', '0.0'),
        (r'\bbegin\(\)', 'end()'), (r'\brbegin\(\)', 'begin()'), (r'\bfront\(\)', 'back()'), (r'\bback\(\)', 'front()'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'\bmin\(', 'max('),
        (r'\bmax\(', 'min('), (r'\|(?!\|)(?= )', '&'), (r'(?<= )&(?= )', '|'), (r'\bif \((?!constexpr)(.*)\)$', 'if (true)'), (r'\bif \((?!constexpr)(.*)\)$', 'if (false)'), (r'\bInput\b', 'Output'), (r'\bOutput\b', 'Input'),
        (r'\bibus\b', 'obus'), (r'\bobus\b', 'ibus'), (r'\bt1\b', 't2'), (r'\bt2\b', 't1'), (r'\bt\b(?=[,)])', '0'), (r'\bBlock::', 'Leaf::'), (r'\blevel \+ 1', 'level'), (r'& ', ' '), (r'const auto& ', 'auto '),
        (r'\breturn;', ';'), (r'\breturn (?!true|false)(\w+);', 'return {};'), (r'\bthis\b', 'nullptr'), (r'\bnullptr\b', 'this'), (r'_ibus', '_obus'), (r'_obus', '_ibus'), (r'\bsecond\b', 'first'), (r'\bfirst\b', 'second'),
        (r'\bpre_step\b', 'post_step'), (r'\bpost_step\b', 'pre_step'), (r'\bx1\b', 'x0'), (r'\bx0\b', 'x1'), (r'"\w+"', '"zz"'), (r'\bdouble\b', 'int'), (r'\bemplace_back\b', 'clear'), (r'\.find\(', '.count(')]


def mutants():
    out = []
    for p in sorted(glob.glob('/repo/src/**/*.?pp', recursive=True)):
        f = p[len('/repo/src/'):]
        L = open(p).read().split('\n')
        for i, l in enumerate(L):
            s = l.strip()
            if i < 22 or not s or s.startswith(('//', '#', '/*', '*', 'using', 'namespace', 'template', 'pooya_trace', 'class ', 'struct ')) or 'pooya_trace' in s:
                continue
            c = l.split('//')[0]
            for a, b in SWAP:
                for m in re.finditer(a, c):
                    n = c[:m.start()] + b + c[m.end():]
                    if n != c:
                        out.append((f, i, l, n))
            if re.match(r'\s+[\w:.>_\[\]*()-]+(\(|\s*[-+*/|]?=|\+\+|--).*;$', c) or re.match(r'\s+(\+\+|--|return\b).*;', c) or s in ('break;', 'continue;'):
                out.append((f, i, l, re.match(r'\s*', c).group() + ';'))
    return list(dict.fromkeys(out))


def job(m):
    f, i, old, new = m
    d = tempfile.mkdtemp(prefix='am.')
    try:
        shutil.copytree('/repo/src', d + '/src')
        os.symlink('/repo/3rdparty', d + '/3rdparty')
        p = d + '/src/' + f
        L = open(p).read().split('\n')
        assert L[i] == old
        L[i] = new
        open(p, 'w').write('\n'.join(L))
        env = dict(os.environ, POOYA_REPO=d, VERIF_EVIDENCE=d)
        und, alarms, hit = [], [], []
        first = next((x for k, x in PRI if f.startswith(k)), [])
        for c in first + [c for c in ORDER(f) if c not in first]:
            if hit and c not in first:
                break
            try:
                r = subprocess.run([sys.executable, V + '/checks/run.py', c], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                alarms.append(c + ' timeout')
                continue
            if r.returncode == 3:
                return m, 'broken', r.stdout[-200:], und
            if r.returncode == 1 and 'VIOLATION property=%s ' % c in r.stdout:
                hit.append(c)
            elif r.returncode:
                alarms.append('%s rc=%d %s' % (c, r.returncode, r.stderr[-300:]))
            elif 'undecided:' in r.stdout:
                und.append((c, [x[:250] for x in r.stdout.split('\n') if x.startswith('undecided')][:2]))
        if hit:
            return m, 'caught', ' '.join(hit + alarms), und
        shutil.copytree('/repo/tests', d + '/tests')
        libs = subprocess.run("find src -name '*.cpp'", shell=True, cwd=d, capture_output=True, text=True).stdout.split()
        tests = [x for x in sorted(glob.glob(d + '/tests/*.cpp'))]
        flags = '-std=c++17 -DEIGEN_MPL_ONLY -DEIGEN_NO_DEBUG -iquote . -isystem /usr/include/eigen3'.split()
        r = subprocess.run(['g++'] + flags + libs + tests + ['-lgtest', '-lgtest_main', '-lpthread', '-o', d + '/t'], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return m, 'nobuild', '', und
        try:
            r = subprocess.run([d + '/t'], cwd=d, capture_output=True, text=True, timeout=60)
            if r.returncode:
                return m, 'tests fail', ' '.join(alarms), und
        except subprocess.TimeoutExpired:
            return m, 'tests fail', ' '.join(alarms), und
        return m, 'SURVIVES', ' '.join(alarms), und
    finally:
        shutil.rmtree(d)


PRI = [('solver/simulator.', ['C11', 'C13', 'C14', 'C17', 'C18']), ('solver/fast', ['C12', 'C13', 'C14']), ('solver/simulator_base', ['C13', 'C14', 'C15', 'C17', 'C18']), ('solver/history', ['C26', 'C27']), ('misc/', ['C27']),
       ('solver/', ['C16', 'C17']), ('signal/bus', ['C05', 'C02']), ('signal/', ['C01', 'C02', 'C03', 'C22', 'C04']), ('shared', ['C02', 'C04']), ('helper/', ['C04', 'C29']), ('block/extra/bus', ['C25']),
       ('block/extra/delay', ['C24', 'C07', 'C19', 'C20']), ('block/extra/memory', ['C24', 'C21', 'C07', 'C19', 'C20']), ('block/extra/derivative', ['C24', 'C07', 'C19', 'C20']), ('block/extra/initial', ['C24', 'C07', 'C19', 'C20']),
       ('block/extra/trig', ['C21', 'C07', 'C19', 'C20']), ('block/extra', ['C23', 'C07', 'C20', 'C19']), ('block/integrator', ['C21', 'C07', 'C19', 'C20', 'C22']), ('block/submodel', ['C09', 'C10', 'C11']), ('block/leaf', ['C08', 'C11', 'C20']),
       ('block/block', ['C06', 'C10', 'C09', 'C04']), ('block/', ['C06', 'C07', 'C20', 'C23'])]


def ORDER(f):
    a = next((x for k, x in PRI if f.startswith(k)), [])
    return a
    return a + [c for c in ALL if c not in a and c not in slow] + [c for c in slow if c not in a]


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    ms = [m for m in mutants() if len(sys.argv) < 5 or any(x in m[0] for x in sys.argv[4:])]
    random.Random(seed).shuffle(ms)
    print(len(ms), 'possible edits')
    cnt = {}
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex, open(out, 'a') as fo:
        for fu in cf.as_completed([ex.submit(job, m) for m in ms[:n]]):
            m, k, x, und = fu.result()
            cnt[k] = cnt.get(k, 0) + 1
            fo.write(json.dumps([m, k, x, und]) + '\n')
            fo.flush()
    print(cnt)


if __name__ == '__main__':
    main()
