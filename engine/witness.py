"""Type-checking of small programs against /repo's current headers: which of them the compiler's front end accepts."""
import concurrent.futures as cf
import os, subprocess, tempfile, shutil, json
from . import frontend as FE

CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'


def accepted(progs, config='release', gcc=False):
    """progs: {name: code}; {name: None when it compiles, else the first diagnostics}; cached by content"""
    repo = FE.REPO
    hs, cs = FE.sources(repo)
    base = FE.sha(repo, config, FE.read(os.path.abspath(__file__)), *[x for p in hs + cs for x in (p, FE.read(os.path.join(repo, p)))])
    os.makedirs(FE.CACHE, exist_ok=True)
    path = os.path.join(FE.CACHE, 'wit-' + base + '.json')
    memo = {}
    if os.path.exists(path):
        try:
            with open(path) as f:
                memo = json.load(f)
        except Exception:
            memo = {}
    todo = [n for n, c in progs.items() if FE.sha(c) not in memo]
    if todo:
        work = tempfile.mkdtemp(prefix='pooya-w-')

        def one(n):
            p = os.path.join(work, 'w%d.cpp' % todo.index(n))
            with open(p, 'w') as f:
                f.write(progs[n])
            cmd = [CLANG, '-fsyntax-only', '-ferror-limit=3', '-fno-caret-diagnostics'] + FE.FLAGS + ['-iquote', repo, '-I' + repo, '-I' + repo + '/3rdparty'] + FE.CONFIGS[config] + [p]
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=repo)
            return None if r.returncode == 0 else (r.stderr.replace(work, '') or 'rejected')[:1200]
        try:
            with cf.ThreadPoolExecutor(8) as pool:
                for n, r in zip(todo, pool.map(one, todo)):
                    memo[FE.sha(progs[n])] = r
        finally:
            shutil.rmtree(work, ignore_errors=True)
        tmp = path + '.%d' % os.getpid()
        with open(tmp, 'w') as f:
            json.dump(memo, f)
        os.replace(tmp, path)
        old = sorted((os.path.getmtime(os.path.join(FE.CACHE, f)), f) for f in os.listdir(FE.CACHE) if f.startswith('wit-') and f.endswith('.json'))
        for _, f in old[:-60]:
            try:
                os.remove(os.path.join(FE.CACHE, f))
            except OSError:
                pass
    return {n: memo[FE.sha(c)] for n, c in progs.items()}
