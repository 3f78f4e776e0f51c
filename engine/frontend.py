"""Parses /repo with the libTooling extractor and merges the per-unit dumps into one program description."""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, sys, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('POOYA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
LLVM = '/usr/lib/llvm-18'
EXTRACT_SRC = os.path.join(VERIF, 'extractor', 'extract.cpp')
FLAGS = ['-std=c++17', '-DEIGEN_MPL_ONLY', '-DEIGEN_NO_DEBUG', '-isystem', '/usr/include/eigen3', '-w']


class AnalysisBroken(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def extractor():
    """path of the extractor binary, building it when it is not there yet"""
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'extract-' + sha(read(EXTRACT_SRC)))
    if os.path.exists(out):
        return out
    cxxflags = subprocess.check_output([LLVM + '/bin/llvm-config', '--cxxflags'], text=True).split()
    cxxflags = [f for f in cxxflags if not f.startswith('-std=')]
    tmp = tempfile.mkdtemp(dir=CACHE)
    cmd = ['g++', '-O1', '-fno-rtti'] + cxxflags + ['-std=c++17', '-w', EXTRACT_SRC, '-o', tmp + '/x',
           '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build the extractor: ' + r.stderr[-2000:])
    os.rename(tmp + '/x', out)
    shutil.rmtree(tmp)
    return out


def sources(repo=None):
    repo = repo or REPO
    hs, cs = [], []
    for d, ds, fs in os.walk(os.path.join(repo, 'src')):
        ds.sort()
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), repo)
            if f.endswith(('.hpp', '.h', '.hh')):
                hs.append(p)
            elif f.endswith(('.cpp', '.cc', '.cxx')):
                cs.append(p)
    return hs, cs


def run_extract(tool, repo, file, args, workdir, tag):
    out = os.path.join(workdir, tag + '.json')
    r = subprocess.run([tool, os.path.join(repo, 'src') + '/', out, '--'] + FLAGS +
                       ['-iquote', repo, '-I' + repo + '/3rdparty/misc'] + args + [file],
                       capture_output=True, text=True, cwd=repo)
    if r.returncode or not os.path.exists(out):
        return None, r.stderr
    with open(out) as f:
        d = json.load(f)
    os.remove(out)
    return d, r.stderr


DRIVERS = [r'''
// forms in which the public templates are used; never run, only type-checked and read
namespace verif_driver {
using namespace pooya;
struct MyBlock : Block { MyBlock() : Block(nullptr, "b") {}
  void use() { input(0); output(0); input<std::size_t>(0); output<std::size_t>(0); input("a"); output("a"); input(std::string("a")); output(std::string("a"));
    input(std::string_view("a")); output(std::string_view("a")); io_at(_ibus, "a", SignalLinkType::Internal); io_at<std::size_t>(_ibus, 0, std::nullopt); }
  uint process(double, bool) override { return 0; } };
inline void use(const Signal& s, ScalarSignal& sc, IntSignal& in, BoolSignal& bo, ArraySignal& ar, Bus& bus)
{
  Bus a({s, s}); Bus b({{"x", s}, {"y", s}}); Bus c({sc, in, bo, ar, bus}); Bus d({{"x", bus}}); Bus e({{"x", sc}, {"y", sc}});
  std::pair<std::string, Signal> ps("p", s); std::pair<std::string, ScalarSignal> psc("p", sc); std::pair<std::string, Bus> pb("p", bus);
  Bus f({ps}); Bus g({psc}); Bus h({pb}); Bus i; Bus j({}, "n");
  (void)static_cast<double>(in); (void)static_cast<int>(in);
  ValidName n("a"); (void)(n / n); (void)(n | n); (void)(n / std::string("x")); (void)(n | std::string("x")); (void)(n / "x"); (void)(n | "x");
  (void)(n / std::string_view("x")); (void)(n | std::string_view("x"));
  sc = 1.0; sc = sc; in = 1; in = in; bo = true; bo = bo; (void)static_cast<double>(sc);
}
}
'''] + ['namespace verif_driver { using namespace pooya;\ninline void %s }\n' % (body % dict(h=h)) for h in ('Signal', 'ScalarSignal', 'IntSignal', 'BoolSignal', 'ArraySignal', 'Bus') for body in (
    'copies(%(h)s& a, const %(h)s& b) { %(h)s x(a); %(h)s y(b); (void)x; (void)y; }',
    'moves(%(h)s& a) { %(h)s x(std::move(a)); (void)x; }',
    'assign_copy(%(h)s& a, const %(h)s& b) { a = b; }',
    'assign_same(%(h)s& a, %(h)s& b) { a = b; }',
    'assign_move(%(h)s& a, %(h)s& b) { a = std::move(b); }')]


def extract_config(repo, args, tag, workdir, tool, pool):
    hs, cs = sources(repo)
    plain = [h for h in hs if 'gp-ios' not in h]
    inc = ''.join('#include "%s"\n' % h for h in plain)
    allh = os.path.join(workdir, tag + '_all.cpp')
    with open(allh, 'w') as f:
        f.write(inc)
    futs = {c: pool.submit(run_extract, tool, repo, os.path.join(repo, c), args, workdir, tag + '_' + c.replace('/', '_')) for c in cs}
    first = run_extract(tool, repo, allh, args, workdir, tag + '_all')
    units, problems = {}, []
    if first[0] is None:
        # some header is not usable together with the others: keep the ones that parse on their own
        ok = []
        res = list(pool.map(lambda h: (h, run_extract(tool, repo, os.path.join(repo, h), args + ['-xc++'], workdir, tag + '_h_' + h.replace('/', '_'))), plain))
        for h, (d, err) in res:
            if d is None:
                problems.append(('header', h, err))
            else:
                ok.append(h)
        if not problems:
            problems.append(('headers', 'all', first[1]))
        inc = ''.join('#include "%s"\n' % h for h in ok)
        with open(allh, 'w') as f:
            f.write(inc)
        first = run_extract(tool, repo, allh, args, workdir, tag + '_all')
        if first[0] is None:
            raise AnalysisBroken('the headers do not compile together: ' + first[1][-1500:])
    seen, insts = set(), []
    for a in first[0]['aliases']:
        if a['ns'] and '<' in a['ty'] and a['ty'].startswith('pooya::') and a['ty'] not in seen:
            seen.add(a['ty'])
            insts.append((a['n'], a['ty'], a))
    for r in first[0]['records']:
        if '<' in r['n'] and r['n'].startswith('pooya::') and r['n'] not in seen:
            seen.add(r['n'])
            insts.append((r['n'], r['n'], r))

    def inst_unit(lst, name, driver=DRIVERS):
        p = os.path.join(workdir, name + '.cpp')
        with open(p, 'w') as f:
            f.write(inc + ''.join('template class %s;\n' % t for _, t, _ in lst) + ''.join(driver))
        return run_extract(tool, repo, p, args, workdir, name)

    inst, err = inst_unit(insts, tag + '_inst')
    drivers = DRIVERS
    if inst is None:
        # first see whether a form of use is no longer accepted
        res = list(pool.map(lambda k: inst_unit([], '%s_drv%d' % (tag, k), DRIVERS[k:k + 1]), range(len(DRIVERS))))
        drivers = [c for c, (d, e) in zip(DRIVERS, res) if d is not None]
        problems.extend(('driver', c, e) for c, (d, e) in zip(DRIVERS, res) if d is None)
        if len(drivers) < len(DRIVERS):
            inst, err = inst_unit(insts, tag + '_inst', drivers)
    if inst is None:
        good = []
        res = list(pool.map(lambda k: (k, inst_unit([insts[k]], '%s_inst%d' % (tag, k), ())), range(len(insts))))
        for k, (d, e) in res:
            if d is None:
                problems.append(('instantiation', insts[k][1], e, insts[k][2]['file'], insts[k][2]['l']))
            else:
                good.append(insts[k])
        inst, err = inst_unit(good, tag + '_inst', drivers)
        if inst is None:
            raise AnalysisBroken('template instances do not compile: ' + err[-1500:])
    units['<headers>'] = first[0]
    units['<instances>'] = inst
    for c, f in futs.items():
        d, e = f.result()
        if d is None:
            raise AnalysisBroken('%s does not parse: %s' % (c, e[-1500:]))
        units[c] = d
    prog = merge(units)
    prog['problems'] = problems
    prog['units'] = sorted(units)
    prog['instances'] = [t for _, t, _ in insts]
    return prog


def merge(units):
    fns, recs, al, gl, hd, en = {}, {}, {}, {}, {}, {}
    order = [u for u in units if u != '<headers>'] + ['<headers>']
    for u in order:
        d = units[u]
        for f in d['functions']:
            old = fns.get(f['id'])
            if old is None or ('body' not in old and 'body' in f):
                fns[f['id']] = f
        for r in d['records']:
            recs.setdefault(r['n'], r)
        for a in d['aliases']:
            al.setdefault((a['q'], a['file'], a['l']), a)
        for g in d['globals']:
            k = (g['q'], g['file'], g['l'])
            gl.setdefault(k, g)
        for h in d['hdrdefs']:
            k = (h['q'], h['file'], h['l'])
            if k not in hd or not h['ok']:
                hd[k] = h
        for e in d['enums']:
            en[e['q']] = e
    return dict(functions=fns, records=recs, aliases=list(al.values()), globals=list(gl.values()), hdrdefs=list(hd.values()), enums=en)


CONFIGS = {'debug': [], 'release': ['-DNDEBUG']}


def load(configs=('debug', 'release'), repo=None):
    """{config: program}; cached by the content of every source file"""
    repo = repo or REPO
    tool = extractor()
    hs, cs = sources(repo)
    if not hs or not cs:
        raise AnalysisBroken('no sources under %s/src' % repo)
    key = sha(read(EXTRACT_SRC), read(os.path.abspath(__file__)), repo, *[x for p in hs + cs for x in (p, read(os.path.join(repo, p)))])
    res, todo = {}, []
    for c in configs:
        p = os.path.join(CACHE, 'prog-%s-%s.json' % (c, key))
        if os.path.exists(p):
            try:
                with open(p) as f:
                    res[c] = json.load(f)
                continue
            except Exception:
                pass
        todo.append((c, p))
    if todo:
        work = tempfile.mkdtemp(prefix='pooya-x-')
        try:
            with cf.ThreadPoolExecutor(16) as outer, cf.ThreadPoolExecutor(10) as pool:
                fs = [(c, p, outer.submit(extract_config, repo, CONFIGS[c], c, work, tool, pool)) for c, p in todo]
                for c, p, f in fs:
                    res[c] = f.result()
        finally:
            shutil.rmtree(work, ignore_errors=True)
        try:
            old = sorted((os.path.getmtime(os.path.join(CACHE, f)), f) for f in os.listdir(CACHE) if f.startswith('prog-'))
            for _, f in old[:-40]:
                os.remove(os.path.join(CACHE, f))
        except OSError:
            pass        # another run tidies up
        for c, p, f in fs:
            tmp = p + '.%d' % os.getpid()
            with open(tmp, 'w') as o:
                json.dump(res[c], o)
            os.replace(tmp, p)
    return res


if __name__ == '__main__':
    import time
    t = time.time()
    r = load()
    for c, p in r.items():
        print(c, len(p['functions']), 'functions', sum('body' in f for f in p['functions'].values()), 'with bodies', len(p['records']), 'records', p['problems'], '%.1fs' % (time.time() - t))
