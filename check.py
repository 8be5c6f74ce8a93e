#!/usr/bin/env python3
"""Driver of the checks: check.py <PROPERTY> [--tier quick|thorough] [--path p | --replay file]

Builds /repo's current sources (plus a harness), explores exhaustively within the
bounds of the tier, reports violations, writes evidence/<PROPERTY>.json.
"""
import sys, os, json, time, hashlib, subprocess, glob, struct, tempfile, shutil, signal, argparse
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MARC_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
NCPU = os.cpu_count() or 4
sys.path.insert(0, HERE)

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b'\0')
    return m.hexdigest()[:24]

def rd(p):
    with open(p, 'rb') as f:
        return f.read()

FLAGS = {
    'plain': ['-O1', '-g1'],
    'san': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer',
            '-fno-sanitize=vptr,float-divide-by-zero', '-D_GLIBCXX_ASSERTIONS'],
}
CXX = 'g++'

class Builder:
    def __init__(self, variant='plain'):
        self.variant = variant
        self.flags = ['-std=c++17', '-w', '-fPIC'] + FLAGS[variant]
        os.makedirs(os.path.join(BUILD, 'o'), exist_ok=True)
        self.inc = ['-I' + os.path.join(HERE, 'cfg'), '-I' + os.path.join(REPO, 'lib'),
                    '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'opt/fmt-8.0.1/include'),
                    '-I' + os.path.join(HERE, 'harness')]
        hdrs = sorted(glob.glob(REPO + '/lib/**/*.h', recursive=True) + glob.glob(REPO + '/lib/**/*_t.cpp', recursive=True)
                      + glob.glob(REPO + '/lib/**/*.inl', recursive=True) + glob.glob(REPO + '/lib/**/*.hpp', recursive=True)
                      + glob.glob(HERE + '/cfg/**/*.h', recursive=True))
        self.libh = h(*[x for f in hdrs for x in (os.path.relpath(f, REPO), rd(f))])
        hdrs = sorted(glob.glob(REPO + '/src/*.h') + glob.glob(REPO + '/src/*_t.cpp') + glob.glob(REPO + '/src/*.yy')
                      + glob.glob(REPO + '/src/*.ll') + glob.glob(REPO + '/src/*.hpp') + glob.glob(REPO + '/src/*.inl'))
        self.srch = h(self.libh, *[x for f in hdrs for x in (os.path.relpath(f, REPO), rd(f))])

    def libsources(self):
        return [f for f in sorted(glob.glob(REPO + '/lib/marc/**/*.cpp', recursive=True)) if not f.endswith('_t.cpp')]

    def srcsources(self):
        return [f for f in sorted(glob.glob(REPO + '/src/*.cpp')) if not f.endswith('_t.cpp')]

    def compile1(self, args):
        src, key, extra = args
        out = os.path.join(BUILD, 'o', h(self.variant, ' '.join(self.flags), key, rd(src), src, ' '.join(extra)) + '.o')
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            r = sh([CXX] + self.flags + extra + self.inc + ['-x', 'c++', '-c', src, '-o', tmp])
            if r.returncode != 0:
                raise BuildError('compiling %s:\n%s' % (src, r.stdout[-3000:]))
            os.replace(tmp, out)
        return out

    def compile(self, jobs):
        with ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(self.compile1, jobs))

    def gen(self):
        """bison/flex output of the current grammar."""
        yy, ll = REPO + '/src/parse.yy', REPO + '/src/lexer.ll'
        d = os.path.join(BUILD, 'gen', h(rd(yy), rd(ll)))
        if not os.path.exists(d + '/done'):
            os.makedirs(d, exist_ok=True)
            r = sh(['bison', '-d', '-Wno-other', '-o', 'parse.cc', yy], cwd=d)
            if r.returncode: raise BuildError('bison: ' + r.stdout)
            r = sh(['flex', '-o', 'lexer.cc', ll], cwd=d)
            if r.returncode: raise BuildError('flex: ' + r.stdout)
            open(d + '/done', 'w').close()
        return d

    def libjobs(self):
        return [(f, self.libh, []) for f in self.libsources()]

    def srcjobs(self, main):
        g = self.gen()
        js = [(f, self.srch, ['-I' + g]) for f in self.srcsources() if main or os.path.basename(f) != 'marc.cpp']
        js += [(g + '/' + f, self.srch, ['-I' + g]) for f in ('parse.cc', 'lexer.cc')]
        return js

    def link(self, objs, name, libs):
        out = os.path.join(BUILD, 'bin', name + '-' + h(self.variant, *objs))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            r = sh([CXX] + self.flags + objs + ['-o', tmp] + libs)
            if r.returncode: raise BuildError('linking %s:\n%s' % (name, r.stdout[-3000:]))
            os.replace(tmp, out)
        return out

    def marc(self):
        return self.link(self.compile(self.libjobs() + self.srcjobs(True)), 'marc', ['-lcfitsio', '-lm'])

    def harness(self, name, src=False):
        hs = os.path.join(HERE, 'harness', name + '.cpp')
        hk = h(self.srch, *[rd(f) for f in sorted(glob.glob(HERE + '/harness/*.h'))])
        jobs = [(hs, hk, (['-I' + self.gen()] if src else []))] + self.libjobs()
        if src:
            jobs += self.srcjobs(False)
        return self.link(self.compile(jobs), name, (['-lcfitsio'] if src else []) + ['-lm'])


def prune_build():
    """Keep the cache bounded."""
    try:
        fs = [os.path.join(d, f) for d in (BUILD + '/o', BUILD + '/bin') if os.path.isdir(d) for f in os.listdir(d)]
        if sum(os.path.getsize(f) for f in fs) > 3e9:
            fs.sort(key=os.path.getmtime)
            for f in fs[:len(fs) // 2]: os.unlink(f)
    except OSError:
        pass

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98', LC_ALL='C')
STALL = 60       # seconds without a finished execution before a shard counts as hung

def read_hb(p):
    try:
        d = rd(p)
        n, l = struct.unpack_from('<QI', d, 0)
        pair = d[812:].split(b'\0', 1)[0].decode()
        if pair: return n, pair
        return n, ','.join(str(x) for x in struct.unpack_from('<%dI' % l, d, 12)) if l else '-'
    except Exception:
        return 0, '-'

def run_shards(binary, tier, tmp, nshards, tag, env=None):
    """Run all shards; returns (summaries, violations, states-set)."""
    procs = []
    env = dict(ENV, **(env or {}))
    for i in range(nshards):
        b = os.path.join(tmp, '%s.%d' % (tag, i))
        cmd = [binary, '--tier', tier, '--shard', '%d/%d' % (i, nshards), '--out', b + '.out', '--states', b + '.st',
               '--summary', b + '.sum', '--hb', b + '.hb']
        err = open(b + '.err', 'wb')
        procs.append([subprocess.Popen(cmd, stdout=err, stderr=err, env=env, cwd=tmp), b, 0, time.time(), None, 0])
    live = list(procs)
    while live:
        time.sleep(0.05)
        for p in list(live):
            if p[0].poll() is not None:
                live.remove(p); continue
            n, _ = read_hb(p[1] + '.hb')
            if n != p[2]: p[2], p[3] = n, time.time()
            elif time.time() - p[3] > STALL:
                # hung, or just slow on a busy machine?  The same case alone tells
                path = read_hb(p[1] + '.hb')[1]
                try:
                    subprocess.run([binary, '--tier', tier, '--path', path, '--out', '/dev/null'], env=env, cwd=tmp, timeout=120,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    if p[0].poll() is None and read_hb(p[1] + '.hb')[0] == p[2]: p[5] += 1
                    p[3] = time.time()
                    if p[5] < 4: continue
                except subprocess.TimeoutExpired:
                    pass
                p[4] = path
                for q in live: q[0].kill(); q[0].wait()     # one confirmed hang decides
                procs = [q for q in procs if q is p or q not in live]; live = []
                break
    sums, viol, states = [], [], set()
    for pr, b, _, _, hung, slow in procs:
        if os.path.exists(b + '.out'):
            for l in open(b + '.out', errors='replace'):
                try: viol.append(json.loads(l))
                except ValueError: pass
        if hung is not None:
            if slow >= 4: raise BuildError('shard stalled but the case finishes alone (machine overloaded?)')
            viol.append({'kind': 'hang', 'msg': 'no result within 120 s', 'case': '', 'path': hung}); continue
        if pr.returncode not in (0, 1) or not os.path.exists(b + '.sum'):
            if pr.returncode == 3:
                raise BuildError('harness error: ' + rd(b + '.err').decode(errors='replace')[-2000:])
            path = read_hb(b + '.hb')[1]
            e = rd(b + '.err').decode(errors='replace')
            viol.append({'kind': 'crash', 'msg': 'exit %s: %s' % (pr.returncode, e[-1500:]), 'case': '', 'path': path})
            continue
        sums.append(json.load(open(b + '.sum')))
        d = rd(b + '.st')
        states.update(struct.unpack('<%dQ' % (len(d) // 8), d))
    return sums, viol, states


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []

def finish(pid, tier, level, cov, viol, t0, assumptions, extra_replay=None):
    """Evidence, known findings, VIOLATION line; returns the exit status."""
    known = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    new, hit = [], {}
    for v in viol:
        m = None
        for k in known:
            if all(s in (v.get('kind', '') + ' | ' + v.get('msg', '') + ' | ' + v.get('case', '')) for s in k['match']):
                m = k; break
        if m: hit[m['id']] = m
        else: new.append(v)
    for k in known:
        if k['id'] in hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level,
          'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'assumptions': assumptions,
          'violations': [dict(v, msg=v.get('msg', '')[:600]) for v in new[:20]]}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, pid + '.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'how': 'python3 check.py %s --tier %s --replay %s' % (pid, tier, rp),
                       'violations': new[:400]}, f, indent=1)
        for v in new[:8]:
            print('  %s: %s [%s]' % (v.get('kind'), v.get('msg', '')[-700:] if v.get('kind') == 'crash' else v.get('msg', '')[:700], v.get('case', '')[:400] or v.get('path')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s %s' % (pid, {k: v for k, v in cov.items() if isinstance(v, (int, bool))}))
    return 0


def run_harness_part(pid, tier, spec, tmp, replay, acc):
    for name, variant, src in spec['harness']:
        binary = Builder(variant).harness(name, src)
        if replay is not None:
            for hn, path in replay:
                if hn in (None, name):
                    r = subprocess.run([binary, '--tier', tier, '--path', path], env=ENV, cwd=tmp)
                    print('replay', name, path, 'exit', r.returncode)
                    acc['rc'] = max(acc['rc'], 1 if r.returncode else 0)
            continue
        sums, v, st = run_shards(binary, tier, tmp, NCPU, name)
        for x in v: x['harness'] = name
        acc['viol'] += v
        for s in sums:
            for k in acc['tot']: acc['tot'][k] += s[k]
            acc['samples'] += s['samples'][:2]
        acc['states'] += len(st)
        acc['parts'][name] = {'states': len(st), 'executions': sum(s['executions'] for s in sums), 'build': variant}

def run_e2e_part(pid, tier, spec, tmp, replay, acc):
    import importlib
    from e2e import lib
    for name in spec['e2e']:
        mod = importlib.import_module('e2e.' + name)
        only = None
        if replay is not None:
            only = {p for hn, p in replay if hn in (None, name)}
            if not only: continue
        eng = lib.Engine(name, tier, tmp, Builder('plain').marc(), only)
        mod.explore(eng)
        eng.finish()
        if replay is not None:
            for v in eng.viol: print('replay', v['kind'], v['msg'], v['case'])
            print('replay', name, 'violations', len(eng.viol))
            acc['rc'] = max(acc['rc'], 1 if eng.viol else 0)
            continue
        for v in eng.viol: v['harness'] = name
        acc['viol'] += eng.viol
        acc['tot']['executions'] += eng.runs
        acc['tot']['transitions'] += eng.cases
        acc['tot']['steps'] += eng.steps
        acc['tot']['checks'] += eng.checks
        acc['states'] += len(eng.states)
        acc['samples'] += eng.samples
        acc['parts'][name] = {'states': len(eng.states), 'cases': eng.cases, 'program_runs': eng.runs, 'build': 'plain'}

def run_spec(pid, tier, spec, t0, replay=None):
    acc = {'viol': [], 'states': 0, 'samples': [], 'parts': {}, 'rc': 0,
           'tot': {'executions': 0, 'transitions': 0, 'steps': 0, 'checks': 0}}
    tmp = tempfile.mkdtemp(prefix='marc-%s-' % pid)
    try:
        if 'harness' in spec: run_harness_part(pid, tier, spec, tmp, replay, acc)
        if 'e2e' in spec: run_e2e_part(pid, tier, spec, tmp, replay, acc)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if replay is not None:
        return acc['rc']
    tot = acc['tot']
    cov = {'states': acc['states'], 'transitions': tot['transitions'] + tot['steps'],
           'traces_validated_against_impl': tot['executions'], 'oracle_comparisons': tot['checks'],
           'exhaustive': not acc['viol'], 'bounds': spec['bounds'][tier],
           'samples': acc['samples'][:10], 'parts': acc['parts'],
           'counting': 'states = distinct observed implementation states (hashes of configuration + observable result); '
                       'transitions = choice edges of the exploration tree plus implementation steps compared with the model; '
                       'traces = complete executions of the real code compared with the reference model'}
    return finish(pid, tier, 'model_checking', cov, acc['viol'], t0, spec.get('assumptions', ASSUME))

ASSUME = ['the reference model in the harness states the property correctly',
          'g++ 13, libm and the installed cfitsio behave as documented',
          'small-scope: behaviour outside the stated bounds is not explored']

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--path')
    ap.add_argument('--replay')
    a = ap.parse_args()
    t0 = time.time()
    from specs import SPECS
    if a.setup or not a.pid:
        # Checks build whatever they need themselves; this warms the cache and proves the toolchain works.
        try:
            Builder('plain').marc(); Builder('san').harness('p01_map')
        except BuildError as e:
            print('ERROR', e); sys.exit(2)
        print('setup ok'); sys.exit(0)
    spec = SPECS[a.pid]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        replay = None
        if a.path: replay = [(None, a.path)]
        if a.replay:
            replay = [(v.get('harness'), v['path']) for v in json.load(open(a.replay))['violations'] if v.get('path')][:5]
        rc = run_spec(a.pid, tier, spec, t0, replay)
    except BuildError as e:
        print('ERROR', e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    prune_build()
    sys.exit(rc)

if __name__ == '__main__':
    main()
