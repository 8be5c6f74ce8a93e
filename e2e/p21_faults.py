"""P21: every file operation of a run fails in turn; success may only be reported for complete maps."""
import os, subprocess, gzip
from e2e.lib import make_fits, Run, FitsError
from e2e.inputs import *
from e2e.p18_history import canon as canon0, PS, PL, VAL, FLAT, P

LL = 'LATITUDE:', 'LONGITUDE'
SCEN = {
    'virtual+grid': dict(text=entry('m.fits', grid=['GRID: YES'], xcomments=['x'], dtype='SHORT', samples=12, lines=8, planes=['LATITUDE:'])),
    'photo+flat, old map': dict(text=entry('m.fits', author='A', comments=['c'], samples=12, lines=8, planes=[P(flat='f.fits'), P(nibble=['NIBBLE: 2'])]), old=True),
    'mosaic, big': dict(text=entry('m.fits', dtype='DOUBLE', samples=120, lines=60, planes=[P() + '\n' + P(file='q.fits', sublon=100), 'LATITUDE:'])),
    'two maps, config': dict(text=entry('m.fits', dtype='FLOAT', planes=LL, samples=12, lines=8) + entry('n.fits', proj='ORTHO', samples=10, lines=10, grid=['GRID: YES'], planes=[P()]), conf='DATA_MAX: 60\n', old=True),
    'gz photo': dict(text=entry('m.fits', dtype='LONG', samples=12, lines=8, planes=[P(file='z.fits.gz')])),
}
BIG = {
    'huge': dict(text=entry('m.fits', dtype='DOUBLE', samples=400, lines=200, grid=['GRID: YES'], planes=['LATITUDE:', 'LONGITUDE'])),
    'three maps': dict(text=''.join(entry(n + '.fits', dtype=t, planes=LL[:1], proj=p, samples=30, lines=20) for n, t, p in (('m', 'DOUBLE', 'MERCATOR'), ('n', 'SHORT', 'P_STEREO'), ('o', 'BYTE', 'ORTHO')) if n != 'o') + entry('o.fits', dtype='FLOAT', proj='ORTHO', samples=20, lines=20, planes=[P()]), old=True),
}

def canon(hdus):
    return canon0(hdus), [(h.datasum_ok, h.checksum_ok, 'CHECKSUM' in h.h, 'DATASUM' in h.h) for h in hdus]

def maps(sc): return [n for n in ('m.fits', 'n.fits', 'o.fits') if n in sc['text']]
def sources(sc): return [n for n in ('p.fits', 'q.fits', 'f.fits', 'z.fits.gz', 'in', 'home/.config/marc')]

def setup(c, sc):
    pf = make_fits(16, (PS, PL), VAL)
    c.write('p.fits', pf)
    c.write('q.fits', make_fits(16, (PS, PL), [v + 100 for v in VAL]))
    c.write('f.fits', make_fits(16, (PS, PL), FLAT))
    c.write('z.fits.gz', gzip.compress(pf, mtime=0))
    c.write('in', sc['text'])
    c.write('home/.config/marc', sc.get('conf', ''))
    if not sc.get('conf'): os.unlink(c.path('home/.config/marc'))
    if sc.get('old'):
        for n in maps(sc): c.write(n, make_fits(8, (3, 3), [1] * 9))

def snap(c, names):
    return {n: c.read(n) if c.exists(n) else None for n in names}

def run(c, inj, n, mode, timeout=60):
    with c.eng.lock: c.eng.runs += 1
    log = c.dir + '.log'
    try:
        p = subprocess.Popen([inj, c.dir, str(n), mode, log, c.eng.binary, 'in'], cwd=c.dir, env=c.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try: o, e = p.communicate(timeout=timeout); hung = False
        except subprocess.TimeoutExpired: p.kill(); o, e = p.communicate(); hung = True
        ops = open(log, errors='replace').read().splitlines() if os.path.exists(log) else []
    finally:
        if os.path.exists(log): os.unlink(log)
    if not hung and (p.returncode != 0 or not ops): raise RuntimeError('injector: %s %r' % (p.returncode, e))
    rc = None
    if not hung:
        k, v = ops.pop().split()
        rc = int(v) if k == 'EXIT' else -int(v)
    return Run(rc, o.decode(errors='replace'), e.decode(errors='replace'), hung), ops

def complete(c, sc, ref, who):
    for n in maps(sc):
        try: got = canon(c.fits(n)) if c.exists(n) else 'missing'
        except (FitsError, Exception) as e: got = 'unreadable: %s' % e
        if not c.check(got == ref[n], 'incomplete-success', lambda: '%s: exit status 0 but %s is %s' % (who, n, got if isinstance(got, str) else 'not the map written without the fault')): return False
    return True

def explore(eng):
    inj = os.path.join(eng.tmp, 'inject')
    r = subprocess.run(['gcc', '-O1', '-o', inj, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inject.c')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError('compiling inject.c: ' + r.stdout)
    sc_all = dict(SCEN, **(BIG if eng.thorough else {}))
    for name, sc in sc_all.items():
        ref, ops, sizes = {}, [], []
        def base(c, name=name, sc=sc, ref=ref, ops=ops):
            setup(c, sc)
            src = snap(c, sources(sc))
            r, o = run(c, inj, 0, 'count')
            if not c.check(r.rc == 0 and not r.crashed, 'exit', repr(r)): return
            for n in maps(sc):
                ref[n] = canon(c.fits(n)); sizes.append(len(c.read(n)))
            ops += o
            c.check(snap(c, sources(sc)) == src, 'source-modified', 'a source file was modified')
            c.state(name, len(o)); c.steps(len(o))
        only, eng.only = eng.only, None
        eng.case('faultless %s' % name, base)
        eng.futs[-1].result()
        eng.only = only
        if not ops: continue
        for mode in ('once', 'sticky', 'short', 'kill'):
            for k in range(1, len(ops) + 1):
                what = ops[k - 1].split(' ', 1)[1]
                if mode == 'short' and what.split()[0] not in ('read', 'write'): continue
                def fn(c, name=name, sc=sc, k=k, mode=mode, what=what, ref=ref, ops=ops):
                    setup(c, sc)
                    src = snap(c, sources(sc))
                    r, o = run(c, inj, k, mode)
                    who = '%s, operation %d (%s) %s' % (name, k, what, mode)
                    if o[:k - 1] != ops[:k - 1]: raise RuntimeError('runs are not repeatable: %s' % who)
                    if not c.check(not r.hung, 'hang', who): return
                    if mode == 'kill': c.check(r.rc == -9, 'kill', '%s: exit %s' % (who, r.rc))
                    elif not c.check(not r.crashed, 'crash', lambda: '%s: %r' % (who, r)): return
                    if r.rc == 0 and not complete(c, sc, ref, who): return
                    if not c.check(snap(c, sources(sc)) == src, 'source-modified', lambda: '%s: a source file was modified' % who): return
                    if mode in ('kill', 'once') and (mode == 'kill' or eng.thorough or r.rc != 0):
                        # whatever the failed run left behind, running again succeeds completely
                        r2 = c.marc('in')
                        if c.check(r2.rc == 0 and not r2.crashed, 'rerun', lambda: '%s: the next run fails: %r' % (who, r2)): complete(c, sc, ref, who + ', next run')
                    c.state(name, mode, k, r.rc == 0); c.steps(len(o))
                eng.case('%s: %s at operation %d' % (name, mode, k), fn)
        # the file system is full after any number of bytes
        top = max(sizes)
        step = 64 if eng.thorough else 360
        lim = sorted(set(range(0, top + 1, step)) | {b + d for b in range(0, top + 1, 2880) for d in (-1, 0, 1) if 0 <= b + d})
        if len(lim) > 600: lim = lim[::len(lim) // 600 + 1] + lim[-8:]
        for n in lim:
            def fn(c, name=name, sc=sc, n=n, ref=ref):
                setup(c, sc)
                src = snap(c, sources(sc))
                with c.eng.lock: c.eng.runs += 1
                # SIGXFSZ is ignored (inherited from Python), so that writes fail with EFBIG
                p = subprocess.Popen(['prlimit', '--fsize=%d' % n, c.eng.binary, 'in'], cwd=c.dir, env=c.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, restore_signals=False)
                try: o, e = p.communicate(timeout=60); hung = False
                except subprocess.TimeoutExpired: p.kill(); o, e = p.communicate(); hung = True
                r = Run(p.returncode, o.decode(errors='replace'), e.decode(errors='replace'), hung)
                who = '%s, files limited to %d bytes' % (name, n)
                if not c.check(not hung, 'hang', who): return
                if not c.check(not r.crashed, 'crash', lambda: '%s: %r' % (who, r)): return
                if r.rc == 0 and not complete(c, sc, ref, who): return
                c.check(snap(c, sources(sc)) == src, 'source-modified', lambda: '%s: a source file was modified' % who)
                c.state(name, 'limit', n, r.rc == 0); c.steps(1)
            eng.case('%s: limit %d' % (name, n), fn)
