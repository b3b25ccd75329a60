"""Build and run the harness of a property against /repo's current sources (bounded; finds and replays failing inputs)."""
import os, subprocess, tempfile, shutil, time, glob, signal
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('POOYA_REPO', '/repo')
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')
FLAGS = ['-std=c++17', '-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-iquote', REPO, '-iquote', HERE,
         '-isystem', '/usr/include/eigen3', '-DEIGEN_MPL_ONLY', '-w']

def _cc(args):
    src, obj, tmo = args
    try:
        r = subprocess.run(['g++'] + FLAGS + ['-c', src, '-o', obj], capture_output=True, text=True, timeout=tmo)
        return src, r.returncode, r.stderr
    except subprocess.TimeoutExpired: return src, -1, 'compiler timeout'

def run(pid, tier, seed):
    """-> dict(status= ok|fail|broken, detail, cases, reqs, samples, cmd, secs)"""
    t0 = time.time()
    src = os.path.join(HERE, pid.lower() + '.cpp')
    res = {'status': 'none', 'cases': 0, 'reqs': 0, 'samples': [], 'detail': '', 'output': '', 'cmd': ''}
    if not os.path.exists(src): return res
    d = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        srcs = [src] + sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
        jobs = [(s, os.path.join(d, '%d.o' % i), 400) for i, s in enumerate(srcs)]
        with ThreadPoolExecutor(8) as ex: out = list(ex.map(_cc, jobs))
        bad = [(s, e) for s, rc, e in out if rc != 0]
        if bad:
            res.update(status='broken', detail='does not compile: %s' % bad[0][0], output=bad[0][1][:3000]); return res
        exe = os.path.join(d, 'h')
        r = subprocess.run(['g++'] + FLAGS + [j[1] for j in jobs] + ['-o', exe], capture_output=True, text=True, timeout=300)
        if r.returncode:
            res.update(status='broken', detail='does not link', output=r.stderr[:3000]); return res
        env = dict(os.environ, VERIF_SEED=str(seed), TMPDIR=d, VERIF_SCRATCH=d,
                   ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=6000:allocator_may_return_null=0:color=never', UBSAN_OPTIONS='print_stacktrace=0:color=never')
        lim = 450 if tier == 'thorough' else 240
        res['cmd'] = 'g++ %s harness/%s.cpp /repo/src/**/*.cpp; VERIF_SEED=%s ./h %s' % (' '.join(FLAGS), pid.lower(), seed, tier)
        try:
            p = subprocess.run([exe, tier, str(lim)], cwd=d, env=env, capture_output=True, timeout=lim + 60)
            o = p.stdout.decode('utf8', 'replace'); er = p.stderr.decode('utf8', 'replace'); rc = p.returncode
        except subprocess.TimeoutExpired as x:
            o = (x.stdout or b'').decode('utf8', 'replace') + '\nFAIL: the run does not end | input: unknown\n'; er = ''; rc = 1
        res['output'] = (o[-3000:] + '\n' + er[:3000]).strip()
        for l in o.splitlines():
            if l.startswith('CASES '):
                w = l.split(); res['cases'] = int(w[1]); res['reqs'] = int(w[3])
            elif l.startswith('SAMPLE '): res['samples'].append(l[7:][:400])
        f = [l for l in o.splitlines() if l.startswith('FAIL:')]
        if f: res.update(status='fail', detail=f[0][:3000])
        elif rc != 0: res.update(status='fail', detail='FAIL: the harness ended abnormally (%s)' % rc)
        elif res['cases'] == 0: res.update(status='broken', detail='no case was run')
        else: res['status'] = 'ok'
        return res
    except Exception as x:
        res.update(status='broken', detail='%s: %s' % (type(x).__name__, x)); return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
        res['secs'] = round(time.time() - t0, 1)
