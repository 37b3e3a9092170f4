#!/usr/bin/env python3
"""Trials of the monitors: applies random small changes to scratch copies of /repo and lists those no check notices.
usage: mutants.py OUT.jsonl N WORKERS SEED [file-regex]   (needs /tmp/muts.jsonl of tools/mutate and /tmp/covw/c.txt of a coverage run)"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
out, n, workers, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
pat = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.')
cov = {}
for l in open('/tmp/covw/c.txt'):
    m = re.match(r'github.com/soypat/sdf/(\S+):(\d+)\.\d+,(\d+)\.\d+ \d+ (\d+)', l)
    if m and int(m[4]):
        cov.setdefault('/repo/' + m[1], set()).update(range(int(m[2]), int(m[3]) + 1))
muts = [json.loads(l) for l in open('/tmp/muts.jsonl')]
muts = [m for m in muts if pat.search(m['file']) and (m['line'] in cov.get(m['file'], ()) or 'hreaded' in m['func'] or m['func'] in ('readBinarySTL', 'get'))]
random.Random(seed).shuffle(muts)
done = set()
if os.path.exists(out):
    done = {(d['file'], d['start'], d['end'], d['new']) for d in map(json.loads, open(out))}
muts = [m for m in muts if (m['file'], m['start'], m['end'], m['new']) not in done]
print(len(muts), 'candidates', flush=True)
muts = muts[:n]
order = [
 ('matrix.go', 'C07 C08 C01 C10 C13 C12 C15'), ('internal/d3/transform', 'C07 C08 C01 C27 C16'), ('internal/d3/vector', 'C02 C07 C09 C11 C27 C01 C21 C29'),
 ('internal/d3/box', 'C01 C07 C11 C20 C21 C27 C29'), ('internal/d2/box', 'C05 C01 C12 C13'), ('internal/d2', 'C02 C03 C05 C01 C10 C16'),
 ('bih.go', 'C28 C15 C14'), ('import.go', 'C27 C15 C14'), ('spatial', 'C27 C28 C29'), ('sdfexp/', 'C29 C15'), ('matter', 'C30'),
 ('render/stl', 'C24 C26 C22'), ('render/3mf', 'C25 C26'), ('render/io', 'C22 C26'), ('marchingcubes', 'C20 C21'), ('octree', 'C22 C20 C21 C15 C23'),
 ('must2/poly', 'C04 C03 C02 C15 C13'), ('must2', 'C02 C15'), ('must3', 'C02 C15 C18 C01'), ('obj2', 'C19 C15'), ('obj3/panel', 'C19 C15'), ('standoff', 'C19 C15'),
 ('thread/', 'C17 C18 C16 C19 C15 C01'), ('utils.go', 'C06 C09 C16 C08 C01'), ('form', 'C15 C02'),
 ('sdf2.go', 'C05 C08 C11 C10 C07 C01 C06 C12 C13 C15'), ('sdf3.go', 'C09 C10 C11 C08 C05 C07 C01 C06 C12 C13 C15'), ('', 'C01 C02 C15')]
allp = ['C%02d' % i for i in range(1,34)]
def props(f):
    for k, v in order:
        if k in f:
            v = v.split(); return v + [p for p in allp[:19] if p not in v and p not in ('C14', 'C04', 'C03')] * ('/' not in f.replace('/repo/', ''))
env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOCACHE='/tmp/mut/cache',
           PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], VERIF_FAILFAST='bolt-tolerance', GOMAXPROCS=str(max(2, 8 // workers)))
q = queue.Queue(); [q.put(m) for m in muts]
lock = threading.Lock(); fo = open(out, 'a')
def work(k):
    w = '/tmp/mut/w%d' % k
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    os.makedirs(w + '/repo/zz_verif'); os.makedirs(w + '/v/evidence'); os.makedirs(w + '/tmp')
    for f in os.listdir('/verif/harness'):
        if f.endswith('.go'): shutil.copy('/verif/harness/' + f, w + '/repo/zz_verif/')
    e = dict(env, TMPDIR=w + '/tmp', VERIF_REPO=w + '/repo')
    shutil.copy('/verif/known-findings.txt', w + '/v/')
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        f = m['file'].replace('/repo/', w + '/repo/', 1); src = open(f, 'rb').read()
        open(f, 'wb').write(src[:m['start']] + m['new'].encode() + src[m['end']:])
        res = ''
        if subprocess.run(['go', 'build', '-o', w + '/mon', './zz_verif'], cwd=w + '/repo', env=e, capture_output=True).returncode:
            res = 'nobuild'
        else:
            known = {'bug': 0}
            for p in props(m['file']):
                if p not in open('/verif/properties.jsonl').read(): continue
                mon = w + '/mon'
                try:
                    r = subprocess.run([mon, '-prop', p, '-tier', 'quick', '-seed', '1', '-dir', w + '/v'], cwd=w + '/repo', env=e, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    res = 'timeout ' + p; break
                if r.returncode == 1:
                    k = re.search(r'FAILFAST case=(\S+) key=(\S+)', r.stdout + r.stderr); res = 'killed %s %s' % (p, k[2] if k else '?'); break
                if r.returncode:
                    res = 'ERROR %s rc=%d %s' % (p, r.returncode, (r.stdout + r.stderr)[-300:]); break
            if not res:
                t = subprocess.run(['go', 'test', '-count=1', './...'], cwd=w + '/repo', env=dict(e, GOFLAGS='-mod=readonly -vet=off'), capture_output=True, text=True)
                fails = [x for x in re.findall(r'--- FAIL: (\S+)', t.stdout)]
                res = 'SURVIVED' + (' tests: ' + ' '.join(fails) if fails else '')
        open(f, 'wb').write(src)
        with lock:
            fo.write(json.dumps(dict(m, res=res)) + '\n'); fo.flush()
ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
