"""plant.py [ID...]: makes /verif/seeded/ID from bugs.py, in a scratch copy of /repo: the patch must build, pass the
stable tests and fail its demonstration, which must pass without it.  plant.py --check [ID...]: does the property's check catch it?"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(os.path.dirname(HERE)); SEED = VERIF + '/seeded'
sys.path.insert(0, HERE)
from bugs import BUGS
def sh(cmd, cwd=None, **kw): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', **kw)
S = '/tmp/plant-scratch'
def scratch():
    if not os.path.exists(S): sh('cp -a /repo ' + S)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', S)
    for f in ('build', 'test'):
        t = open('/opt/vp/%s.sh' % f).read().replace('/repo', S).replace('/opt/vp/build.sh', '/tmp/plant-build.sh')
        open('/tmp/plant-%s.sh' % f, 'w').write(t)
def tests():
    r = sh('bash /tmp/plant-test.sh /tmp/plant-out.json', S)
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = json.load(open('/tmp/plant-out.json'))['passed']
    return sorted(set(b) - set(o)), r.stdout[-600:]
def make(i):
    b = BUGS[i]; d = '%s/%s' % (SEED, i)
    scratch()
    for (f, old, new) in b['edits']:
        p = S + '/' + f; t = open(p).read(); n = t.count(old)
        if n != 1: print(i, 'text occurs', n, 'times in', f); return False
        open(p, 'w').write(t.replace(old, new))
    for f in sorted(set(e[0] for e in b['edits'])):
        o = sh('git -C /repo show 7ecf126:' + f).stdout.splitlines()
        for l in sh('git diff -U0 ' + f, S).stdout.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in o: print(i, 'changes a line of a fix:', l[:120])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(sh('git diff', S).stdout)
    src = b['demo']
    if src.lstrip().startswith('#!'): open(d + '/demo.sh', 'w').write(src.lstrip())
    else:
        shutil.copy(HERE + '/d.h', d); open(d + '/demo.c', 'w').write(("" if b.get("bare") else "#include \"d.h\"\n") + src); s = open(HERE + '/demo.sh').read().replace('-lpthread', '-lpthread' + ''.join(' -Wl,--wrap=' + w for w in b.get('wrap', '').split())).replace('timeout 120', 'timeout %d' % b.get('limit', 120)); open(d + '/demo.sh', 'w').write(s)
    for n, t in b.get('files', {}).items(): open('%s/%s' % (d, n), 'w').write(t)
    sh('chmod +x demo.sh', d)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    missing, log = tests()
    if missing: print(i, 'tests broken:', missing[:4], log[-300:]); return False
    x = sh('bash %s/demo.sh' % d, S, timeout=300)
    if x.returncode == 0: print(i, 'demo passes with the patch:', x.stdout[-400:]); return False
    scratch(); tests()
    y = sh('bash %s/demo.sh' % d, S, timeout=300)
    if y.returncode: print(i, 'demo fails without the patch:', y.stdout[-400:]); return False
    print(i, 'ok:', x.stdout.strip().splitlines()[-1:] ); return True
def check(i, props=None, secs=None):
    d = '%s/%s' % (SEED, i); p = json.load(open(d + '/meta.json'))['property']; scratch()
    a = sh('git apply %s/patch.diff' % d, S)
    if a.returncode: print(i, 'does not apply', a.stdout[-200:]); return
    rf = HERE + '/results.json'; res = json.load(open(rf)) if os.path.exists(rf) else {}
    for q in props or [p]:
        env = dict(os.environ, XRTM_REPO=S, XRTM_BUILD='/tmp/plant-vb', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
        if secs: env['SIM_SECONDS'] = secs
        r = subprocess.run([VERIF + '/check', q, 'quick'], cwd=VERIF, env=env, stdout=subprocess.PIPE, universal_newlines=True)
        l = [x for x in r.stdout.splitlines() if not x.startswith('KNOWN')]
        if r.returncode in (0, 1): res[i] = q + ' quick' if r.returncode else 'missed'; json.dump(res, open(rf, 'w'), indent=0, sort_keys=True)
        print(i, q, 'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'ERROR %d' % r.returncode, ' | '.join(l)[:230])
if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--check':
        for i in a[1:] or sorted(os.listdir(SEED)): check(i, secs=os.environ.get('SECS'))
    else:
        for i in a or sorted(BUGS): make(i)
