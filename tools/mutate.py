"""mutate.py SET [MAX] : a development aid, no check uses it.  Makes small edits of a scratch copy of /repo one at a time, keeps those
that build and pass the stable tests, and runs a short search of every property on each; prints which properties notice.
SETs: deps (dependency masks and flags), cond (conditions and refusals), stmt (statements left out), index (index variables), free (releases left out), ret (error returns left out)."""
import os, re, sys, subprocess, random, json, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + '/plant'); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant; D = os.environ.get('MUT', '/tmp/mut'); plant.S = S = D + '/scratch'
V = '/verif'; B = D + '/b'; SECS = float(os.environ.get('SECS', '5')); W = int(os.environ.get('W', '8'))
SIM = (os.environ.get('PROPS') or 'C01 C02 C03 C05 C06 C08 C20 C21 C22 C28 C29 C14 C10 C11 C07 C09 C13 C12').split()
FILES = (os.environ.get('FILES') or 'src/xrtm_interface.c src/xrtm_model.c').split()
BINS = {'C15': 'io', 'C16': 'io', 'C17': 'call', 'C18': 'call', 'C27': 'call', 'C19': 'bind', 'C04': 'conc'}
def scratch():
    if not os.path.exists(S): plant.sh('cp -a /repo ' + S)
    plant.sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', S)
    for f in ('build', 'test'):
        t = open('/opt/vp/%s.sh' % f).read().replace('/repo', S).replace('/opt/vp/build.sh', D + '/build.sh')
        open(D + '/%s.sh' % f, 'w').write(t)
def tests():
    plant.sh('bash %s/test.sh %s/out.json' % (D, D), S)
    b = json.load(open('/opt/vp/BASELINE.json'))['stable']; o = json.load(open(D + '/out.json'))['passed']; return len(set(b) - set(o))
def muts(kind, f):
    t = open('/repo/' + f).read().split('\n'); out = []; off = 0; com = False
    for n, l in enumerate(t):
        was = com
        if '/*' in l and '*/' not in l[l.rfind('/*'):]: com = True
        elif '*/' in l: com = False
        if was or com: continue
        if re.match(r'#if 0|#ifdef (HAVE_FADBAD|USE_CUDA|DEVELOPMENT)', l): off += 1
        elif off and l.startswith('#if'): off += 1
        elif off and l.startswith('#endif'): off -= 1
        if off or l.lstrip().startswith(('/*', '*', '#', '//')): continue
        if kind == 'deps':
            if re.search(r'^\s*set_deps\(|^\s*set_flags_\w+\(|d->dep_flags\w+.*\|= dep;|d->\w*flags\w*.* = .*;', l) and l.rstrip().endswith(';'): out.append((n, l, ' ;'))
            if 'return' in l or 'deps' in l:
                for m in re.finditer(r'DEP_MASK_\w+', l):
                    if len(re.findall('DEP_MASK', l)) > 1 or '|=' in l: out.append((n, l, l[:m.start()] + '0' + l[m.end():]))
                for m in re.finditer(r'\b\w+_deps\w*\(d\)', l):
                    if 'deps =' in l or '|' in l: out.append((n, l, l[:m.start()] + '0' + l[m.end():]))
        elif kind == 'cond':
            m = re.match(r'^(\s*(?:else )?if \()(.*)(\)(?: \{)?)$', l)
            if m:
                c = m.group(2)
                for a, b in ((' && ', ' || '), (' || ', ' && ')):
                    if a in c: out.append((n, l, m.group(1) + c.replace(a, b, 1) + m.group(3)))
                    if a in c and c.count('(') == c.count(')') and '(' not in c.split(a)[0]: out.append((n, l, m.group(1) + c.split(a, 1)[1] + m.group(3)))
                for a, b in ((' < ', ' <= '), (' >= ', ' > '), (' <= ', ' < '), (' > ', ' >= ')):
                    if a in c: out.append((n, l, m.group(1) + c.replace(a, b, 1) + m.group(3)))
                out.append((n, l, m.group(1) + '0 && (' + c + ')' + m.group(3)))
        elif kind == 'stmt':
            if re.match(r'^\s+[\w>\-\[\]\.\* ]+(\(.*\)| [|&+*-]?= .*);$', l) and not re.match(r'^\s*(return|int|double|static|free|eprintf)\b', l): out.append((n, l, ' ;'))
        elif kind == 'free':
            if re.match(r'^\s+(if \(.*\) )?\w*free\w*\(.*\);$', l): out.append((n, l, ' ;'))
        elif kind == 'ret':
            if re.match(r'^\s+return (XRTM_INT_ERROR|XRTM_DBL_ERROR|-1|NULL);$', l): out.append((n, l, ' ;'))
        elif kind == 'index':
            for a, b in (('i', 'j'), ('j', 'i'), ('k', 'j'), ('i_layer', '0'), ('i_deriv', '0'), ('n_layers', 'n_derivs'), ('n_quad', 'n_quad_v'), ('i', '0'), ('j', '0')):
                for m in re.finditer(r'\[%s\]' % a, l): out.append((n, l, l[:m.start()] + '[%s]' % b + l[m.end():]))
    L = os.environ.get('LINES'); X = os.environ.get('RX'); return [(f,) + x for x in out if (not L or str(x[0] + 1) in L.split(',')) and (not X or re.search(X, x[1]))]
def run(bin_, p):
    ps = [subprocess.Popen(['timeout', str(int(SECS) + 20), bin_, 'run', p, str(i + 1), str(W), str(SECS), '100000'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, errors='replace', universal_newlines=True) for i in range(W)]
    n = 0; first = ''
    for q in ps:
        o = q.communicate()[0]
        for l in o.splitlines():
            if l.startswith('V\t'): n += 1; first = first or l.split('\t')[2][:70]
        if q.returncode not in (0, 1) and not first: first = 'worker ended with %d' % q.returncode; n += 1
    return n, first
if __name__ == '__main__':
    kind = sys.argv[1]; mx = int(sys.argv[2]) if len(sys.argv) > 2 else 10**9
    ms = [m for f in FILES for m in muts(kind, f)]; random.Random(int(os.environ.get('SEED', '1'))).shuffle(ms); print(len(ms), 'edits', flush=True); done = 0
    for f, n, old, new in ms:
        if done >= mx: break
        scratch(); t = open(S + '/' + f).read().split('\n'); assert t[n] == old; t[n] = new; open(S + '/' + f, 'w').write('\n'.join(t))
        if tests(): continue
        env = dict(os.environ, XRTM_REPO=S, XRTM_BUILD=B); bins = {}
        for x in sorted(set(BINS.get(p, 'sim') for p in SIM)):
            r = subprocess.run(['python3', V + '/tools/build.py', x], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if r.returncode: break
            bins[x] = r.stdout.strip().splitlines()[-1]
        else: r = None
        if r: continue
        done += 1; hit = []
        for p in SIM:
            k, s = run(bins[BINS.get(p, 'sim')], p)
            if k: hit.append('%s %d (%s)' % (p, k, s)); break
        print('%s %s:%d: %s  ->  %s || %s' % ('caught' if hit else 'MISSED', f, n + 1, old.strip()[:90], new.strip()[:90], '; '.join(hit)), flush=True)
        for x in bins.values():
            try: os.remove(x)
            except OSError: pass
