"""Runs the checks: seeded search over simulated runs, minimisation, replay, evidence."""
import json, os, subprocess, sys, time, glob, re, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build
from props import PROPS
VERIF = build.VERIF
NW = 8
ENV = dict(os.environ, LC_ALL='C')

def out_of(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, universal_newlines=True, errors='replace', timeout=timeout, env=ENV)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or '')

def replay(binary, path, timeout=240):
    """-> (signature or None, description)"""
    rc, o = out_of([binary, 'replay', path], timeout)
    for l in o.splitlines():
        if l.startswith('V\t'):
            f = l.split('\t'); return f[1], f[2]
    if rc == -999: return 'hang', 'the replay does not end within %d s' % timeout
    if rc < 0: return 'crash', 'the simulator process was ended by signal %d' % -rc
    return None, ''

def load_known():
    known = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) history=(\S+) signature="([^"]*)" (.*)', l)
            if m: known.append(m.groups())
    return known

def worker_death(prop, log):
    """last seed started by a worker that ended early"""
    last = None; done = False
    for l in log:
        if l.startswith('S '): last = int(l.split()[1])
        if l.startswith('D\t'): done = True
    return None if done else last

def run(prop, tier):
    P = PROPS[prop]; t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    secs = float(os.environ.get('SIM_SECONDS', 0) or P[tier])
    try: binary = build.BUILDERS[P['binary']]()
    except build.BuildError as e:
        print('BUILD FAILED', str(e)[-3000:]); return 2
    build.prune()
    tmp = os.path.join(VERIF, 'build', 'run-%s-%d' % (prop, os.getpid())); os.makedirs(tmp, exist_ok=True)
    rep = os.path.join(VERIF, 'replays'); os.makedirs(rep, exist_ok=True)
    viol = []; known_hit = []; known_gone = []; notes = []
    # 1. known findings: each pinned history still fails in the listed way, or is gone
    kn = [k for k in load_known() if k[0] == prop]
    for (_, hist, sig, what) in kn:
        s, w = replay(binary, os.path.join(VERIF, hist))
        if s is None: known_gone.append(what)
        elif s.startswith(sig): known_hit.append(what)
        else: viol.append((s, w, os.path.join(VERIF, hist), None))
    # 2. regression histories: every defect found and repaired before
    pinned = sorted(glob.glob(os.path.join(VERIF, 'corpus', prop, '*')))
    for f in pinned:
        s, w = replay(binary, f)
        if s: viol.append((s, w, f, None))
    # 3. seeded search
    stat = {}; states = set(); samples = []; runs = 0; blocks = 0; simsecs = 0.
    if not viol:
        procs = []
        base = (seed % 1000003) * 100000000
        for i in range(NW):
            f = open('%s/w%d' % (tmp, i), 'w')
            procs.append((subprocess.Popen([binary, 'run', prop, str(base + i + 1), str(NW), str(secs), '100000000'], stdout=f, stderr=subprocess.DEVNULL, env=ENV), f))
        end = time.time() + secs + 120
        for p, f in procs:
            try: p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired: p.kill(); p.wait()
            f.close()
        found = []
        for i, (p, f) in enumerate(procs):
            log = open('%s/w%d' % (tmp, i), errors='replace').read().splitlines()
            for l in log:
                q = l.split('\t')
                if q[0] == 'V' and len(q) >= 4: found.append((int(q[1]), q[2], q[3], base + i + 1))
                elif q[0] == 'X': samples.append({'seed': int(q[1]), 'history': q[2].replace('|', '\n')[:2500]})
                elif q[0] == 'N':
                    n = int(q[2]); stat[q[1]] = stat.get(q[1], 0) + n
                elif q[0] == 'M': blocks = max(blocks, int(q[1]))
                elif q[0] == 'T': states.update(q[1].split()[1:])
                elif q[0] == 'D': runs += int(q[1]); simsecs += float(q[2])
            last = worker_death(prop, log)
            if last is not None: found.append((last, 'crash', 'the simulator process died (status %s)' % p.returncode, base + i + 1))
        seen = set(); tried = 0
        for (s, sig, what, start) in sorted(found, key=lambda x: (x[1] == 'crash', x[0])):
            if sig in seen: continue
            seen.add(sig); tried += 1
            if tried > 6 or len(viol) >= 3: break
            path = '%s/%s-%d.replay' % (rep, prop, s); raw = '%s/raw-%d' % (tmp, s)
            rc, h = out_of([binary, 'gen', prop, str(s)], 60); open(raw, 'w').write(h)
            s1, w1 = replay(binary, raw)
            if s1:
                rc, m = out_of([binary, 'min', raw, '15' if tier == 'quick' else '60'], 150)
                open(path, 'w').write(m if rc == 0 and m.strip() and s1 not in ('crash', 'hang') else h)
                a, wa = replay(binary, path)
                if not a: open(path, 'w').write(h); a, wa = replay(binary, path)
            else:                      # depends on histories run before it in the same process
                k = 2; n = (s - start) // NW + 1; a = None
                while True:
                    k = min(k, n); open(path, 'w').write('seq %s %d %d %d\n' % (prop, s - (k - 1) * NW, NW, k))
                    a, wa = replay(binary, path, 400)
                    if a or k >= n: break
                    k *= 4
            if not a: notes.append('seed %d (%s) did not reproduce' % (s, sig)); continue
            b, wb = replay(binary, path, 400)
            if (a, wa) != (b, wb): notes.append('seed %d (%s) replays differently: %s / %s' % (s, sig, wa, wb))
            viol.append((a, wa, path, s))
    wall = time.time() - t0
    n = lambda k: stat.get(k, 0)
    faults = {k[6:]: v for k, v in stat.items() if k.startswith('fault:')}
    ev = {  'violations_found': [{'signature': a, 'what': b, 'replay': os.path.relpath(c, VERIF), 'seed': d} for a, b, c, d in viol],
        'property': prop, 'tier': tier, 'seed': seed, 'level': P['level'], 'wall_s': round(wall, 2),
        'coverage': {
            'evaluations': runs, 'distinct_nontrivial': n('@nontrivial'),
            'rule': P['rule'], 'samples': samples[:3] or [{'note': 'search not started: a pinned history already fails'}],
            'runs_per_hour': int(runs / simsecs * NW * 3600) if simsecs else 0, 'seeds_per_hour': int(runs / simsecs * NW * 3600) if simsecs else 0,
            'simulated_time_steps': n('@steps'), 'simulated_time_unit': 'branches taken inside the code under test (the system has no clock; its only time is work done)',
            'faults_fired': faults, 'distinct_states': len(states), 'state_measure': P.get('state', 'hash of (operation, solver, exact sequence of basic blocks run by the call)'),
            'distinct_histories': n('@distinct histories'), 'basic_blocks_reached': blocks, 'counters': {k: v for k, v in sorted(stat.items()) if not k.startswith(('@', 'fault:'))},
            'real_components': P['real'], 'stubbed_components': P['stub'],
            'pinned_histories_replayed': len(pinned), 'known_findings_replayed': len(kn), 'known_findings_not_seen': known_gone, 'notes': notes,
        },
        'assumptions': P['assumes'], 'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    for w in known_hit: print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for a, b, c, d in viol: print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(c, VERIF))); print('  %s: %s' % (a, b))
    if not viol: print('%s: held in %d simulated runs (%d nontrivial), %.0f s' % (prop, runs, ev['coverage']['distinct_nontrivial'], wall))
    return 1 if viol else 0
