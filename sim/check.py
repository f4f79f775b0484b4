#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py PROPERTY quick|thorough     decide one property (exit 0 held, 1 VIOLATION, 2 error of the check)
  check.py --replay FILE               replay a violation
  check.py --list                      properties and their scenarios

Builds the scenarios from /repo's working tree, searches over seeds on all cores, confirms, minimises and writes every
violation as a replay file, and writes the evidence file.
"""
import sys, os, json, time, subprocess, re, tempfile, struct, shutil, hashlib, glob, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
sys.path.insert(0, HERE)
from props import PROPS, BINARIES

EVID = os.path.join(VERIF, 'evidence')
WORKERS = int(os.environ.get('SIM_WORKERS', '8'))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)


# ------------------------------------------------------------------ build
def build(binaries, bdir):
    os.makedirs(bdir, exist_ok=True)
    rt = os.path.join(HERE, 'rt')
    jobs = []

    def job(cmd, out):
        jobs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), cmd, out))

    rto = []
    for src in ('rt.cpp', 'disk.cpp'):
        o = os.path.join(bdir, src + '.o')
        rto.append(o)
        job(['g++', '-std=c++20', '-O2', '-g', '-Wno-maybe-uninitialized', '-c', os.path.join(rt, src), '-o', o], o)
    o = os.path.join(bdir, 'rt_mem.o')
    rto.append(o)
    job(['gcc', '-O2', '-fno-builtin', '-fno-tree-loop-distribute-patterns', '-c', os.path.join(rt, 'rt_mem.c'), '-o', o], o)
    links = []
    for b in binaries:
        cfg = BINARIES[b]
        objs = []
        inc = [x.replace('/repo', REPO, 1) if x.startswith('-I/repo') else x for x in cfg['flags']]
        srcs = [os.path.join(HERE, 'scn', cfg['src'])]
        for pat in cfg.get('lib', []):
            srcs += sorted(glob.glob(os.path.join(REPO, pat)))
        units = [(s, []) for s in srcs]
        if cfg.get('parts'):
            units = [(srcs[0], ['-DPART=%d' % i]) for i in range(cfg['parts'])] + units[1:]
        for s, part in units:
            o = os.path.join(bdir, b + '_' + hashlib.md5((s + ''.join(part)).encode()).hexdigest()[:8] + '.o')
            objs.append(o)
            job(['g++', '-O1', '-g1', '-fsanitize=thread', '-w', '-I' + rt, '-I' + os.path.join(HERE, 'scn')] + inc + part + ['-c', s, '-o', o], o)
        links.append((b, objs))
    errs = []
    for p, cmd, out in jobs:
        t, _ = p.communicate()
        if p.returncode:
            errs.append(' '.join(cmd) + '\n' + t[-6000:])
    if errs:
        die('build failed\n' + '\n'.join(errs))
    ps = []
    for b, objs in links:
        out = os.path.join(bdir, b)
        ps.append((subprocess.Popen(['g++', '-no-pie', '-rdynamic'] + objs + rto + ['-ldl', '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out))
    for p, out in ps:
        t, _ = p.communicate()
        if p.returncode:
            die('link failed\n' + t[-6000:])
    return {b: os.path.join(bdir, b) for b in binaries}


# ------------------------------------------------------------------ one process
ENV = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LC_ALL': 'C'}


def setarch(cmd):
    return cmd


def run_bin(path, args, timeout=180):
    try:
        p = subprocess.run(setarch([path] + args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=ENV, errors='replace')
    except subprocess.TimeoutExpired:
        return None, -1, 'timeout'
    line = None
    for l in p.stdout.splitlines():
        if l.startswith('{"outcome"'):
            line = l
    try:
        return (json.loads(line) if line else None), p.returncode, p.stderr
    except ValueError:
        return None, p.returncode, p.stderr + p.stdout


def write_decisions(path, meta, decisions, extra=''):
    with open(path, 'w') as f:
        for k, v in meta.items():
            f.write('# %s=%s\n' % (k, str(v).replace('\n', ' ')))
        seed = int(meta['seed'])
        f.write('SEED %d %d\nWARM %d\n' % (seed >> 32, seed & 0xffffffff, int(meta['warm'])))
        for k, i, v in decisions:
            f.write('%s %d %d\n' % (k, i, v))
        f.write(extra)


def replay(binpath, scen, meta, decisions, tmp, logfile=None):
    f = os.path.join(tmp, 'r%d.txt' % os.getpid())
    write_decisions(f, meta, decisions)
    a = ['--scenario', scen, '--replay', f]
    if logfile:
        a += ['--log', logfile]
    return run_bin(binpath, a, 200)


def minimise(binpath, scen, meta, cls, decisions, tmp, budget):
    t0 = time.time()
    tests = 0

    def bad(d):
        nonlocal tests
        tests += 1
        r, rc, _ = replay(binpath, scen, meta, d, tmp)
        return r is not None and r.get('outcome') == 'violation' and r.get('class') == cls

    cur = list(decisions)
    # drop decisions (a dropped decision takes its benign default)
    n = 2
    while len(cur) >= 1 and time.time() - t0 < budget:
        size = max(1, len(cur) // n)
        changed = False
        i = 0
        while i < len(cur) and time.time() - t0 < budget:
            cand = cur[:i] + cur[i + size:]
            if bad(cand):
                cur = cand
                changed = True
            else:
                i += size
        if size == 1 and not changed:
            break
        if not changed:
            n = min(len(cur), n * 2) or 1
        if n > len(cur):
            n = max(1, len(cur))
        if size == 1 and changed:
            n = max(1, len(cur))
    # smaller arguments
    for i in range(len(cur)):
        while cur[i][2] > 1 and time.time() - t0 < budget:
            for v in (1, cur[i][2] // 2, cur[i][2] - 1):
                if 0 < v < cur[i][2]:
                    cand = list(cur)
                    cand[i] = [cur[i][0], cur[i][1], v]
                    if bad(cand):
                        cur = cand
                        break
            else:
                break
    return cur, tests


def symbolise(binpath, text):
    addrs = sorted(set(re.findall(r'0x4[0-9a-f]{5}\b', text)))
    if not addrs:
        return ''
    try:
        p = subprocess.run(['addr2line', '-Cfpe', binpath] + addrs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        return ''.join('%s = %s\n' % (a, l) for a, l in zip(addrs, p.stdout.splitlines()))
    except Exception:
        return ''


def known_findings():
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) scenario=(\S+) class=(\S+) match=/(.*?)/ (.*)$', l)
            if m:
                res.append(dict(property=m.group(1), scenario=m.group(2), cls=m.group(3), match=m.group(4), text=m.group(5)))
    return res


# ------------------------------------------------------------------ search
class Worker:
    def __init__(self, wid, scen, binpath, base, start, step, secs, tmp):
        self.scen, self.binpath, self.base, self.start, self.step, self.secs = scen, binpath, base, start, step, secs
        self.hash = os.path.join(tmp, 'h_%s_%d_%d' % (scen, wid, start))
        self.t0 = time.time()
        self.out = open(self.hash + '.out', 'w+')
        self.err = open(self.hash + '.err', 'w+')
        self.p = subprocess.Popen([binpath, '--scenario', scen, '--base', str(base), '--start', str(start), '--step', str(step), '--secs', str(secs), '--hashes', self.hash],
                                  stdout=self.out, stderr=self.err, env=ENV)

    def result(self):
        self.out.seek(0)
        r = None
        for l in self.out.read().splitlines():
            if l.startswith('{"outcome"'):
                try:
                    r = json.loads(l)
                except ValueError:
                    pass
        self.err.seek(0)
        e = self.err.read()
        self.out.close()
        self.err.close()
        return r, self.p.returncode, e


def read_hashes(p):
    try:
        d = open(p, 'rb').read()
        return set(struct.unpack('<%dQ' % (len(d) // 8), d[:len(d) // 8 * 8]))
    except OSError:
        return set()


def check(pid, tier):
    t_start = time.time()
    prop = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    base = seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16)
    scens = prop['scenarios']
    bdir = os.path.join(VERIF, 'build', '%s_%s_%d' % (pid, tier, os.getpid()))
    tmp = tempfile.mkdtemp(prefix='simchk_')
    try:
        bins = build(sorted(set(s['bin'] for s in scens)), bdir)
        t_build = time.time() - t_start
        total = float(os.environ.get('SIM_SECS', prop.get(tier, 20 if tier == 'quick' else 420)))
        wsum = sum(s.get('weight', 1) for s in scens)
        known = [k for k in known_findings() if k['property'] == pid]
        seen_known = {}
        agg = {}
        violation = None

        # determinism: the same seeds in different processes with a different distribution over processes give the same hashes
        det_runs = 0
        for s in scens:
            n = 160 if tier == 'quick' else 2000
            b = bins[s['bin']]
            ps = [subprocess.Popen([b, '--scenario', s['name'], '--base', str(base), '--start', str(st), '--step', str(sp), '--count', str(c), '--secs', '60', '--dump-hashes'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV)
                  for st, sp, c in ((0, 1, n), (0, 2, n // 2), (1, 2, n // 2))]
            outs = []
            bad = False
            for p in ps:
                o, e = p.communicate()
                if p.returncode == 3:
                    bad = True
                elif p.returncode != 0:
                    die('scenario %s ends with %d: %s' % (s['name'], p.returncode, e[-2000:]))
                outs.append(dict(l.split() for l in o.splitlines() if re.match(r'^\d+ [0-9a-f]{16}$', l)))
            if not bad:
                m = dict(outs[1])
                m.update(outs[2])
                if m != outs[0]:
                    diff = [k for k in outs[0] if m.get(k) != outs[0][k]][:5]
                    die('scenario %s is not deterministic, seeds %s' % (s['name'], diff))
                det_runs += n

        for s in scens:
            secs = total * s.get('weight', 1) / wsum
            b = bins[s['bin']]
            a = agg.setdefault(s['name'], dict(runs=0, nontrivial=0, sim_ns=0, steps=0, switches=0, faults={}, probes={}, hashes=set(), states=set(), wall=0.0))
            t0 = time.time()
            ws = [Worker(w, s['name'], b, base, w, WORKERS, secs, tmp) for w in range(WORKERS)]
            found = []
            while ws:
                time.sleep(0.01)
                for w in list(ws):
                    if w.p.poll() is None:
                        if time.time() - w.t0 > secs + 240:
                            w.p.kill()
                            die('scenario %s hangs' % s['name'])
                        continue
                    ws.remove(w)
                    r, rc, err = w.result()
                    if r is None:
                        for x in ws:
                            x.p.kill()
                        die('scenario %s ends with %s without a result: %s' % (s['name'], rc, err[-2000:]))
                    if r['outcome'] == 'done':
                        for k in ('runs', 'nontrivial', 'sim_ns', 'steps', 'switches'):
                            a[k] += r[k]
                        for k in ('faults', 'probes'):
                            for n, v in r[k].items():
                                a[k][n] = a[k].get(n, 0) + v
                        a['hashes'] |= read_hashes(w.hash)
                        a['states'] |= read_hashes(w.hash + '.states')
                    else:
                        kf = [k for k in known if (k['scenario'] in ('*', s['name'])) and k['cls'] == r['class'] and re.search(k['match'], r['msg'])]
                        if kf:
                            seen_known[kf[0]['text']] = seen_known.get(kf[0]['text'], 0) + 1
                            left = w.secs - (time.time() - w.t0)
                            if left > 0.3 and not r['warm']:
                                ws.append(Worker(0, s['name'], b, base, r['index'] + WORKERS, WORKERS, left, tmp))
                        else:
                            found.append(r)
                            for x in ws:
                                x.p.terminate()
                            for x in ws:
                                x.p.wait()
                            ws = []
                            break
            a['wall'] += time.time() - t0
            if found:
                violation = (s, found[0])
                break

        status = 0
        replay_path = None
        if violation:
            s, r = violation
            b = bins[s['bin']]
            meta = dict(property=pid, scenario=s['name'], binary=s['bin'], seed=r['seed'], warm=0 if r['warm'] else 16, **{'class': r['class']}, msg=r['msg'])
            # the same seed again, without recorded decisions
            chk = []
            for i in range(2):
                q, rc, e = run_bin(b, ['--scenario', s['name'], '--seed', str(r['seed']), '--warm', str(meta['warm'])])
                chk.append((q or {}).get('class'))
                hs = (q or {}).get('hash')
                chk.append(hs)
            if r['warm'] == 0 and (chk[0] != r['class'] or chk[0] != chk[2] or chk[1] != chk[3] or chk[1] != r['hash']):
                die('violation does not repeat: %s %s, then %s' % (r['class'], r['msg'], chk))
            if r['warm'] and (chk[0] is None or chk[:2] != chk[2:]):
                die('violation in a warm-up run does not repeat: %s %s, then %s' % (r['class'], r['msg'], chk))
            if r['warm']:
                q, rc, e = run_bin(b, ['--scenario', s['name'], '--seed', str(r['seed']), '--warm', '0'])
                if not q or q['outcome'] != 'violation':
                    die('violation in a warm-up run does not repeat')
                r = q
                meta['class'] = r['class']
                meta['msg'] = r['msg']
            q, rc, e = replay(b, s['name'], meta, r['trace'], tmp)
            if not q or q.get('class') != r['class']:
                die('the recorded decisions do not reproduce %s (%s): %s' % (r['class'], r['msg'], (q or {}).get('class')))
            dec, tests = minimise(b, s['name'], meta, r['class'], r['trace'], tmp, 60 if tier == 'quick' else 240)
            lg = os.path.join(tmp, 'log.txt')
            q, rc, e = replay(b, s['name'], meta, dec, tmp, lg)
            q2, _, _ = replay(b, s['name'], meta, dec, tmp)
            if not q or not q2 or q.get('class') != r['class'] or q.get('hash') != q2.get('hash'):
                die('the minimised trace does not reproduce the violation')
            meta['msg'] = q['msg']
            meta['minimised'] = '%d of %d decisions left, %d tests' % (len(dec), len(r['trace']), tests)
            os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
            replay_path = os.path.join(EVID, 'replays', '%s_%s_%d.replay' % (pid, s['name'], r['seed']))
            try:
                lines = open(lg, errors='replace').read().splitlines()
            except OSError:
                lines = []
            if len(lines) > 400:
                lines = lines[:100] + ['...'] + lines[-300:]
            extra = '# ---- schedule and fault trace\n' + ''.join('# %s\n' % l for l in lines)
            extra += '# ---- stacks\n' + ''.join('# thread %d: %s\n' % (st['fiber'], ' '.join(st['pcs'])) for st in q.get('stacks', []))
            extra += ''.join('# %s\n' % l for l in symbolise(b, json.dumps(q.get('stacks', [])) + q['msg']).splitlines())
            write_decisions(replay_path, meta, dec, extra)
            status = 1

        wall = time.time() - t_start
        runs = sum(a['runs'] for a in agg.values())
        search_wall = sum(a['wall'] for a in agg.values()) or 1e-9
        faults, probes = {}, {}
        for a in agg.values():
            for n, v in a['faults'].items():
                faults[n] = faults.get(n, 0) + v
            for n, v in a['probes'].items():
                probes[n] = probes.get(n, 0) + v
        samples = []
        for s in scens:
            if violation:
                break
            lg = os.path.join(tmp, 's.txt')
            q, rc, e = run_bin(bins[s['bin']], ['--scenario', s['name'], '--base', str(base), '--start', '7', '--count', '1', '--secs', '1', '--log', lg])
            try:
                ls = open(lg, errors='replace').read().splitlines()
            except OSError:
                ls = []
            samples.append(dict(scenario=s['name'], log=ls[:40]))
        if violation:
            samples.append(dict(scenario=violation[0]['name'], violation=violation[1]['msg'], trace=violation[1]['trace'][:200]))
        if not violation and runs == 0:
            die('no runs')
        # Conditions a run of this check is expected to reach. A change of the code may make one unreachable without breaking
        # the property (no weak compare-exchange, no allocation), so this is reported and does not decide.
        unreached = [n for n in prop.get('must', []) if not (faults.get(n) or probes.get(n))]
        if not violation:
            for n in unreached:
                print('NOTE: the condition "%s" was never reached' % n)
        ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
                  coverage=dict(
                      evaluations=runs,
                      distinct_nontrivial=sum(len(a['hashes']) for a in agg.values()),
                      rule='One evaluation is one simulated run decided by one seed. A run is non-trivial if at least one schedule, clock or fault decision differs from the benign default; runs are distinct by a hash over the sequence of scheduling points with the thread chosen at each, all recorded events and results, and the final clock.',
                      samples=samples,
                      seeds_per_hour=int(runs / search_wall * 3600),
                      simulated_time_s=sum(a['sim_ns'] for a in agg.values()) / 1e9,
                      scheduling_points=sum(a['steps'] for a in agg.values()),
                      context_switches=sum(a['switches'] for a in agg.values()),
                      faults_injected=faults,
                      conditions_reached=probes,
                      conditions_not_reached=unreached,
                      distinct_states=sum(len(a['states']) for a in agg.values()),
                      distinct_states_measure=prop.get('states', 'hashes which the scenarios report for the state of the object under test'),
                      per_scenario={n: dict(runs=a['runs'], nontrivial=a['nontrivial'], distinct=len(a['hashes']), states=len(a['states']), wall_s=round(a['wall'], 2)) for n, a in agg.items()},
                      determinism_selftest=dict(seeds_run_twice=det_runs, mismatches=0),
                      known_findings_seen=seen_known,
                      real_components=prop['real'], stub_components=prop['stub'],
                      build_s=round(t_build, 2)),
                  assumptions=prop['assumptions'], wall_s=round(wall, 2), violations=1 if violation else 0)
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + '.json.tmp'), 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(os.path.join(EVID, pid + '.json.tmp'), os.path.join(EVID, pid + '.json'))
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
        if violation:
            print('scenario %s, seed %d: %s: %s' % (violation[0]['name'], violation[1]['seed'], meta['class'], meta['msg']))
            print('VIOLATION property=%s replay=%s' % (pid, replay_path), flush=True)
        else:
            print('%s held: %d runs, %d distinct, %d seeds/hour, %.0f simulated s, faults %s' % (pid, runs, ev['coverage']['distinct_nontrivial'], ev['coverage']['seeds_per_hour'], ev['coverage']['simulated_time_s'], faults))
        return status
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


def do_replay(path):
    meta = {}
    for l in open(path):
        m = re.match(r'# (\w+)=(.*)$', l)
        if m and m.group(1) not in meta:
            meta[m.group(1)] = m.group(2)
    bdir = os.path.join(VERIF, 'build', 'replay_%d' % os.getpid())
    try:
        bins = build([meta['binary']], bdir)
        r, rc, e = run_bin(bins[meta['binary']], ['--scenario', meta['scenario'], '--replay', os.path.abspath(path), '--log', '-'])
        if r is None:
            die('no result: ' + e)
        if r['outcome'] != 'violation':
            print('no violation')
            return 0
        print('%s: %s' % (r['class'], r['msg']))
        print(symbolise(bins[meta['binary']], json.dumps(r['stacks']) + r['msg']))
        print('VIOLATION property=%s replay=%s' % (meta['property'], path))
        return 1
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


if __name__ == '__main__':
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        sys.exit(do_replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == '--selftest':
        # the compilers work and the runtime builds
        d = os.path.join(VERIF, 'build', 'selftest_%d' % os.getpid())
        try:
            build([], d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print('ok')
        sys.exit(0)
    if len(sys.argv) >= 2 and sys.argv[1] == '--list':
        for p, c in PROPS.items():
            print(p, ', '.join(s['name'] for s in c['scenarios']))
        sys.exit(0)
    if len(sys.argv) < 3 or sys.argv[1] not in PROPS or sys.argv[2] not in ('quick', 'thorough'):
        print(__doc__)
        sys.exit(2)
    sys.exit(check(sys.argv[1], sys.argv[2]))
