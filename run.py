#!/usr/bin/env python3
"""Builds one property's simulation from /repo's working tree and searches seeds for violations.

  run.py P01 [--tier quick|thorough] [--seed N] [--time S]   check one property
  run.py --replay FILE                                       replay a stored violation
  run.py --build P01                                         build only, print the binary
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, VERIF)
from checks import CHECKS, GROUPS

SIM = os.path.join(VERIF, 'sim')
COMMON = ['-w', '-g1', '-fno-pie', '-DBOOST_DISABLE_PRAGMA_MESSAGE', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS',
          '-DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS', '-DBOOST_ALLOW_DEPRECATED_HEADERS', '-DNDEBUG']
INC = ['-I' + SIM + '/include', '-I' + SIM + '/shim', '-I' + SIM, '-I' + REPO + '/include']
PIONINC = ['-include', 'boost/logic/tribool_io.hpp']
TSAN = ['-O1', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-omit-frame-pointer']
ASAN = ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-sanitize-recover=all']
LIBS = ['-lboost_thread', '-lboost_system', '-lboost_filesystem', '-lboost_date_time', '-lboost_regex', '-lboost_chrono', '-lboost_random', '-lssl', '-lcrypto', '-lz', '-lpthread', '-ldl']


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def tree_files(*dirs):
    out = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            out += [os.path.join(root, f) for f in sorted(fs) if f.endswith(('.cpp', '.hpp', '.h', '.c', '.S'))]
    return out


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def compile_one(job):
    src, obj, cmd = job
    if os.path.exists(obj):
        return None
    tmp = obj + '.tmp%d' % os.getpid()
    r = sh(cmd + ['-c', src, '-o', tmp])
    if r.returncode:
        return 'compiling %s failed:\n%s' % (src, r.stdout[-6000:])
    os.rename(tmp, obj)
    return None


def build(group):
    g = GROUPS[group]
    lite = g.get('variant') == 'asan'
    headers = tree_files(SIM + '/core', SIM + '/shim', SIM + '/include', SIM + '/harness')
    pion_h = tree_files(REPO + '/include', REPO + '/services', REPO + '/src')
    base = digest([f for f in headers if '/harness/' not in f or f.endswith('.hpp')] + pion_h, group + str(sorted(g.items())) + ' '.join(COMMON))
    core_key = digest([f for f in headers if '/core/' in f or '/shim/' in f or '/include/' in f], 'core-nts' + str(lite) + ' '.join(COMMON))
    od, cd = os.path.join(BUILD, group + '-' + base), os.path.join(BUILD, 'core-' + core_key)
    os.makedirs(od, exist_ok=True); os.makedirs(cd, exist_ok=True)
    jobs, objs = [], []
    inst = ASAN if lite else TSAN
    defs = ['-DSIM_LITE'] if lite else []
    core = ['base.cpp'] if lite else ['base.cpp', 'fiber.cpp', 'rt.cpp', 'net.cpp'] + g.get('core', [])
    for c in core:
        o = os.path.join(cd, c + '.o'); objs.append(o)
        flags = ['-std=c++17', '-O2', '-fno-threadsafe-statics'] + COMMON + defs + INC + (['-fsanitize=address'] if lite else [])
        if c == 'net.cpp':
            flags = [x for x in flags if x != '-I' + SIM + '/shim']
        jobs.append((os.path.join(SIM, 'core', c), o, ['clang++'] + flags))
    for s in g['sources']:
        o = os.path.join(od, s.replace('/', '_') + '.o'); objs.append(o)
        jobs.append((os.path.join(REPO, s), o, ['clang++', '-std=c++14'] + COMMON + defs + inst + INC + ['-I' + REPO + '/services'] + PIONINC + g.get('defs', [])))
    for s in g['harness']:
        o = os.path.join(od, 'h_' + digest([os.path.join(SIM, 'harness', s)]) + '_' + s + '.o'); objs.append(o)
        jobs.append((os.path.join(SIM, 'harness', s), o, ['clang++', '-std=c++14'] + COMMON + defs + inst + INC + ['-I' + REPO + '/services', '-I' + REPO + '/src'] + PIONINC + g.get('defs', [])))
    for s in g.get('uninstrumented', []):
        o = os.path.join(od, 'u_' + digest([os.path.join(SIM, 'harness', s)]) + '_' + s + '.o'); objs.append(o)
        jobs.append((os.path.join(SIM, 'harness', s), o, ['clang++', '-std=c++17', '-O2'] + COMMON + defs + INC + g.get('defs', [])))
    exe = os.path.join(od, 'sim-' + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:10])
    if os.path.exists(exe):
        return exe
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        raise CheckError('\n'.join(errs))
    link = ['clang++', '-no-pie', '-rdynamic'] + (['-fsanitize=address'] if lite else []) + objs + ['-o', exe + '.tmp'] + g.get('libs', []) + LIBS
    r = sh(link)
    if r.returncode:
        raise CheckError('link failed:\n' + r.stdout[-6000:])
    os.rename(exe + '.tmp', exe)
    return exe


def env():
    e = dict(os.environ)
    for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS', 'TSAN_OPTIONS', 'LD_PRELOAD'):
        e.pop(k, None)
    e.update(LC_ALL='C', TZ='UTC')
    return e


def symbolise(exe, text):
    def sub(m):
        try:
            r = subprocess.run(['addr2line', '-C', '-f', '-s', '-e', exe, hex(int(m.group(2), 16) - 1)], stdout=subprocess.PIPE, text=True, timeout=20).stdout.split('\n')
            return '%s(%s %s)' % (m.group(1), r[0][:90], r[1])
        except Exception:
            return m.group(0)
    text = re.sub(r'(#\d+ )(0x[0-9a-f]+)  \(' + re.escape(exe) + r'\+0x[0-9a-f]+\)( \(BuildId: \w+\))?', sub, text)
    return re.sub(r'\((pc )(0x[0-9a-f]+)\)', sub, text)


def replay(exe, path):
    r = subprocess.run([exe, '--replay', path], stdout=subprocess.PIPE, text=True, errors='replace', env=env(), timeout=300)
    return r.returncode, r.stdout


def exact(r):
    """what has to be equal between two replays: everything but process ids and the addresses AddressSanitizer prints"""
    return r[0], re.sub(r'==\d+==|0x[0-9a-f]+|\(BuildId: \w+\)', '', r[1]) if 'AddressSanitizer' in r[1] else r[1]


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) class=(\S+) match=/(.*)/ (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--time', type=float)
    ap.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--replay'); ap.add_argument('--build')
    ap.add_argument('--no-minimise', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    if a.build:
        print(build(CHECKS[a.build]['group'])); return 0
    if a.replay:
        pid = [l.split()[1] for l in open(a.replay) if l.startswith('property ')][0]
        exe = build(CHECKS[pid]['group'])
        rc, out = replay(exe, a.replay)
        print(symbolise(exe, out)); return rc
    pid = a.prop; c = CHECKS[pid]
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    exe = build(c['group'])
    tb = time.time() - t0
    budget = a.time or (c.get('quick_time', 25) if a.tier == 'quick' else c.get('thorough_time', 600))
    tmp = tempfile.mkdtemp(prefix='vrun.', dir='/tmp')
    try:
        return search(a, pid, c, exe, tmp, budget, tb, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def search(a, pid, c, exe, tmp, budget, tb, t0):
    procs = []
    maxruns = a.runs or (c.get('quick_runs') if a.tier == 'quick' else None)
    for i in range(a.workers):
        cmd = [exe, '--worker', '%d/%d' % (i, a.workers), '--prop', pid, '--seed', str(a.seed), '--time', str(budget), '--out', '%s/w%d' % (tmp, i)]
        if maxruns:
            cmd += ['--runs', str(maxruns // a.workers + 1)]
        procs.append(subprocess.Popen(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    pend = set(range(a.workers)); bad = None
    deadline = time.time() + budget + 120
    while pend:
        for i in sorted(pend):
            if procs[i].poll() is not None:
                pend.discard(i)
                w = '%s/w%d' % (tmp, i)
                if os.path.exists(w):
                    d = json.load(open(w))
                    if (d['violation'] or d['nondet']) and bad is None:
                        bad = i
                        for j in pend:      # one violation decides; stop the others
                            procs[j].terminate()
                elif bad is None:
                    raise CheckError('worker %d ended with %s: %s' % (i, procs[i].returncode, procs[i].stderr.read()[-2000:]))
        if time.time() > deadline:
            for j in pend:
                procs[j].kill()
            raise CheckError('workers did not finish in time')
        time.sleep(0.05)
    tot = dict(runs=0, ended=0, repeat_checked=0, simtime=0.0, sync=0, mem=0, switches=0, nontrivial=0)
    cnt = {}; hashes, shashes = set(), set(); swall = 0
    for i in range(a.workers):
        w = '%s/w%d' % (tmp, i)
        if not os.path.exists(w):
            continue
        d = json.load(open(w))
        for k in tot:
            tot[k] += d[k]
        swall = max(swall, d['wall'])
        for k, (v, r) in d['counters'].items():
            x = cnt.setdefault(k, [0, 0]); x[0] += v; x[1] += r
        for suf, st in (('.hash', hashes), ('.shash', shashes)):
            with open(w + suf, 'rb') as fh:
                b = fh.read()
            st.update(memoryview(b).cast('Q').tolist() if b else [])
    viol = []; kf_hit = []
    rc = 0
    if bad is not None:
        d = json.load(open('%s/w%d' % (tmp, bad)))
        if d['nondet']:
            raise CheckError('the simulation is not deterministic: ' + d['ndmsg'])
        rp = '%s/w%d.replay' % (tmp, bad)
        # gate 1: the recorded choices reproduce the violation in a fresh process, twice, with the same event hash
        r1, r2 = replay(exe, rp), replay(exe, rp)
        if r1[0] != 1 or exact(r1) != exact(r2):
            raise CheckError('violation did not replay exactly (%s / %s): %s\n%s\n%s' % (r1[0], r2[0], d['message'], r1[1], r2[1]))
        final = rp
        mini = None
        if not a.no_minimise:
            mp = tmp + '/min.replay'
            r = subprocess.run([exe, '--minimise', rp, '--out', mp, '--budget', '40' if a.tier == 'quick' else '120'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env())
            if r.returncode == 0:
                # gate 2: so does the minimised file
                r3, r4 = replay(exe, mp), replay(exe, mp)
                if r3[0] == 1 and exact(r3) == exact(r4):
                    final = mp; mini = json.loads(r.stdout)
                else:
                    print('note: the minimised replay was not exact; the unminimised one is kept')
        os.makedirs(VERIF + '/replays', exist_ok=True)
        dst = '%s/replays/%s-seed%d-run%d.replay' % (VERIF, pid, a.seed, d['vrun'])
        shutil.copy(final, dst)
        msg = symbolise(exe, replay(exe, final)[1].split('\n', 1)[1].strip())
        print('violation class: %s (run %d, found after %d runs)' % (d['class'], d['vrun'], tot['runs']))
        print(msg)
        if mini:
            print('minimised to %d choice values, %d scheduling decisions, %d memory preemptions in %d attempts' % (mini['stream_values'], mini['sched'], mini['mem'], mini['tries']))
        for cls, rx, what in known_findings(pid):
            if cls == d['class'] and rx.search(msg):
                kf_hit.append(what)
        if kf_hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf_hit[0]))
        else:
            print('VIOLATION property=%s replay=%s' % (pid, dst)); rc = 1
        viol.append(d['class'])
    faults = {k[6:]: {'fired': v[0], 'runs': v[1]} for k, v in sorted(cnt.items()) if k.startswith('fault.')}
    probes = {k[6:]: {'hits': v[0], 'runs': v[1]} for k, v in sorted(cnt.items()) if k.startswith('probe.')}
    other = {k: v[0] for k, v in sorted(cnt.items()) if not k.startswith(('fault.', 'probe.'))}
    hours = max(swall, 0.001) / 3600
    g = GROUPS[c['group']]
    samples = [{'seed': a.seed, 'run': k, 'how': "'%s --prop %s --seed %d --one %d --trace' prints this run's event log" % (os.path.basename(exe), pid, a.seed, k)} for k in range(2)]
    try:
        o = subprocess.run([exe, '--prop', pid, '--seed', str(a.seed), '--one', '3', '--trace'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env(), timeout=60)
        samples.append({'seed': a.seed, 'run': 3, 'event_log_head': o.stderr.split('\n')[:25]})
    except Exception:
        pass
    ev = {'property': pid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol) - len(kf_hit),
          'coverage': {
              'evaluations': tot['runs'], 'distinct_nontrivial': min(len(hashes), tot['nontrivial']),
              'rule': 'one evaluation = one complete simulated run (own process image, workload, schedule, clock and faults drawn from VERIF_SEED and the run number); distinct by the hash of its full event log (workload, scheduling, delivery and harness events), non-trivial if it checked at least one oracle condition or took more than 20 scheduling steps',
              'samples': samples,
              'simulated_runs': tot['runs'], 'runs_per_hour': int(tot['runs'] / hours), 'simulated_seconds': round(tot['simtime'], 1),
              'distinct_schedules': len(shashes), 'distinct_schedules_measure': 'hash of the sequence of (thread, synchronisation operation, switch target)',
              'sync_points': tot['sync'], 'memory_access_points': tot['mem'], 'context_switches': tot['switches'],
              'oracle_evaluations': cnt.get('evals', [0, 0])[0], 'fault_kinds': faults, 'probes': probes, 'other_counters': other,
              'runs_ended_early': tot['ended'], 'runs_repeated_for_determinism': tot['repeat_checked'],
              'real_code': g['sources'] + g.get('real', []), 'stubs': g.get('stubs', []), 'build_s': round(tb, 1), 'workers': a.workers},
          'assumptions': c.get('assumptions', []) + ['a clean batch is evidence, not proof: schedules and faults are sampled']}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (VERIF, pid), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d runs (%d distinct executions, %d distinct schedules), %.0f simulated s, %d oracle evaluations, build %.0f s, search %.0f s%s' % (
        pid, tot['runs'], len(hashes), len(shashes), tot['simtime'], cnt.get('evals', [0, 0])[0], tb, swall, '' if rc else ' - held' if not viol else ''))
    return rc


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('CHECK-ERROR: %s' % e); sys.exit(2)
