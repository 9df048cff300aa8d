#!/usr/bin/env python3
"""check.py PROP [quick|thorough]   decide one property by seeded simulation
   check.py --replay FILE          run one replay file against the current tree

Builds the simulator with /repo's current sources, replays the pinned known
findings, then searches: many simulated jobs, one seed each.  Every violation
is minimised and replayed twice in fresh processes before it is reported.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the
check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import budgets

BUILD = os.environ.get('POLYSIM_BUILD', os.path.join(VERIF, 'build'))
SIM = os.path.join(BUILD, 'polysim')
EVID = os.path.join(VERIF, 'evidence')
CRASH = re.compile(r'^(signal_\d+|exit_\d+|cpu_limit)$')

def die(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)

def klass(c):
    return 'crash' if CRASH.match(c) else c

def build():
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'tools', 'build.py')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-4000:])
        die('the simulator does not build from the current tree')

def replay(path, timeout=120):
    """-> (violated, clause, log hash, text)"""
    try:
        p = subprocess.run([SIM, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    m = re.match(r'(VIOLATED|HELD) (\S+) (\d+)\n(.*)', p.stdout, re.S)
    if not m or p.returncode not in (0, 1):
        return None
    return (m.group(1) == 'VIOLATED', m.group(2), m.group(3), m.group(4).strip())

def findings(prop):
    out = []
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'finding: property=(\S+) replay=(\S+) clauses=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            out.append((os.path.join(VERIF, m.group(2)), m.group(3).split(','), m.group(4).strip()))
    return out

def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        build()
        r = replay(os.path.abspath(sys.argv[2]))
        if r is None:
            die('replay failed')
        print('%s %s: %s' % ('VIOLATED' if r[0] else 'HELD', r[1], r[3]))
        sys.exit(1 if r[0] else 0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    B = budgets.BUDGET[prop]
    t0 = time.time()
    build()
    t_build = time.time() - t0
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='polysim-check.')
    try:
        rc = decide(prop, tier, seed, B, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def gate(prop, v, work, n):
    """minimise, then twice the same in fresh processes; -> replay path or None"""
    src = v['file']
    cand = []
    mini = os.path.join(work, 'min%d' % n)
    try:
        p = subprocess.run([SIM, 'minimise', src, mini, '60'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=150)
        if p.returncode == 0:
            cand.append(mini)
    except subprocess.TimeoutExpired:
        pass
    cand.append(src)
    for c in cand:
        a, b = replay(c), replay(c)
        if a and b and a[0] and b[0] and klass(a[1]) == klass(b[1]) == klass(v['clause']) and (a[2] == b[2]):
            dst = os.path.join(EVID, 'replays', '%s-seed%d.replay' % (prop, v['seed']))
            shutil.copyfile(c, dst)
            return dst, a[1], a[3]
    return None

def decide(prop, tier, seed, B, work, t0, t_build):
    reported = 0
    pinned = []
    # known findings, each by its own replay file
    for path, clauses, what in findings(prop):
        r = replay(path)
        if r is None:
            die('pinned replay %s cannot be run' % path)
        if r[0] and klass(r[1]) in [klass(c) for c in clauses]:
            print('KNOWN-FINDING: property=%s %s' % (prop, what), flush=True)
            pinned.append(os.path.basename(path))
        elif r[0]:
            r2 = replay(path)
            if r2 and r2[:2] == r[:2]:
                dst = os.path.join(EVID, 'replays', prop + '-' + os.path.basename(path))
                shutil.copyfile(path, dst)
                print('%s: %s' % (r[1], r[3]))
                print('VIOLATION property=%s replay=%s' % (prop, dst), flush=True)
                reported += 1
    # replays of repaired defects: must hold
    for path in sorted(p for p in os.listdir(os.path.join(VERIF, 'findings')) if p.startswith('fixed-%s-' % prop)):
        full = os.path.join(VERIF, 'findings', path)
        r = replay(full)
        if r is None:
            die('pinned replay %s cannot be run' % path)
        if r[0]:
            r2 = replay(full)
            if r2 and r2[0] and klass(r2[1]) == klass(r[1]):
                dst = os.path.join(EVID, 'replays', prop + '-' + path)
                shutil.copyfile(full, dst)
                print('a repaired defect is back: %s: %s' % (r[1], r[3]))
                print('VIOLATION property=%s replay=%s' % (prop, dst), flush=True)
                reported += 1
        else:
            pinned.append(path)
    # the search
    workers = 8
    thorough = tier == 'thorough'
    per = (B['quick'] + workers - 1)//workers
    base = (seed*1000003 + (7777777 if thorough else 0)) * 1000000
    cap = B.get('cap', 240)
    count = per
    if thorough:
        count, cap = 100000000, B.get('thorough_s', 600)
    procs = []
    for w in range(workers):
        out = os.path.join(work, 'w%d.json' % w)
        s0 = base + w*100000000 if thorough else base + w*per
        procs.append((out, subprocess.Popen([SIM, 'run', prop, str(s0), str(count), '1' if thorough else '0', out, str(cap), '3'],
                                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    R = []
    for out, p in procs:
        err = p.communicate()[1]
        if p.returncode or not os.path.exists(out):
            die('search worker failed: ' + err[-2000:])
        R.append(json.load(open(out)))
    tot = lambda k: sum(r[k] for r in R)
    def merged(k):
        d = {}
        for r in R:
            for a, b in r[k].items():
                d[a] = d.get(a, 0) + b
        return dict(sorted(d.items()))
    viol = sorted((v for r in R for v in r['violations']), key=lambda v: v['seed'])
    unrep = 0
    tries = []
    seen = {}
    for v in viol:                               # different kinds first
        seen.setdefault(klass(v['clause']), []).append(v)
    while any(seen.values()):
        for k in list(seen):
            if seen[k]:
                tries.append(seen[k].pop(0))
    for n, v in enumerate(tries[:6]):
        if reported:
            break
        g = gate(prop, v, work, n)
        if g:
            print('seed %d: %s: %s' % (v['seed'], g[1], g[2]))
            print('VIOLATION property=%s replay=%s' % (prop, g[0]), flush=True)
            reported += 1
        else:
            unrep += 1
            print('not reported, does not replay: seed %d %s: %s' % (v['seed'], v['clause'], v['text']))
    cover, il = set(), set()
    for r in R:
        cover.update(r['cover']); il.update(r['interleavings'])
    search_s = max(r['wall'] for r in R)
    runs = tot('runs')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': B['level'],
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(cover),
            'rule': B['rule'],
            'samples': [s for r in R for s in r['samples']][:12],
            'simulated_jobs': tot('jobs'),
            'nontrivial_runs': tot('nontrivial'),
            'runs_per_hour': round(3600*runs/max(search_s, 1e-3)),
            'seeds_per_hour': round(3600*runs/max(search_s, 1e-3)),
            'simulated_seconds': round(tot('sim_us')/1e6, 3),
            'scheduler_events': tot('events'), 'mpi_calls': tot('mpi_calls'), 'messages': tot('messages'), 'storage_calls': tot('io_calls'), 'schedule_choices': tot('choices'),
            'distinct_interleavings': len(il),
            'distinct_interleavings_measure': 'hash of the order in which simulated ranks and caller threads pass their scheduling points (MPI calls, storage calls, allocations), without times',
            'faults_fired': merged('faults'), 'runs_in_which_a_fault_fired': merged('fault_runs'), 'fault_free_runs': tot('fault_free_runs'),
            'network': {'rendezvous_sends': tot('rendezvous'), 'late_buffer_reads': tot('late_reads'), 'synchronising_collectives': tot('sync_collectives'), 'long_delays': tot('long_delays'), 'messages_overtaking': tot('crossed')},
            'reach_probes': merged('reach'), 'generator_regimes': merged('labels'),
            'seeds_run_twice': tot('repeated'), 'seeds_not_repeatable': tot('unequal'),
            'components': {'real': B['real'], 'stub': B['stub']},
            'pinned_replays': pinned,
            'build_s': round(t_build, 1), 'search_s': round(search_s, 1),
        },
        'assumptions': B['assumptions'],
        'wall_s': round(time.time() - t0, 1),
        'violations': reported,
    }
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, sort_keys=True)
    if reported:
        return 1
    if unrep:
        die('%d violations did not replay' % unrep)
    if tot('unequal'):
        die('%d seeds are not deterministic' % tot('unequal'))
    if runs == 0 or tot('nontrivial')*10 < runs:
        die('the search reached nothing: %d of %d runs non-trivial' % (tot('nontrivial'), runs))
    print('%s held: %d runs, %d distinct outcomes, %d distinct interleavings, %.0f simulated seconds, %.1f s' % (prop, runs, len(cover), len(il), tot('sim_us')/1e6, time.time() - t0))
    return 0

if __name__ == '__main__':
    main()
