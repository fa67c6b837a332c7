#!/usr/bin/env python3
"""Decides one property of properties.jsonl by deterministic simulation with fault injection.

usage: check.py PROPERTY [quick|thorough]        (VERIF_SEED, VERIF_TIER; K8PSH_REPO names another source tree)

Builds the simulator with the sources of /repo's working tree, explores seeds with one process per core, minimises the
first violation, writes it as a replay file, replays that file in a fresh process and writes evidence/PROPERTY.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not give an answer."""
import collections, json, os, re, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build_sim

REAL = ['the complete k8psh program (src/k8psh.cxx with Main, Process, Socket, Configuration, Utilities), compiled unmodified: clients, servers, connection handlers, launcher and daemon, --install',
        'the C++ standard library the program uses']
STUB = ['kernel interface: processes, signals, pipes, sockets, poll, files, clocks (simulated; every call of the program is redirected at the object file level)',
        'C stdio and malloc (simulated per process)',
        'remote commands, users at the client\'s standard streams, raw network peers (scripted actors)']
ASSUMPTIONS = ['the simulated kernel interface behaves as Linux does for the calls the program makes (it is written from the manual pages, and differences in buffer sizes, timing, short transfers and failures are drawn per run)',
               'context switches happen at system calls only: the program has no threads and shares no memory between processes',
               'one server per port is meant to serve (second instances must fail)',
               'bounded-time properties use the bounds of DESIGN.md, measured in simulated time and only while the processes concerned are not stalled']
BUDGET = {'quick': 30.0, 'thorough': 600.0}
MINIMISE = {'quick': 40, 'thorough': 120}


def die(msg):
    print('ERROR: ' + msg)
    sys.stdout.flush()
    sys.exit(2)


def known_findings(prop):
    """lines 'finding: property=<id> sig=<signature> match=<regular expression over the violation text> <description>'"""
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as f:
            for line in f:
                m = re.match(r'finding:\s+property=(\S+)\s+sig=(\S+)\s+match=(\S+)\s+(.*)', line)
                if m and m.group(1) == prop:
                    out.append((m.group(2), re.compile(m.group(3)), m.group(4).strip()))
    except FileNotFoundError:
        pass
    return out


def is_known(v, known):
    for sig, rx, text in known:
        if v['sig'] == sig and rx.search(v['text']):
            return True
    return False


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    repo = os.environ.get('K8PSH_REPO', '/repo')
    start = time.time()
    build = os.path.join(HERE, 'build') if repo == '/repo' else os.environ.get('K8PSH_BUILD', '/tmp/k8sim-build')
    try:
        binaries = build_sim.build_all(repo, build)
    except (build_sim.BuildError, OSError) as e:
        die('building the simulator failed: %s' % e)
    # the binary may be replaced by a concurrent build: keep our own link
    work = os.path.join(build, 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    exe = os.path.join(work, 'k8sim')
    for v in binaries:
        os.link(binaries[v], exe + '-' + v)
    try:
        rc = explore(prop, tier, seed, exe, work, start)
    finally:
        for f in os.listdir(work):
            os.unlink(os.path.join(work, f))
        os.rmdir(work)
    sys.exit(rc)


def explore(prop, tier, seed, exe, work, start):
    workers = max(1, min(16, len(os.sched_getaffinity(0))))
    budget = float(os.environ.get('K8PSH_TIME', BUDGET[tier]))
    known = known_findings(prop)
    procs = []
    t0 = time.time()
    for w in range(workers):
        base = (seed % 1000000) * 10**12 + w * 10**10 + 1
        out = os.path.join(work, 'w%d.json' % w)
        log = open(os.path.join(work, 'w%d.log' % w), 'w')
        variant = 'release' if w % 4 == 3 else 'debug'
        procs.append((subprocess.Popen([exe + '-' + variant, 'run', '--prop', prop, '--seed-base', str(base), '--count', str(10**10 - 10), '--time', str(budget),
                                        '--recheck', '32', '--stop-after', '1' if not known else '1000', '--out', out], stdout=log, stderr=log, stdin=subprocess.DEVNULL), out, log, variant))
    stopped = False
    while any(p.poll() is None for p, _, _, _ in procs):
        time.sleep(0.05)
        if not stopped and (any(p.poll() not in (None, 0) for p, _, _, _ in procs) and not known or time.time() - t0 > budget + 60):
            stopped = True
            t1 = time.time()
            for p, _, _, _ in procs:
                if p.poll() is None:
                    p.send_signal(signal.SIGTERM)
        if stopped and time.time() - t1 > 60:
            for p, _, _, _ in procs:
                if p.poll() is None:
                    p.kill()
    explore_wall = time.time() - t0
    tot = collections.Counter()
    maps = {k: collections.Counter() for k in ('faults', 'fault_runs', 'probes', 'outcomes', 'other')}
    builds = collections.Counter()
    shapes, edges, samples, violations, errors = set(), set(), [], [], []
    worker_wall = sim_s = deep_s = 0.0
    nontrivial = 0
    for p, out, log, variant in procs:
        log.close()
        if p.returncode not in (0, 1, 2) or not os.path.exists(out):
            with open(log.name) as f:
                errors.append('a worker ended with status %s: %s' % (p.returncode, f.read()[-1500:]))
            continue
        with open(out) as f:
            j = json.load(f)
        for k in ('runs', 'rechecked', 'steps', 'switches', 'syscalls', 'bytes', 'forks', 'execs', 'conns', 'sessions', 'served', 'servers'):
            tot[k] += j[k]
        sim_s += j['sim_s']
        deep_s += j['deep_s']
        worker_wall += j['wall']
        nontrivial += j['nontrivial']
        for k in maps:
            maps[k].update(j[k])
        shapes.update(j['shapes'])
        edges.update(j['edges'])
        samples += j['samples'][:1]
        violations += [dict(v, build=variant) for v in j['violations']]
        builds[variant] += j['runs']
        if j['error']:
            errors.append(j['error'])
    seen_known = sorted({text for v in violations for sig, rx, text in known if v['sig'] == sig and rx.search(v['text'])})
    fresh = [v for v in violations if not is_known(v, known)]
    fresh.sort(key=lambda v: v['seed'] % 10**10)
    rc = 0
    replay = None
    if fresh:
        v = fresh[0]
        os.makedirs(os.path.join(HERE, 'build', 'replays'), exist_ok=True)
        replay = os.path.join(HERE, 'build', 'replays', '%s-%d.replay' % (prop, v['seed']))
        exe += '-' + v['build']
        m = subprocess.run([exe, 'minimise', '--prop', prop, '--seed', str(v['seed']), '--min-time', str(MINIMISE[tier]), '--out', replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = subprocess.run([exe, 'replay', replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 1:
            print('violated: %s [%s] seed %d: %s' % (prop, v['sig'], v['seed'], v['text']))
            print(m.stdout.strip())
            print('replay with: %s replay %s' % (os.path.join(HERE, 'replay.sh'), replay))
            rc = 1
        else:
            errors.append('the violation of seed %d did not replay in a fresh process (%d): %s %s' % (v['seed'], r.returncode, m.stdout[-500:], r.stdout[-500:]))
            rc = 2
    elif errors:
        rc = 2
    if not fresh and not errors and tot['runs'] < 100:
        errors.append('only %d runs were made' % tot['runs'])
        rc = 2
    wall = time.time() - start
    per_hour = tot['runs'] / max(explore_wall, 0.001) * 3600
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': len(fresh),
        'assumptions': ASSUMPTIONS,
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(shapes),
            'rule': 'one evaluation is one simulated execution of a whole deployment (configuration, servers, clients, commands, users, peers, faults and schedule drawn from one seed with the profile of this property). Two count as distinct when their sequences of (process role, system call, kind of result), summarised as a hash, differ; non-trivial are those in which at least one server ran or a client ended up served and more than 40 system calls were made (install profile: more than 4).',
            'samples': samples[:3],
            'nontrivial_per_worker_sum': nontrivial,
            'runs_per_hour': round(per_hour), 'seeds_per_hour': round(per_hour), 'workers': workers,
            'runs_by_build_of_the_program': {'with debug log (-DDEBUG -O1)': builds['debug'], 'without (-DNDEBUG -O2)': builds['release']},
            'simulated_seconds': round(sim_s, 1), 'simulated_days_of_long_runs': round(deep_s / 86400), 'simulated_seconds_per_wall_second': round(sim_s / max(explore_wall, 0.001), 1),
            'steps': tot['steps'], 'context_switches': tot['switches'], 'system_calls_of_the_program': tot['syscalls'], 'bytes_moved': tot['bytes'],
            'processes_forked': tot['forks'], 'programs_executed': tot['execs'], 'connections': tot['conns'], 'servers_started': tot['servers'], 'sessions': tot['sessions'], 'sessions_served': tot['served'],
            'faults_injected': dict(sorted(maps['faults'].items())), 'runs_with_fault': dict(sorted(maps['fault_runs'].items())),
            'distinct_interleavings': {'measure': 'hash of the sequence of (role, call, result class) of a run', 'count': len(shapes)},
            'distinct_transitions': {'measure': 'pairs of consecutive (role, call, result class) events across context switches', 'count': len(edges)},
            'rare_conditions_reached': dict(sorted(maps['probes'].items())),
            'endings': dict(sorted(maps['outcomes'].items())),
            'runs_executed_twice_with_equal_hash': tot['rechecked'],
            'violations_of_other_properties_seen': dict(sorted(maps['other'].items())),
            'real_components': REAL, 'stub_components': STUB,
            'known_findings_seen': seen_known,
        },
    }
    if errors:
        evidence['coverage']['errors'] = errors
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    for e in errors:
        print('ERROR: ' + e)
    for sig, rx, text in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    print('%s %s: %d runs in %.1f s (%d/hour), %.0f simulated s, %d distinct, %d transitions, %d faults of %d kinds' % (prop, tier, tot['runs'], explore_wall, per_hour, sim_s, len(shapes), len(edges), sum(maps['faults'].values()), len(maps['faults'])))
    if rc == 1:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    main()
