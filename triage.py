#!/usr/bin/env python3
"""Development aid: runs every profile for a while and lists each distinct violation with sample seeds. usage: triage.py [-n RUNS] [-s SEEDBASE] [PROP...]"""
import json, os, subprocess, sys, collections
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build_sim
args = sys.argv[1:]
n, base, repo, out, variant = 400, 1, '/repo', None, 'debug'
props = []
while args:
    a = args.pop(0)
    if a == '-n': n = int(args.pop(0))
    elif a == '-s': base = int(args.pop(0))
    elif a == '-release': variant = 'release'
    elif a == '-r': repo = args.pop(0); out = '/tmp/triage-build'
    else: props.append(a)
props = props or ['C%02d' % i for i in range(1, 19)]
b = build_sim.build(repo, out, variant)
def job(pr):
    o = '/tmp/triage-%s-%d.json' % (pr, os.getpid())
    r = subprocess.run([b, 'run', '--prop', pr, '--seed-base', str(base), '--count', str(n), '--time', '600', '--stop-after', '100000', '--out', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        j = json.load(open(o)); os.unlink(o)
    except Exception as e:
        return pr, None, r.returncode, r.stdout[-2000:]
    return pr, j, r.returncode, r.stdout[-2000:]
agg = collections.defaultdict(list)
with ThreadPoolExecutor(8) as ex:
    for pr, j, rc, so in ex.map(job, props):
        if j is None:
            print('%s: NO RESULT rc %d: %s' % (pr, rc, so)); continue
        print('%s runs %d in %.1fs (%.1f/s) sim %.0fs served %d/%d nontrivial %d edges %d max %.2fs %s outcomes %s %s' % (pr, j['runs'], j['wall'], j['runs']/max(j['wall'],.01), j['sim_s'], j['served'], j['sessions'], j['nontrivial'], len(j['edges']), j['max_run_s'], j['error'], j['outcomes'], so))
        if os.environ.get('TV'): print('   faults', j['faults']); print('   probes', j['probes'])
        for v in j['violations']:
            agg[pr + ':' + v['sig']].append('%s --seed %d: %s' % (pr, v['seed'], v['text']))
        for s in j['other_samples']:
            k, rest = s.split(' ', 1)
            agg[k].append(pr + ' --' + rest)
for k in sorted(agg, key=lambda k: (k.split(':')[1], k)):
    print(k, len(agg[k]))
    for x in agg[k][:3]: print('     ', x[:260])
