#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] [--scale X] [--stats]
Builds the harness of one property from the working tree of /repo and runs it.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: could not run."""
import sys, os, subprocess, json, glob, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B
props = {}
for line in open(os.path.join(V, 'harness', 'map.txt')):
    w = line.split()
    if w and not w[0].startswith('#'): props[w[0]] = (w[1], 'san' in w[2:])
def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    opts = []
    name, san = props[prop]
    if '--stats' in a: a.remove('--stats'); opts += ['--stats', '1']
    opts += a
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    bins = B.build([name], san)
    if not bins:
        print('build failed: no verdict'); return 2
    t1 = time.time()
    rd = os.path.join(V, 'build', 'replay'); os.makedirs(rd, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = os.path.join(V, 'evidence', prop + '.json')
    cmd = [bins[0], '--prop', prop, '--tier', tier if tier in ('quick', 'thorough') else 'quick', '--seed', seed, '--replaydir', rd,
           '--hang', '90' if san else '25', '--known', os.path.join(V, 'known_findings.txt')]
    if '--replay' not in a and '--only' not in a: cmd += ['--evidence', ev + '.tmp']
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:detect_container_overflow=1:hard_rss_limit_mb=2500:allocator_may_return_null=0', UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1:print_stacktrace=0')
    env.pop('LD_PRELOAD', None)
    r = subprocess.run(cmd + opts, env=env, cwd=V)
    if r.returncode not in (0, 1):
        print('harness ended with %d: no verdict' % r.returncode); return 2
    if '--evidence' in cmd:
        e = json.load(open(ev + '.tmp'))
        e['wall_s'] = round(time.time() - t0, 2)
        e['coverage']['build_s'] = round(t1 - t0, 2)
        e['assumptions'] = ['sources compiled here with clang++ -O1 (no -march=native), Eigen assertions on', 'cases are a pure function of the code and VERIF_SEED']
        with open(ev, 'w') as f: json.dump(e, f, indent=1); f.write('\n')
        os.unlink(ev + '.tmp')
    return r.returncode
sys.exit(main())
