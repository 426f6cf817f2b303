#!/usr/bin/env python3
"""check.py ID: decides one property. Tier and seed come from VERIF_TIER and VERIF_SEED."""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symlib import build as B
from symlib import run as R
import plan

def main():
    B.prune()
    pid = sys.argv[1]; prof = '--profile' in sys.argv
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    T = tier == 'thorough'; t0 = time.time()
    stages, judge = plan.stages(pid, T, seed), plan.PROPS[pid][1]
    limit = float(os.environ.get('SYX_LIMIT', 780 if T else 240))
    run = R.Runner(pid, judge, tier, seed, limit, 500 if T else 150)
    err = None
    try: run.run(stages)
    except B.BuildError as e: err = str(e)
    jobs = [j for st in stages for j in st]
    evidence(pid, tier, seed, stages, jobs, run, judge, time.time() - t0, err)
    cnt = {k: sum(j.state == k for j in jobs) for k in ('proved', 'undecided', 'violated', 'not-run')}
    print('%s %s: %d jobs: %s, %.1f s' % (pid, tier, len(jobs), ', '.join('%d %s' % (v, k) for k, v in cnt.items() if v), time.time() - t0))
    for j in jobs:
        if j.state == 'undecided': print('UNDECIDED %s: %s' % (j.name(), ' '.join(j.why[:300].split())))
    if prof:
        for j in sorted(jobs, key=lambda j: -j.wall)[:40]: print('%7.1f s %6.0f MB (est %5.0f) %s' % (j.wall, (j.result or {}).get('stats', {}).get('maxrss_mb', 0), j.mem() * 1024, j.name()))
        for i, st in enumerate(stages): print('stage', i, 'jobs', len(st), 'cpu %.1f' % sum(j.wall for j in st))
    for u in run.unconfirmed: print('NOT-REPRODUCED %s %s %s %s' % (u['config'], u['harness'], u['params'], u['info']))
    if run.findings:
        path, rec = run.findings[0]
        print('%s %s on %s: %s %s' % (rec['what'], rec['tag'], rec['config'], rec['harness'], rec['info']))
        print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
    if not cnt['proved']:
        print('NO-ANSWER property=%s: nothing could be decided%s' % (pid, ': ' + err[-500:] if err else '')); return 2
    return 0

def evidence(pid, tier, seed, stages, jobs, run, judge, wall, err):
    done = [j for j in jobs if j.state == 'proved']; fn = set(); tot = {}
    for j in jobs:
        if not j.result: continue
        fn |= set(j.result.get('functions', []))
        for k, v in j.result.get('stats', {}).items():
            tot[k] = max(tot.get(k, 0), v) if k == 'maxrss_mb' else tot.get(k, 0) + v
    bits = sum(a['bits'] for j in done for a in j.result['asserts']); ev = sum(len(j.result['events']) for j in done)
    und = [{'job': j.name(), 'why': j.why[:300]} for j in jobs if j.state == 'undecided']
    cov = {
        'explanation': 'Bounded symbolic execution of the library\'s LLVM IR, compiled on this run from /repo for each listed configuration: control words and payloads are symbolic '
                       'bits, loops are unrolled completely (the lengths and counts of a job are concrete), and every assertion is decided for all values by SAT sweeping with SMT-checked S-box lemmas. '
                       'Nothing is claimed outside the listed jobs.',
        'decided_jobs': len(done), 'jobs_planned': len(jobs), 'obligations_bits': bits, 'possible_events_refuted': ev,
        'undecided': und[:50], 'not_explored': [j.name() for j in jobs if j.state == 'not-run'][:50],
        'not_reproduced': [{k: u[k] for k in ('config', 'harness', 'params', 'tag', 'info')} for u in run.unconfirmed],
        'configurations': sorted({j.cfg for j in done}), 'functions_encoded': sorted(fn),
        'bounds': [j.name() + ' %.1fs' % j.wall for j in done][:400],
        'bounds_key': 'parameters are documented at the top of harness/<name>.c',
        'solver': {'sat_queries': tot.get('sat_queries', 0), 'sat_time_s': round(tot.get('sat_time', 0), 2), 'smt_queries': tot.get('smt_queries', 0), 'smt_time_s': round(tot.get('smt_time', 0), 2),
                   'sweep_merges': tot.get('merges', 0), 'gates': tot.get('gates', 0), 'symbolic_input_bits': tot.get('symbolic_input_bits', 0), 'instructions': tot.get('instructions', 0),
                   'symbolic_forks': tot.get('forks', 0), 'symbolic_addresses': tot.get('symbolic_addresses', 0), 'engine_cpu_s': round(tot.get('exec_time', 0) + tot.get('decide_time', 0), 1), 'max_rss_mb': tot.get('maxrss_mb', 0)},
        'judged': {'assertions': sorted(judge.tags) if judge.tags else ('all' if judge.asserts else 'none'), 'events': sorted(judge.events)},
    }
    if err: cov['build_error'] = err[-1000:]
    d = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(run.findings),
         'assumptions': ['clang 18 -O0 IR represents the source as the build\'s compilers do (counterexamples are replayed on the build\'s own compiler)',
                         'malloc, calloc, posix_memalign and free follow their contracts; memory handed out is arbitrary (zero in this encoding except where stated)',
                         'engine/ (executor, AIG sweeping), z3 and minisat are trusted for "holds" verdicts; ref/csa_ref.c is the DVB-CSA oracle']}
    if run.findings: cov['violation'] = {k: run.findings[0][1][k] for k in ('config', 'harness', 'params', 'what', 'tag', 'info', 'replayed')}
    p = os.path.join(B.VERIF, 'evidence', pid + '.json'); t = p + '.%d' % os.getpid()
    os.makedirs(os.path.dirname(p), exist_ok=True)
    json.dump(d, open(t, 'w'), indent=1); os.rename(t, p)

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main(); sys.stdout.flush(); os._exit(rc)
