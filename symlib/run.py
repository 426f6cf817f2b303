"""Runs jobs (one symbolic execution of a harness on one configuration each) on a pool,
judges them for one property, confirms counterexamples on the compiled library and
writes the evidence."""
import json, os, resource, signal, subprocess, sys, threading, time, hashlib
from . import build as B

MEM_EVENTS = {'oob-read', 'oob-write', 'null-deref', 'use-after-free', 'double-free', 'bad-free', 'overlap'}
ARITH_EVENTS = {'signed-overflow', 'shift-range', 'div-zero'}
RO_EVENTS = {'readonly-write', 'const-write'}

LANES = {'UINT32': 32, 'UINT64': 64, 'MMX': 64, 'SSE': 128, 'SSSE3': 128, 'AVX2': 256, 'NEON': 128}
def lanes(cfg): return LANES[B.CONFIGS[cfg]['word']]

class Job:
    """cfg, harness, parameters; sym: symbolic payload bytes (for the memory estimate)."""
    def __init__(s, cfg, h, params, sym=0, uninit='zero', reach=('end',), raw=False, ub=False, alias=False, events_only=False):
        s.cfg, s.h, s.params, s.sym, s.uninit, s.reach, s.raw, s.ub, s.alias, s.events_only = cfg, h, [int(p) for p in params], sym, uninit, reach, raw, ub, alias, events_only
        s.limit = 0; s.visits = 0; s.result = None; s.state = 'not-run'; s.wall = 0.0; s.why = ''
    def mem(s): return 0.25 + 1.6e-4 * s.sym
    def name(s): return '%s %s(%s)' % (s.cfg, s.h, ','.join(map(str, s.params)))

class Judge:
    """What one property looks at in a job's outcome."""
    def __init__(s, asserts=False, tags=None, events=(), expect_abort=False, match=None, hang=False):
        s.asserts, s.tags, s.events, s.expect_abort, s.match, s.hang = asserts, tags, set(events), expect_abort, match, hang
        if asserts and not expect_abort: s.events.add('abort')

class Runner:
    def __init__(s, pid, judge, tier, seed, limit, joblimit, memcap=25.0, workers=8):
        s.pid, s.judge, s.tier, s.seed, s.memcap, s.workers = pid, judge, tier, seed, memcap, workers
        s.t0 = time.time(); s.deadline = s.t0 + limit; s.joblimit = joblimit
        s.jobs = []; s.findings = []; s.unconfirmed = []; s.cv = threading.Condition(); s.mem = 0.0; s.procs = set(); s.memlim = {}; s.stop = False; s.over = set()
        s.tmp = os.path.join(B.BUILD, 'run', '%s-%d' % (pid, os.getpid())); os.makedirs(s.tmp, exist_ok=True)
        s.replays = os.path.join(B.VERIF, 'evidence', 'replays'); os.makedirs(s.replays, exist_ok=True)

    # ---- processes
    def spawn(s, cmd, limit, mem=None, **k):
        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=pre, **k)
        with s.cv: s.procs.add(p); s.memlim[p] = mem
        timed = False
        try:
            try: o, e = p.communicate(timeout=max(1, limit))
            except subprocess.TimeoutExpired:
                timed = True; s.kill(p); o, e = p.communicate()
        finally:
            with s.cv: s.procs.discard(p); s.memlim.pop(p, None)
        return p.returncode, o.decode('latin1'), e.decode('latin1'), timed
    def kill(s, p):
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass

    def watch(s):
        """ends a job of ours that grows far beyond its estimate"""
        while not s.finished:
            time.sleep(0.5)
            with s.cv: l = [(p, m) for p, m in s.memlim.items() if m]
            for p, m in l:
                try: rss = int(open('/proc/%d/statm' % p.pid).read().split()[1]) * 4096
                except (OSError, IndexError, ValueError): continue
                if rss > m * 2**30: s.kill(p)

    # ---- one job
    def run_job(s, j):
        t = time.time(); left = s.deadline - t
        if s.stop or left < 3: return
        try: bc = B.bitcode(j.cfg, j.h, j.raw, j.ub, j.alias)
        except B.BuildError as e:
            j.state = 'undecided'; j.why = 'does not build for the engine: ' + str(e)[-400:]; return
        m = j.mem()
        with s.cv:
            while s.mem + m > s.memcap and s.mem > 0 and not s.stop: s.cv.wait(1)
            s.mem += m
        try:
            left = min(j.limit or s.joblimit, s.deadline - time.time())
            if s.stop or left < 3: return
            out = os.path.join(s.tmp, hashlib.sha1(repr((j.name(), j.uninit, j.raw, j.ub, j.alias)).encode()).hexdigest()[:12] + '.json')
            if os.path.exists(out): os.unlink(out)
            cmd = [B.engine(), bc, j.h, '--params', ','.join(map(str, j.params)), '-o', out, '--seed', str(s.seed), '--uninit', j.uninit,
                   '--time', '%.0f' % max(2, left * 0.6), '--budget', '%.0f' % max(2, left * 0.4)]
            if not s.judge.asserts or j.events_only: cmd += ['--noasserts', '--nosweep']
            if j.alias: cmd.append('--alias')
            if j.visits: cmd += ['--visits', str(j.visits)]
            rc, o, e, timed = s.spawn(cmd, left + 2, mem=max(4.0, 3 * m + 2))
            j.wall = time.time() - t
            if s.stop: return
            try: j.result = json.load(open(out))
            except Exception: j.result = None
            if os.path.exists(out): os.unlink(out)
            if j.result is None:
                j.state = 'undecided'; j.why = 'time or memory limit' if timed or rc < 0 or 'bad_alloc' in e else 'engine error: ' + e[-300:]
        finally:
            with s.cv: s.mem -= m; s.cv.notify_all()
        s.judge_job(j)
        if j.state == 'undecided' and (s.judge.asserts or s.judge.hang) and not s.stop: s.concrete(j)

    def judge_job(s, j):
        r = j.result; J = s.judge
        if r is None: return
        bad, unknown = [], []
        for a in r['asserts']:
            if not J.asserts or j.events_only or (J.tags and a['tag'] not in J.tags): continue
            if a['status'] == 'violated': bad.append(('assert', a['tag'], a.get('info', ''), a.get('model')))
            elif a['status'] != 'proved': unknown.append('assertion %s not decided (%d bits open)' % (a['tag'], a['open']))
        for e in r['events']:
            if e['kind'] not in J.events or (J.match and not J.match(e)): continue
            if e['status'] == 'violated': bad.append(('event', e['kind'], '%s: %s' % (e['where'], e['detail']), e.get('model')))
            elif e['status'] != 'proved': unknown.append('event %s at %s not decided' % (e['kind'], e['where']))
        for b in bad:
            f = s.confirm(j, *b)
            if f: j.state = 'violated'; return
        if bad: j.state = 'undecided'; j.why = 'counterexample not reproduced by the compiled library'; return
        if r['status'] != 'ok': j.state = 'undecided'; j.why = r.get('message', r['status']); return
        if unknown: j.state = 'undecided'; j.why = '; '.join(unknown[:3]); return
        miss = [t for t in j.reach if r['reach'].get(t) != 'reachable']
        if miss: j.state = 'undecided'; j.why = 'vacuous: %s not reached' % ','.join(miss); return
        j.state = 'proved'

    def native_run(s, j, inputs, san=False):
        try: exe = B.native(j.cfg, j.h, san)
        except B.BuildError as e: return None, 'native build failed: ' + str(e)[-300:]
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0')
        rc, o, e, timed = s.spawn(B.CONFIGS[j.cfg]['run'] + [exe, inputs] + [str(p) for p in j.params], 30, env=env)
        return (124 if timed else rc), (o + e)

    def native_shows(s, rc, text, kind, tag):
        """Does the native output show a failure of this kind?"""
        if rc is None: return False
        crash = rc < 0 or rc in (124, 132, 134, 135, 136, 139)
        if s.judge.expect_abort: return 'ASSERT-FAIL' in text or (crash and 'REACH abort' not in text)
        san = 'AddressSanitizer' in text or 'runtime error:' in text
        if kind == 'assert': return 'ASSERT-FAIL %s ' % tag in text or crash or 'ABORT' in text
        if tag == 'abort': return 'ABORT' in text or crash
        return crash or san or ('EVENT ' + tag) in text

    @staticmethod
    def write_inputs(path, model, key, stack):
        with open(path, 'w') as f:
            f.write('stack stack %s\n' % stack)
            for m in model or []: f.write('%s %s %s\n' % (m['name'].replace(' ', '_') or 'x', m['kind'], m.get(key, m['hex'])))

    def confirm(s, j, kind, tag, info, model):
        with s.cv: n = len(s.findings) + len(s.unconfirmed) + 1
        base = os.path.join(s.replays, '%s-%d-%s' % (s.pid, os.getpid(), n)); inp = base + '.in'
        s.write_inputs(inp, model, 'hex', '00')
        shown, outs = False, []
        if j.uninit == 'taint' and kind == 'assert':
            # the same run twice, with the two contents of uninitialised memory
            s.write_inputs(inp + '.alt', model, 'alt', 'ff'); pair = [s.native_run(j, i) for i in (inp, inp + '.alt')]
            outs += [{'sanitizers': False, 'exit': rc, 'output': text[-1500:]} for rc, text in pair]
            o = [[l for l in text.split('\n') if l.startswith('OUT ')] for rc, text in pair]; shown = o[0] != o[1]
        else:
            for san in ([False] if kind == 'assert' else [False, True] if B.CONFIGS[j.cfg]['target'] == 'x86' else [False]):
                rc, text = s.native_run(j, inp if model else '-', san)
                outs.append({'sanitizers': san, 'exit': rc, 'output': text[-1500:]})
                if s.native_shows(rc, text, kind, tag): shown = True; break
        # undefined behaviour need not show in one compiled binary; functional failures must
        trusted = (kind == 'event' and tag != 'abort') or j.uninit == 'taint'
        rec = {'property': s.pid, 'config': j.cfg, 'harness': j.h, 'params': j.params, 'what': kind, 'tag': tag, 'info': info,
               'inputs_file': inp, 'inputs': model, 'replayed': shown, 'native': outs,
               'replay_cmd': '/verif/replay.py ' + base + '.json'}
        json.dump(rec, open(base + '.json', 'w'), indent=1)
        with s.cv:
            if shown or trusted:
                s.findings.append((base + '.json', rec)); s.stop = True
                for p in list(s.procs): s.kill(p)
                s.cv.notify_all(); return True
            s.unconfirmed.append(rec); return False

    def concrete(s, j):
        """The engine could not decide the job: one concrete run (on an input reaching the point where it
        stopped, when there is one), which can only witness a failure
        (crash, hang, wrong output), never count as evidence that the property holds."""
        with s.cv: n = len(s.findings) + len(s.unconfirmed) + 1
        base = os.path.join(s.replays, '%s-%d-%s' % (s.pid, os.getpid(), n)); model = (j.result or {}).get('stuck_model'); inp = 'seed:%d' % s.seed
        if model: inp = base + '.in'; s.write_inputs(inp, model, 'hex', '00')
        rc, text = s.native_run(j, inp)
        if rc is None or not (s.native_shows(rc, text, 'assert', '') or 'ASSERT-FAIL' in text): return
        if s.judge.hang and rc != 124: return
        if s.judge.tags and 'ASSERT-FAIL' in text and not any('ASSERT-FAIL %s ' % t in text for t in s.judge.tags): return
        rec = {'property': s.pid, 'config': j.cfg, 'harness': j.h, 'params': j.params, 'what': 'concrete run', 'tag': 'hang' if rc == 124 else 'failure', 'info': j.why,
               'inputs_file': inp, 'inputs': model, 'replayed': True, 'replay_cmd': '/verif/replay.py ' + base + '.json', 'native': [{'exit': rc, 'output': text[-1500:]}]}
        json.dump(rec, open(base + '.json', 'w'), indent=1)
        with s.cv:
            s.findings.append((base + '.json', rec)); s.stop = True; j.state = 'violated'
            for p in list(s.procs): s.kill(p)

    # ---- stages
    def run(s, stages):
        B.engine(); s.finished = False; threading.Thread(target=s.watch, daemon=True).start()
        for n, st in enumerate(stages):
            s.jobs += [j for j in st if j.state == 'not-run']
        for st in stages:
            if s.stop or s.deadline - time.time() < 5: break
            q = list(st); lock = threading.Lock()
            def work():
                while True:
                    with lock:
                        if not q or s.stop: return
                        j = q.pop(0)
                    try: s.run_job(j)
                    except Exception as e: j.state = 'undecided'; j.why = 'driver: %r' % e
            ts = [threading.Thread(target=work) for _ in range(s.workers)]
            for t in ts: t.start()
            for t in ts: t.join()
        s.finished = True
        try: os.rmdir(s.tmp)
        except OSError: pass
