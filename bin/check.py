#!/usr/bin/env python3
"""Decides one property: model checks its TLA+ design, drives the real code
with scenarios TLC generated and with its own, and lets TLC validate the
recorded traces against the specification.

  check.py C01            tier from VERIF_TIER, seed from VERIF_SEED
  check.py --replay FILE  run the session of a replay file again

Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: error of the check.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PROPS = json.load(open(os.path.join(ROOT, 'bin', 'props.json')))


class CheckError(Exception):
    pass


def known_findings(pid):
    """findings of known_findings.txt: events with exactly these fields"""
    res = []
    for line in open(os.path.join(ROOT, 'known_findings.txt')):
        m = re.match(r'finding: property=(\S+) match=(\{.*?\}) (.*)', line)
        if m and m.group(1) == pid:
            res.append((json.loads(m.group(2)), m.group(3)))
    return res


def drop_known(pid, traces):
    """takes events of known findings out of traces, gives those seen"""
    seen = {}
    kf = known_findings(pid)
    for t in traces if kf else []:
        lines = open(t).read().splitlines(True)
        keep = []
        for line in lines:
            e = json.loads(line)
            hit = [what for match, what in kf if all(k in e and e[k] == v for k, v in match.items())]
            if hit:
                seen[hit[0]] = seen.get(hit[0], 0) + 1
            else:
                keep.append(line)
        if len(keep) != len(lines):
            open(t, 'w').write(''.join(keep))
    for what, n in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s (%d times)' % (pid, what, n))
    return seen


def tlc(scratch, module, cfg, workers, env=None, heap='3g', timeout=800, extra=()):
    meta = tempfile.mkdtemp(dir=scratch, prefix='tlc')
    gc = '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC'
    # -Djava.io.tmpdir keeps what TLC unpacks in the scratch directory
    cmd = ['java', gc, '-Xmx' + heap, '-Xss256m', '-Djava.io.tmpdir=' + meta, '-cp', JAR, 'tlc2.TLC', '-noGenerateSpecTE',
           '-metadir', meta, '-workers', str(workers), '-config', os.path.join(SPEC, cfg + '.cfg')] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on %s' % module)
    out = p.stdout.decode('utf8', 'replace')
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, out


def counts(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))


def model_check(scratch, prop, tier):
    """exhaustively checks the design, and collects scenarios"""
    res, scens = [], {}
    todo = [m for m in prop.get('mc', []) if len(m) < 3 or m[2] == tier]
    for m in todo:
        module, cfg = m[0], m[1]
        t = time.time()
        rc, out = tlc(scratch, module, cfg, 4, heap='8g')
        for line in re.findall(r'^"SCN (.*)"$', out, re.M):
            scens.setdefault(line.replace('\\"', '"').replace('\\\\', '\\'), None)
        if rc != 0:
            bad = [x for x in out.splitlines() if 'SCN' not in x]
            raise CheckError('model checking %s/%s failed (%d):\n%s' % (module, cfg, rc, '\n'.join(bad[-60:])))
        gen, dist = counts(out)
        res.append({'module': module, 'config': cfg, 'states': dist, 'transitions': gen, 'wall_s': round(time.time() - t, 1)})
    return res, list(scens)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def harness(binary, pid, seed, tier, out, scen, only=None, skip=(), timeout=700):
    os.makedirs(out, exist_ok=True)
    cmd = [binary, '-prop', pid, '-seed', str(seed), '-tier', tier, '-out', out]
    if scen:
        cmd += ['-scen', scen]
    if only is not None:
        cmd += ['-only', str(only), '-shards', '1']
    if skip:
        cmd += ['-skip', ','.join(map(str, skip))]
    env = dict(os.environ, GOLOG_LOG_LEVEL='fatal', TMPDIR=out, HOME=out, GOMAXPROCS='8')
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=out, preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return None, ''
    return p.returncode, p.stdout.decode('utf8', 'replace')


def inflight(out):
    started, ended = [], set()
    try:
        for line in open(os.path.join(out, 'progress')):
            f = line.split()
            if len(f) == 2:
                (started.append(int(f[1])) if f[0] == 'S' else ended.add(int(f[1])))
    except OSError:
        pass
    return [s for s in started if s not in ended]


def run_harness(binary, pid, seed, tier, scratch, scen):
    """runs all sessions. A session that ends the process is confirmed on its
    own, and recorded as a crash"""
    crashed = []
    for attempt in range(6):
        out = os.path.join(scratch, 'run%d' % attempt)
        rc, txt = harness(binary, pid, seed, tier, out, scen, skip=crashed)
        if rc == 0:
            break
        if rc is None:
            raise CheckError('harness timed out')
        if rc == 3:
            raise CheckError('harness: ' + txt[-2000:])
        found = []
        for s in inflight(out)[:16]:
            for again in range(2):
                rc1, txt1 = harness(binary, pid, seed, tier, os.path.join(scratch, 'one%d_%d' % (s, again)), scen, only=s, timeout=200)
                if rc1 in (0, 3):
                    break
            else:
                found.append(s)
                txt = txt1
        if not found:
            raise CheckError('harness died (%s), no session does on its own:\n%s' % (rc, txt[-3000:]))
        crashed += found
        if len(crashed) > 3:
            # enough; judge what there is
            skipall = crashed
            out = os.path.join(scratch, 'runx')
            os.makedirs(out, exist_ok=True)
            json.dump({'sessions': 0, 'events': 0, 'distinct': 0, 'kinds': {}, 'groups': {}, 'samples': [], 'stats': {}}, open(os.path.join(out, 'stats.json'), 'w'))
            break
    else:
        raise CheckError('harness keeps dying')
    stats = json.load(open(os.path.join(out, 'stats.json')))
    traces = sorted(os.path.join(out, f) for f in os.listdir(out) if re.match(r'trace\d+\.ndjson$', f))
    if crashed:
        t = os.path.join(out, 'trace_crash.ndjson')
        with open(t, 'w') as f:
            for s in crashed:
                f.write(json.dumps({'ev': 'crash', 's': s, 'msg': 'process died'}) + '\n')
        traces.insert(0, t)
    return stats, traces


def validate(scratch, module, trace):
    """gives (events explained, events, generated states, TLC output)"""
    total = sum(1 for _ in open(trace))
    rc, out = tlc(scratch, module, module, 1, env={'TRACE': trace}, heap='3500m')
    m = re.search(r'<<"EXPLAINED", (\d+), (\d+)>>', out)
    if m and rc == 0:
        if int(m.group(2)) != total:
            raise CheckError('trace %s: %s of %d events seen' % (trace, m.group(2), total))
        return int(m.group(1)), total, counts(out)[0], ''
    if 'evaluating the nested' in out or 'Attempted to' in out:
        # the specification has no meaning for what was observed
        ls = re.findall(r'^/\\ l = (\d+)', out, re.M) or re.findall(r'\bl = (\d+)', out)
        if ls:
            return int(ls[-1]) - 1, total, counts(out)[0], out
    raise CheckError('TLC failed on trace %s (%d):\n%s' % (trace, rc, out[-3000:]))


def cut(o, n=4000):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + '...'


def main():
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    if sys.argv[1] == '--replay':
        rep = json.load(open(sys.argv[2]))
        pid, seed, tier, only = rep['property'], rep['seed'], rep['tier'], rep['session']
    else:
        pid = sys.argv[1]
    prop = PROPS[pid]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        with ThreadPoolExecutor(16) as pool:
            build = pool.submit(subprocess.run, [os.path.join(ROOT, 'bin', 'build.sh'), os.path.join(scratch, 'build'), prop.get('programs', '')],
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            mc = pool.submit(model_check, scratch, prop, tier)
            b = build.result()
            if b.returncode != 0:
                raise CheckError('build failed:\n' + b.stdout.decode()[-3000:])
            models, scens = mc.result()
            scen = ''
            if scens:
                scen = os.path.join(scratch, 'scen.ndjson')
                with open(scen, 'w') as f:
                    f.write('\n'.join(sorted(scens)) + '\n')
            binary = os.path.join(scratch, 'build', 'harness')
            if only is not None:
                out = os.path.join(scratch, 'replay')
                rc, txt = harness(binary, pid, seed, tier, out, scen, only=only)
                if rc != 0:
                    print('session %d: harness exit %s\n%s' % (only, rc, txt[-2000:]))
                    return 1
                n, total, _, _ = validate(scratch, prop['trace'], os.path.join(out, 'trace0.ndjson'))
                lines = open(os.path.join(out, 'trace0.ndjson')).read().splitlines()
                print('session %d: %d of %d events explained' % (only, n, total))
                if n < total:
                    print('rejected: ' + lines[n][:3000])
                    return 1
                return 0
            t1 = time.time()
            stats, traces = run_harness(binary, pid, seed, tier, scratch, scen)
            t2 = time.time()
            known = drop_known(pid, traces)
            results = list(pool.map(lambda t: validate(scratch, prop['trace'], t), traces))
        rejected = []
        tstates = 0
        for t, (n, total, st, note) in zip(traces, results):
            tstates += st
            if n < total:
                rejected.append((t, n, note))
        replay = None
        for t, n, note in rejected:
            lines = open(t).read().splitlines()
            ev = json.loads(lines[n])
            s = ev['s']
            evs = [e for e in map(json.loads, lines) if e['s'] == s]
            k = sum(1 for e in map(json.loads, lines[:n]) if e['s'] == s)
            if ev['ev'] == 'hang':
                # only believed when it hangs alone as well
                out = os.path.join(scratch, 'hang%d' % s)
                rc, _ = harness(binary, pid, seed, tier, out, scen, only=s, timeout=200)
                again = rc is None or (rc == 0 and '"ev":"hang"' in open(os.path.join(out, 'trace0.ndjson')).read())
                if not again:
                    raise CheckError('session %d hung once, but not alone' % s)
            d = os.path.join(ROOT, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, '%s-seed%d-%s-s%d.json' % (pid, seed, tier, s))
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'session': s, 'spec': prop['trace'],
                       'rejected_event': cut(ev, 20000), 'event_number': k, 'events_before': [cut(e) for e in evs[max(0, k - 12):k]],
                       'note': 'no step of the specification explains this event. ' + (note[-1500:] if note else ''),
                       'replay_cmd': 'python3 %s/bin/check.py --replay %s' % (ROOT, replay)}, open(replay, 'w'), indent=1)
            break
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop['level'],
              'coverage': {
                  'states': sum(m['states'] for m in models) + tstates,
                  'transitions': sum(m['transitions'] for m in models) + tstates,
                  'traces_validated_against_impl': stats['sessions'],
                  'trace_events_validated': sum(r[0] for r in results),
                  'evaluations': stats['events'],
                  'distinct_nontrivial': stats['distinct'],
                  'rule': 'sessions against the real code: %d scenarios from TLC, plus seeded random and boundary cases (%s). A session is non-trivial when it records more than one event; distinct when its events differ' % (len(scens), ', '.join('%s %d' % kv for kv in sorted(stats['groups'].items()))),
                  'models': models, 'event_kinds': stats['kinds'], 'measured': stats['stats'], 'known_findings_seen': known,
                  'samples': [cut(x, 3000) for x in stats['samples']][:4]},
              'assumptions': prop.get('assumptions', []),
              'wall_s': round(time.time() - t0, 1),
              'violations': len(rejected)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s %s seed=%d: %d sessions, %d events, models %s, build+mc %.1fs run %.1fs validate %.1fs' % (
            pid, tier, seed, stats['sessions'], stats['events'],
            ' '.join('%s:%d' % (m['config'], m['states']) for m in models), t1 - t0, t2 - t1, time.time() - t2))
        if rejected:
            print('rejected event: ' + json.dumps(json.load(open(replay))['rejected_event'])[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1
        return 0
    except CheckError as e:
        print('ERROR %s: %s' % (pid, e))
        return 2
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('scratch', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


sys.exit(main())
