#!/usr/bin/env python3
"""Check one property: generate calls from its Quint specification, replay them into /repo, check the recorded
trace against the specification.   check.py Cxx [--tier quick|thorough] [--replay FILE] [--keep]"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
NPROC = max(1, min(6, (os.cpu_count() or 2) - 1))
T0 = time.time()


class Machinery(Exception):
    """The check itself failed; never a verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def quint(args, cwd, timeout):
    env = dict(os.environ, NODE_OPTIONS='--max-old-space-size=3500', JAVA_TOOL_OPTIONS='-Xmx2g')
    p = subprocess.Popen(['quint'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Machinery('quint timed out: ' + ' '.join(args))
    return p.returncode, out


def unitf(v):
    """ITF value -> Python."""
    if isinstance(v, dict):
        if '#bigint' in v: return int(v['#bigint'])
        if '#map' in v: return {unitf(a): unitf(b) for a, b in v['#map']}
        if '#tup' in v: return [unitf(a) for a in v['#tup']]
        if '#set' in v: return [unitf(a) for a in v['#set']]
        return {a: unitf(b) for a, b in v.items()}
    if isinstance(v, list): return [unitf(a) for a in v]
    return v


def generate(prop, cfg, seed, scratch):
    """Run the generator machine(s); returns a list of traces (lists of calls)."""
    jobs = []
    for gi, g in enumerate(cfg['gen']):
        n = g.get('procs', 1)
        for k in range(n):
            jobs.append((gi, k, n, g))

    def one(job):
        gi, k, n, g = job
        d = os.path.join(scratch, 'gen%d_%d' % (gi, k))
        os.mkdir(d)
        for f in os.listdir(os.path.join(ROOT, 'spec')):
            if f.endswith('.qnt'): shutil.copy(os.path.join(ROOT, 'spec', f), d)
        cnt = max(1, g['traces'] // n)
        rc, out = quint(['run', '--backend', 'typescript', '--main', g['module'], '--max-samples', str(cnt), '--n-traces', str(cnt),
                         '--max-steps', str(g['steps']), '--mbt', '--seed', str(1000003 * seed + 7919 * gi + 104729 * k + 1),
                         '--out-itf', 'o_{seq}.itf.json', '--verbosity', '1', g.get('file', prop) + '.qnt'], d, 800)
        files = sorted((f for f in os.listdir(d) if f.endswith('.itf.json')), key=lambda f: int(re.findall(r'\d+', f)[0]))
        if rc != 0 or not files:
            raise Machinery('generator %s failed (%d)\n%s' % (g['module'], rc, out[-3000:]))
        traces, acts = [], {}
        for f in files:
            j = json.load(open(os.path.join(d, f)))
            tr = []
            for s in j['states'][1:]:
                c = unitf(s['call'])
                a = s.get('mbt::actionTaken')
                acts[a] = acts.get(a, 0) + 1
                if c['op'] != '': tr.append(c)
            if tr: traces.append(tr)
        shutil.rmtree(d)
        return gi, traces, acts, g
    traces, acts = [], {}
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for gi, tr, a, g in ex.map(one, jobs):
            if g.get('split'):      # independent calls: one trace each
                tr = [[c] for t in tr for c in t]
            traces += tr
            for k, v in a.items(): acts[str(k)] = acts.get(str(k), 0) + v
    return traces, acts


def replay_calls(cfg, traces, scratch):
    """Run the driver on all traces, in parallel chunks; returns list of lists of observations."""
    nchunk = max(1, min(cfg.get('drivers', 4), len(traces)))
    groups = [list(range(k, len(traces), nchunk)) for k in range(nchunk)]
    res = [[None] * len(t) for t in traces]

    def one(gk):
        grp = groups[gk]
        d = os.path.join(scratch, 'drv%d' % gk)
        os.mkdir(d)
        calls = os.path.join(d, 'calls.json')
        out = os.path.join(d, 'out.jsonl')
        json.dump([traces[t] for t in grp], open(calls, 'w'))
        open(out, 'w').close()
        cwd = os.path.join(d, 'cwd')
        os.mkdir(cwd)
        env = dict(os.environ, MPLBACKEND='agg', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                   MPLCONFIGDIR=d, PYTHONHASHSEED='0')
        t, k = 0, 0
        for attempt in range(50):
            try:
                p = subprocess.run([PY, os.path.join(HERE, 'driver.py'), cfg['driver'], calls, out, str(t), str(k)], cwd=cwd, env=env,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                   timeout=cfg.get('drv_timeout', 600), text=True)
                rc, err = p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                rc, err = -99, 'driver timeout'
            last = None
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if 'start' in r: last = r
                else:
                    res[grp[r['t']]][r['k']] = r['obs']
                    last = None
            if os.environ.get('VERIF_DEBUG') and err: log(err[-3000:])
            if rc == 0: return
            if last is None:
                if all(o is not None for g in grp for o in res[g]): return
                # nothing was running: the harness or the import failed
                raise Machinery('driver failed: ' + err[-3000:]) if not importable_failure(err) else ImportFailure(err)
            # a call killed the process: it is the observation
            res[grp[last['t']]][last['k']] = dict(ok='timeout' if rc == -99 else 'died', i={}, x={})
            t, k = last['t'], last['k'] + 1
            if k >= len(traces[grp[t]]): t, k = t + 1, 0
            elif len(traces[grp[t]]) > 1:      # history lost: the rest of this trace is not replayed
                for kk in range(k, len(traces[grp[t]])): res[grp[t]][kk] = dict(ok='lost', i={}, x={})
                t, k = t + 1, 0
            if t >= len(grp): return
        raise Machinery('driver kept dying')
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, range(nchunk)))
    return res


class ImportFailure(Exception):
    """The package under test cannot be imported."""


def importable_failure(err):
    return 'active_subspaces' in err or '/repo/' in err


# ---- writing the trace module -------------------------------------------------------------------------------
def lit_t(t):
    if not t['fin']: return 'NAN([%s])' % ','.join(str(int(v)) for v in t['sh'])
    d = [int(v) for v in t['d']]
    if not d: return 'mkT([%s], [])' % ','.join(map(str, t['sh']))
    sh = '[%s]' % ','.join(str(int(v)) for v in t['sh'])
    if len(d) <= 2: return 'mkT(%s, [%s])' % (sh, ','.join(map(str, d)))
    b = 10 ** (len(str(2 * max(abs(v) for v in d) + 2)))
    parts = []
    for lo in range(0, len(d), 400):
        seg = d[lo:lo + 400]
        parts.append('unpack(%s, %d, %d)' % (pack(seg, b), len(seg), b))
    body = parts[0] if len(parts) == 1 else 'cat([%s])' % ', '.join(parts)
    return 'mkT(%s, %s)' % (sh, body)


def pack(seg, b):
    """little-endian digits in base b (a power of ten), each offset by b/2"""
    w = len(str(b)) - 1
    return ''.join(str(v + b // 2).zfill(w) for v in reversed(seg)).lstrip('0') or '0'


def lit_map(m, f, typ):
    if not m: return 'Map("" -> %s)' % typ
    return 'Map(%s)' % ', '.join('"%s" -> %s' % (k, f(v)) for k, v in m.items())


def lit_ev(c, o):
    return '{ c: { op: "%s", i: %s, x: %s }, o: { ok: "%s", i: %s, x: %s } }' % (
        c['op'], lit_map(c['i'], str, '0'), lit_map(c['x'], lit_t, 'NOT'),
        o['ok'], lit_map(o['i'], str, '0'), lit_map(o['x'], lit_t, 'NOT'))


TR = '''module tr {
  import fx.* from "./fx"
  import %(mod)s.* from "./%(file)s"
%(vals)s
  pure val EV: List[Ev] = [%(list)s]
  var l: int
  var st: St
  var bad: List[(int, str)]
  var tags: List[str]
  action init = all { l' = 0, st' = st0, bad' = [], tags' = [] }
  action step = all {
    l < EV.length(),
    val r = accept(if (EV[l].c.i.keys().contains("reset__")) st0 else st, EV[l].c, EV[l].o)
    all {
      l' = l + 1,
      st' = r.st,
      bad' = r.bad.foldl(bad, (a, b) => a.append((l, b))),
      tags' = tags.append(r.tag),
    }
  }
}
'''


def check_events(cfg, evs, d):
    """evs: list of (call, obs). Returns (list of (index, clause), tags)."""
    os.mkdir(d)
    for f in os.listdir(os.path.join(ROOT, 'spec')):
        if f.endswith('.qnt'): shutil.copy(os.path.join(ROOT, 'spec', f), d)
    vals = '\n'.join('  pure val E%d: Ev = %s' % (k, lit_ev(c, o)) for k, (c, o) in enumerate(evs))
    src = TR % dict(mod=cfg['spec'], file=cfg.get('file', cfg['spec']), vals=vals, list=', '.join('E%d' % k for k in range(len(evs))))
    open(os.path.join(d, 'tr.qnt'), 'w').write(src)
    rc, out = quint(['run', '--backend', 'typescript', '--main', 'tr', '--max-samples', '1', '--n-traces', '1', '--max-steps', str(len(evs)),
                     '--seed', '1', '--out-itf', 'o.itf.json', '--verbosity', '1', 'tr.qnt'], d, cfg.get('tc_timeout', 800))
    p = os.path.join(d, 'o.itf.json')
    if rc != 0 or not os.path.exists(p):
        m = re.search(r'QNT5\d\d', out)
        if m: return None, out
        raise Machinery('trace check failed (%d)\n%s' % (rc, out[-3000:]))
    s = json.load(open(p))['states'][-1]
    s = {k: unitf(s[k]) for k in ('l', 'bad', 'tags')}
    if s['l'] != len(evs): raise Machinery('trace not consumed: %d of %d' % (s['l'], len(evs)))
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(d)
    return s['bad'], s['tags']


def cost(t):
    return sum(1 + 0.01 * sum(len(x['d']) for x in list(c['x'].values()) + list(o['x'].values())) for c, o in t)


def check_traces(cfg, traces, obs, scratch):
    """Validate all traces; returns list of (trace, call, clause), tags per event."""
    tr = [list(zip(t, o)) for t, o in zip(traces, obs)]
    order = sorted(range(len(tr)), key=lambda k: -cost(tr[k]))
    nch = max(1, min(cfg.get('checkers', 6), len(tr)))
    maxev = cfg.get('chunk', 400)
    total = sum(len(t) for t in tr)
    nch = max(nch, -(-total // maxev)) if len(tr) >= -(-total // maxev) else nch
    chunks, load = [[] for _ in range(nch)], [0] * nch
    for k in order:
        j = load.index(min(load))
        chunks[j].append(k); load[j] += cost(tr[k])
    bad, tags, ctr = [], {}, [0]

    def run(ks, name):
        evs, where = [], []
        for k in ks:
            for j, (c, o) in enumerate(tr[k]):
                if o['ok'] == 'lost': continue
                if j == 0: c = dict(c, i=dict(c['i'], reset__=1))
                evs.append((c, o)); where.append((k, j))
        if not evs: return
        b, tg = check_events(cfg, evs, os.path.join(scratch, name))
        if b is not None:
            for (l, cl) in b: bad.append(where[l] + (cl,))
            for w, g in zip(where, tg): tags[w] = g
            return
        if len(ks) > 1:     # an observation outside the domain of the specification: find it
            h = len(ks) // 2
            run(ks[:h], name + 'a'); run(ks[h:], name + 'b')
        else:
            log('specification undefined at', tr[ks[0]][0][0]['op'], tg[-800:])
            bad.append((ks[0], len(tr[ks[0]]) - 1, 'observation outside the domain of the specification'))
            for j in range(len(tr[ks[0]])): tags[(ks[0], j)] = 'undefined'
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda a: run(a[1], 'tc%d' % a[0]), [(j, c) for j, c in enumerate(chunks) if c]))
    return sorted(bad), tags


def tlc(cfg, prop, scratch, tier):
    """Exhaustive exploration of the abstract machine; returns evidence."""
    out_ev = []
    for mi, m in enumerate(cfg.get('tlc', [])):
        if m.get('tier', 'quick') == 'thorough' and tier != 'thorough': continue
        d = os.path.join(scratch, 'tlc%d' % mi)
        os.mkdir(d)
        for f in os.listdir(os.path.join(ROOT, 'spec')):
            if f.endswith('.qnt'): shutil.copy(os.path.join(ROOT, 'spec', f), d)
        rc, out = None, ''
        for attempt in range(4):  # the translation server is shared between processes: one may end another's
            if attempt: time.sleep(3 * attempt)
            rc, out = quint(['verify', '--backend', 'tlc', '--main', m['module'], '--invariant', m['inv'], m.get('file', prop) + '.qnt'], d, 300)
            mm = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out.replace(',', ',')) or \
                re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
            if mm: break
        if not mm: raise Machinery('TLC gave no result for %s\n%s' % (m['module'], out[-3000:]))
        if rc != 0: raise Machinery('the specification violates its own invariant %s\n%s' % (m['inv'], out[-3000:]))
        out_ev.append(dict(module=m['module'], invariant=m['inv'], transitions=int(mm.group(1).replace(',', '')), states=int(mm.group(2).replace(',', ''))))
        shutil.rmtree(d)
    return out_ev


def known(prop, call, clause, findings):
    for f in findings:
        if f['property'] != prop or f['clause'] != clause or f['op'] != call['op']: continue
        if all(call['i'].get(k) == v for k, v in f.get('i', {}).items()) and \
           all(call['x'].get(k, {}).get('d') == v for k, v in f.get('x', {}).items()): return f
    return None


def short(c):
    s = json.dumps(c)
    return c if len(s) < 1500 else dict(op=c['op'], i=c['i'], x={k: dict(sh=v['sh'], d=v['d'][:12], n=len(v['d'])) for k, v in c['x'].items()})


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay'); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    a = ap.parse_args()
    import props
    prop = a.prop
    cfg = props.config(prop, a.tier)
    scratch = tempfile.mkdtemp(prefix='vq_%s_' % prop)
    try:
        os.chmod(scratch, 0o755)
        code = run(a, prop, cfg, scratch)
    except Machinery as e:
        log('MACHINERY FAILURE', prop, e)
        code = 3
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(scratch, ignore_errors=True)
        else: log('kept', scratch)
    return code


def run(a, prop, cfg, scratch):
    findings = [f for f in json.load(open(os.path.join(ROOT, 'known_findings.json')))['known'] if f['property'] == prop]
    replays = os.path.join(ROOT, 'replays')
    os.makedirs(replays, exist_ok=True)
    ex = concurrent.futures.ThreadPoolExecutor(1)
    mc = [] if a.replay else ex.submit(tlc, cfg, prop, scratch, a.tier)
    t1 = time.time()
    if a.replay:
        traces, acts = json.load(open(a.replay))['traces'], {}
    else:
        traces, acts = generate(prop, cfg, a.seed, scratch)
        traces += cfg.get('extra', [])
    t2 = time.time()
    try:
        obs = replay_calls(cfg, traces, scratch)
    except ImportFailure as e:
        path = os.path.join(replays, '%s_import.json' % prop)
        json.dump(dict(property=prop, traces=traces[:1], bad=['package cannot be imported']), open(path, 'w'))
        print('VIOLATION property=%s replay=%s' % (prop, path)); log(e)
        return 1
    t3 = time.time()
    bad, tags = check_traces(cfg, traces, obs, scratch)
    t4 = time.time()
    mc = mc.result() if mc else []
    nev = sum(1 for o in obs for x in o if x['ok'] != 'lost')
    tagc = {}
    for g in tags.values(): tagc[g] = tagc.get(g, 0) + 1
    nontriv = set()
    for (k, j), g in tags.items():
        if not g.startswith('-'): nontriv.add(hashlib.sha1(json.dumps([traces[k][:j + 1] if len(traces[k]) > 1 else traces[k][j]], sort_keys=True).encode()).hexdigest())
    # verdict
    new, seen = [], {}
    for (k, j, cl) in bad:
        f = known(prop, traces[k][j], cl, findings)
        if f: seen[f['id']] = f
        else: new.append((k, j, cl))
    for f in seen.values(): print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    clauses = {}
    for (k, j, cl) in new: clauses.setdefault((traces[k][j]['op'], cl), []).append((k, j))
    for (op, cl), w in sorted(clauses.items()):
        k, j = w[0]
        log('  violated: %s: %s (%d events), e.g. %s -> %s' % (op, cl, len(w), json.dumps(short(traces[k][j]))[:700], json.dumps(short(dict(op='', i=obs[k][j]['i'], x=obs[k][j]['x'])))[:500] + ' ' + obs[k][j]['ok']))
    if os.environ.get('VERIF_SELFTEST'):
        selftest(cfg, traces, obs, scratch)
    oks = {}
    for o in obs:
        for x in o: oks[x['ok']] = oks.get(x['ok'], 0) + 1
    level = cfg['level']
    samples = [dict(call=short(traces[k][0]), observed=short(dict(op=obs[k][0]['ok'], i=obs[k][0]['i'], x=obs[k][0]['x'])), tag=tags.get((k, 0), ''))
               for k in sorted(set([0, len(traces) // 2, len(traces) - 1]))] if traces else []
    cov = dict(evaluations=nev, distinct_nontrivial=len(nontriv), rule=cfg['rule'], samples=samples, cases=tagc, outcomes=oks,
               traces_validated_against_impl=len(traces), generator_actions=acts)
    if mc:
        cov.update(states=sum(m['states'] for m in mc), transitions=sum(m['transitions'] for m in mc), tlc=mc)
    if cfg.get('coverage'): cov.update(cfg['coverage'](traces, obs, tags))
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level=level, coverage=cov, assumptions=cfg.get('assumptions', []) + props_assumptions(),
              wall_s=round(time.time() - T0, 2), violations=len(new))
    if not a.replay:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    log('%s %s: %d events in %d traces, %d distinct nontrivial, %d violated, gen %.1fs replay %.1fs check %.1fs total %.1fs; cases %s; outcomes %s' % (
        prop, a.tier, nev, len(traces), len(nontriv), len(new), t2 - t1, t3 - t2, t4 - t3, time.time() - T0, json.dumps(tagc, sort_keys=True), json.dumps(oks, sort_keys=True)))
    # vacuity: every case class the configuration names must have occurred
    if not a.replay:
        for need in cfg.get('need', []):
            if not any(re.match(need, g) for g in tagc):
                if not new: raise Machinery('case %s was never exercised' % need)
    if new:
        k0 = sorted({k for k, _, _ in new})[:20]
        path = os.path.join(replays, '%s_seed%d_%s.json' % (prop, a.seed, a.tier))
        json.dump(dict(property=prop, traces=[traces[k] for k in k0], bad=[[traces[k][j]['op'], cl] for k, j, cl in new[:200]]), open(path, 'w'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def props_assumptions():
    return ['Quint evaluator (bigint arithmetic)', 'the driver reports what the real package returned (rounded to 1e-15)',
            'tolerances of the specification (see spec) absorb floating-point rounding']


def selftest(cfg, traces, obs, scratch):
    """Development aid: corrupt recorded fields one at a time; the specification must reject the corrupted trace."""
    import random
    r = random.Random(5)
    acc, tot, miss = 0, 0, {}
    cand = [(k, j) for k in range(len(traces)) for j in range(len(traces[k])) if obs[k][j]['ok'] == 'ok' and obs[k][j]['x']]
    r.shuffle(cand)
    tr2, ob2, what = [], [], []
    for (k, j) in cand[:int(os.environ.get('VERIF_SELFTEST'))]:
        o = json.loads(json.dumps(obs[k]))
        names = [n for n, t in o[j]['x'].items() if t['fin'] and t['d']]
        if not names: continue
        n = r.choice(names)
        e = r.randrange(len(o[j]['x'][n]['d']))
        v = int(o[j]['x'][n]['d'][e])
        o[j]['x'][n]['d'][e] = str(v + max(abs(v) // 50, 10 ** 13))
        tr2.append(traces[k]); ob2.append(o); what.append((traces[k][j]['op'], n, e))
    bad, _ = check_traces(cfg, tr2, ob2, tempfile.mkdtemp(dir=scratch))
    hit = {k for k, _, _ in bad}
    for k, w in enumerate(what):
        if k not in hit: miss[w[:2]] = miss.get(w[:2], 0) + 1
    log('SELFTEST: %d corrupted, %d rejected; accepted: %s' % (len(what), len(hit), miss))


if __name__ == '__main__':
    sys.exit(main())
