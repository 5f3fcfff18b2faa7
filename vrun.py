#!/usr/bin/env python3
"""
vrun.py ID [--tier quick|thorough] [--seed N] : decides property ID on the working tree of /repo
vrun.py ID --replay FILE                      : validates a recorded session again and shows what it breaks
vrun.py --setup                               : parses all specifications

  1. TLC checks the specification itself: the laws of the property are invariants of the model (spec/MC_*)
  2. TLC generates behaviours of the specification (spec/Gen_*), the harness replays them on the real code; seeded
     drivers add sessions with more units, offsets and sizes
  3. TLC validates every recorded session against the machine of the specification (spec/Tr*)
"""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
PY = '/opt/pypyvenv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
CORES = 8


class Machinery(Exception):
    pass


def tlc(module, cfg, scratch, extra=(), env=None, workers=8, heap='3g', timeout=800):
    """ runs TLC, returns its output; anything but a completed run (or a violated invariant) is a machinery error """
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JAR, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           universal_newlines=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise Machinery('TLC timed out: %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def tlc_stats(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(',', '')) for x in m[-1])


def model_check(mc, scratch, workers):
    """ the specification satisfies its laws: independent of /repo """
    t = time.time()
    rc, out = tlc(mc['module'], mc.get('cfg', mc['module'] + '.cfg'), scratch, workers=workers, timeout=mc.get('timeout', 600))
    if 'Model checking completed. No error has been found.' not in out:
        raise Machinery('model %s: \n%s' % (mc['module'], out[-3000:]))
    gen, dist = tlc_stats(out)
    return dict(module=mc['module'], cfg=mc.get('cfg', mc['module'] + '.cfg'), generated=gen, distinct=dist,
                wall_s=round(time.time() - t, 1))


def generate(gen, seed, scratch):
    """ behaviours of the specification, as lists of actions """
    cfg = gen.get('cfg', gen['module'] + '.cfg')
    if gen.get('mode') == 'exhaustive':
        extra = []
    else:
        extra = ['-simulate', 'num=%d' % gen['num'], '-depth', str(gen['depth']), '-seed', str(seed)]
    rc, out = tlc(gen['module'], cfg, scratch, extra=extra, workers=1 if extra else 4, timeout=gen.get('timeout', 400))
    beh = []
    for m in re.finditer(r'^"BEH (.*)"$', out, re.M):
        beh.append(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
    if not beh or 'Error:' in out:
        raise Machinery('generation by %s: \n%s' % (gen['module'], out[-3000:]))
    if extra:
        # TLC's simulator looks at all successors of the last but one state: keep one continuation of each
        rnd, by = random.Random(seed), {}
        for b in beh:
            by.setdefault(json.dumps(b[:-1]), []).append(b)
        beh = [rnd.choice(by[k]) for k in sorted(by)]
    return beh


def harness(domain, args, shard, scratch, timeout):
    a = os.path.join(scratch, 'args%d.json' % shard)
    o = os.path.join(scratch, 'trace%d.ndjson' % shard)
    json.dump(args, open(a, 'w'))
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'VERIF_REPO')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(args['seed'] * 8 + shard))
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'harness', 'main.py'), domain, a, o], env=env, cwd=scratch,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, universal_newlines=True)
    except subprocess.TimeoutExpired:
        raise Machinery('harness %s shard %d timed out' % (domain, shard))
    if p.returncode != 0:
        raise Machinery('harness %s shard %d:\n%s' % (domain, shard, p.stderr[-3000:]))
    return o


def validate(module, lines, scratch, workers=8, tag=''):
    """ verdict of the specification on every session: list of sets of (step, clause) """
    path = os.path.join(scratch, 'val%s.ndjson' % tag)
    alien, gen, dist = {}, 0, 0
    while True:
        idx = [i for i in range(len(lines)) if i not in alien]
        with open(path, 'w') as f:
            f.writelines(lines[i] for i in idx)
        rc, out = tlc(module, module + '.cfg', scratch, env={'TRACEFILE': path}, workers=workers, heap='5g')
        os.unlink(path)
        res = {}
        for m in re.finditer(r'^"DONE (\d+) (.*)"$', out, re.M):
            res[int(m.group(1))] = json.loads(m.group(2).replace('\\"', '"').replace('\\\\', '\\'))
        if len(res) == len(idx) and 'Model checking completed. No error has been found.' in out:
            break
        # a recorded value that is not even of a kind the specification can compare: the session does not conform
        m = re.search(r'^/\\ t = (\d+)$', out, re.M)
        step = re.findall(r'^/\\ l = (\d+)$', out, re.M)
        if not m or 'rror' not in out:
            raise Machinery('trace validation %s: %d of %d sessions\n%s' % (module, len(res), len(lines), out[-4000:]))
        alien[idx[int(m.group(1)) - 1]] = int(step[-1]) + 1
        if len(alien) > 3:            # these tell enough
            res, idx = {n + 1: [] for n in range(len(idx))}, idx
            break
    gen, dist = tlc_stats(out)
    pos = {i: n + 1 for n, i in enumerate(idx)}
    return [[[alien[i], 'alien']] if i in alien else res[pos[i]] for i in range(len(lines))], gen, dist


def known_findings(pid):
    path = os.path.join(HERE, 'KNOWN_FINDINGS.md')
    out = []
    for line in open(path):
        m = re.match(r'^finding: property=(\S+) signature=(\S+) (.*)$', line)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def run_check(c, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='srep-verif-')
    try:
        return _run_check(c, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run_check(c, tier, seed, scratch, t0):
    pid = c['id']
    timing = {}
    pool = cf.ThreadPoolExecutor(CORES)
    # 1. + 2. model checking and generation, side by side
    mcs = [pool.submit(model_check, m, scratch, 3) for m in c.get('mc', {}).get(tier, c.get('mc', {}).get('quick', []))]
    gens = [pool.submit(generate, g, seed, scratch) for g in c.get('gen', {}).get(tier, c.get('gen', {}).get('quick', []))]
    beh = [b for g in gens for b in g.result()]
    timing['generate'] = round(time.time() - t0, 1)
    # 3. record
    base = dict(c['args'].get('common', {}))
    base.update(c['args'][tier] if tier in c['args'] else c['args']['quick'])
    shards = []
    for i in range(CORES):
        a = dict(base)
        a.update(seed=seed, shard=i, of=CORES, tier=tier, behaviours=beh[i::CORES])
        shards.append(pool.submit(harness, c['domain'], a, i, scratch, 700 if tier == 'quick' else 20000))
    lines = []
    for s in shards:
        with open(s.result()) as f:
            lines += f.readlines()
    timing['record'] = round(time.time() - t0, 1)
    models = [m.result() for m in mcs]
    timing['model'] = round(time.time() - t0, 1)
    # 4. validate, in chunks TLC can hold
    chunks, cur, size = [], [], 0
    for l in lines:
        if cur and size + len(l) > 12e6:
            chunks.append(cur)
            cur, size = [], 0
        cur.append(l)
        size += len(l)
    if cur:
        chunks.append(cur)
    if not chunks:
        raise Machinery('no sessions recorded')
    verdicts, gen, dist = [], 0, 0
    for i, ch in enumerate(chunks):
        v, g, d = validate(c['trace'], ch, scratch, CORES, str(i))
        verdicts += v
        gen += g
        dist += d
    timing['validate'] = round(time.time() - t0, 1)
    # 5. verdict
    clauses = c.get('clauses')
    viol, counts = [], {}
    for n, v in enumerate(verdicts):
        mine = sorted((s, k) for s, k in v if clauses is None or k in clauses or k == 'alien')
        if mine:
            viol.append((n, mine))
    sess = None
    nq, kinds = 0, {}
    for l in lines:
        s = json.loads(l)
        for ev in s['steps']:
            kinds['op:' + ev['op']['k']] = kinds.get('op:' + ev['op']['k'], 0) + 1
            for q in ev.get('q', []):
                nq += 1
                kinds[q['k']] = kinds.get(q['k'], 0) + 1
    known = known_findings(pid)
    shown, unknown = set(), []
    outdir = os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    for n, mine in viol:
        s = json.loads(lines[n])
        sig = s.get('sig', '')
        hit = [k for k in known if k[0] == sig and sig]
        if hit:
            if hit[0] not in shown:
                shown.add(hit[0])
                print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][1]))
            continue
        unknown.append((n, mine, s))
    for i, (n, mine, s) in enumerate(unknown[:5]):
        path = os.path.join(outdir, '%s-%s-%d.json' % (pid, tier, i))
        json.dump(dict(property=pid, tier=tier, seed=seed, trace=c['trace'], broken=mine, session=s), open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('   clauses %s' % sorted({k for _, k in mine}))
        for st, k in mine[:3]:
            ev = s['steps'][st - 1]
            qs = [q for q in ev.get('q', []) if q['k'] == k][:1]
            print('   step %d op %s: %s %s' % (st, json.dumps(ev['op'])[:300], k, json.dumps(qs or ev.get('raw', ev.get('obs')))[:300]))
    if len(unknown) > 5:
        hist = {}
        for n, mine, s in unknown:
            for k in {k for _, k in mine}:
                hist[k + ' ' + s.get('fam', '')] = hist.get(k + ' ' + s.get('fam', ''), 0) + 1
        print('   ... %d sessions in total: %s' % (len(unknown), sorted(hist.items())))
    if os.environ.get('VRUN_KEEP'):
        with open(os.environ['VRUN_KEEP'], 'w') as f:
            for n, mine, s in unknown:
                f.write(json.dumps(dict(trace=c['trace'], broken=mine, session=s)) + '\n')
    sample = [json.loads(l) for l in lines[:: max(1, len(lines) // 3)][:3]]
    for s in sample:
        for ev in s['steps']:
            if len(ev.get('q', [])) > 3:
                ev['q'] = ev['q'][:3]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 1),
              violations=len(unknown),
              coverage=dict(states=sum(m['distinct'] for m in models) + dist,
                            transitions=sum(m['generated'] for m in models) + gen,
                            traces_validated_against_impl=len(lines), samples=[json.dumps(s)[:3000] for s in sample],
                            behaviours_generated_by_tlc=len(beh), queries_validated=nq, events_and_queries_by_kind=kinds,
                            models=models, trace_states=dist, phases_s=timing),
              assumptions=c.get('assumptions', []))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d sessions, %d queries, %d model states, %d violations, %.0f s %s' %
          (pid, tier, len(lines), nq, ev['coverage']['states'], len(unknown), ev['wall_s'], timing))
    return 1 if unknown else 0


def replay(c, path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='srep-verif-')
    try:
        v, _, _ = validate(d['trace'], [json.dumps(d['session']) + '\n'], scratch)
        print(json.dumps(v[0]))
        for st, k in v[0]:
            ev = d['session']['steps'][st - 1]
            print(st, k, json.dumps(ev['op']), json.dumps([q for q in ev.get('q', []) if q['k'] == k])[:2000], ev.get('raw', ''))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    for f in sorted(os.listdir(SPEC)):
        if f.endswith('.tla'):
            p = subprocess.run(['java', '-cp', JAR, 'tla2sany.SANY', f], cwd=SPEC, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode != 0 or '*** Errors' in p.stdout:
                print(p.stdout[-2000:])
                return 2
    p = subprocess.run([PY, '-c', 'import numpy, triangle, cached_property'])
    return p.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    if a.setup:
        sys.exit(setup())
    from checks import CHECKS
    c = CHECKS[a.id]
    c['id'] = a.id
    try:
        if a.replay:
            replay(c, a.replay)
            sys.exit(0)
        sys.exit(run_check(c, a.tier, a.seed))
    except Machinery as e:
        print('ERROR of the check %s: %s' % (a.id, e))
        sys.exit(2)


main()
