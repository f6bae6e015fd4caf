"""The check of one property: python -m pvc.runner PROPERTY"""
import json, os, shutil, subprocess, sys, tempfile, time, hashlib
from pvc import source

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
REPO = source.REPO


def env(extra=None):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PVC_REPO=REPO)
    e['PYTHONPATH'] = VERIF
    e.update(extra or {})
    return e


def build_accel(scratch):
    """Compile the extensions from the working tree, outside it"""
    target = os.path.join(scratch, 'accelerate')
    shutil.copytree(os.path.join(REPO, 'accelerate'), target,
                    ignore=shutil.ignore_patterns('build', '*.so', '*.c', '__pycache__', '*.egg-info', 'dist'))
    p = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '-j4'], cwd=target, env=env({'PYTHONPATH': ''}),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode:
        return None, p.stdout.decode('utf-8', 'replace')[-3000:]
    return target, ''


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    table = {}
    for entry in data.get('findings', []):
        table.setdefault(entry['property'], {})[entry['key']] = entry['what']
    return table


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    specs = [n for n in os.listdir(os.path.join(VERIF, 'specs')) if n.lower().startswith(prop.lower() + '_')]
    text = open(os.path.join(VERIF, 'specs', specs[0])).read()
    meta = {}
    exec(compile(text.split('# --- end of meta')[0], specs[0], 'exec'), meta)
    scratch = tempfile.mkdtemp(prefix='pvc-%s-' % prop)
    try:
        return check(prop, tier, seed, meta, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, seed, meta, scratch, t0):
    jobs = []
    limit = 700 if tier == 'quick' else 3300
    e = {'VERIF_TIER': tier, 'VERIF_SEED': str(seed)}
    def start(what, mode, extra, part=''):
        out = os.path.join(scratch, '%s-%s%s.json' % (what, mode, part))
        p = subprocess.Popen([PY, '-m', 'pvc.worker', what, prop, mode, out], cwd=scratch, env=env(dict(e, **extra)),
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        jobs.append((what, mode, out, p))
    shards = meta.get('SHARDS', 1)
    for mode in meta['PROOF_MODES']:
        for i in range(shards):
            start('prove', mode, {'PVC_SHARD': '%d/%d' % (i, shards)}, '-%d' % i)
    notes = []
    accel_log = None
    if 'pure' in meta['CASE_MODES']:
        start('cases', 'pure', {})
    accel = None
    if 'accel' in meta['CASE_MODES']:
        accel, accel_log = build_accel(scratch)
        if accel is None:
            notes.append('the compiled extensions do not build: %s' % accel_log)
        else:
            start('cases', 'accel', {'PYTHONPATH': VERIF + os.pathsep + accel, 'PVC_ACCEL': accel})
    results = {}
    for what, mode, out, p in jobs:
        try:
            _, err = p.communicate(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            notes.append('%s %s: out of time' % (what, mode))
        if os.path.exists(out):
            with open(out) as f:
                data = json.load(f)
            if (what, mode) in results:
                results[what, mode]['harnesses'] += data['harnesses']
                results[what, mode]['error'] = results[what, mode]['error'] or data['error']
            else:
                results[what, mode] = data
        else:
            notes.append('%s %s gave no result: %s' % (what, mode, err.decode('utf-8', 'replace')[-1500:]))
    return report(prop, tier, seed, meta, results, notes, t0, scratch, accel)


def report(prop, tier, seed, meta, results, notes, t0, scratch, accel):
    known = known_findings().get(prop, {})
    obligations, undischarged, refuted = [], [], []
    functions, contracts, assumptions = set(), set(), set()
    queries = solver_time = 0
    smt = []
    for (what, mode), r in sorted(results.items()):
        if r.get('error'):
            notes.append('%s %s: %s' % (what, mode, r['error']))
        if what != 'prove':
            continue
        for h in r['harnesses']:
            functions.update('%s (%s)' % (f, mode) for f in h['functions'])
            contracts.update(h['contracts'])
            assumptions.update(h['assumptions'])
            queries += h['queries']
            solver_time += h['solver_time']
            smt += [('%s/%s' % (mode, n), s) for n, s in h.get('smt', [])]
            count = 0
            for o in h['obligations']:
                name = '%s/%s/%s' % (mode, h['name'], o['name'])
                count += 1
                status = o['status']
                obligations.append((name, status if not h['unsupported'] else ('incomplete' if status == 'proved' else status), o))
                if status == 'refuted':
                    refuted.append((name, o, h))
            for why in h['unsupported']:
                undischarged.append('%s/%s: %s' % (mode, h['name'], why))
            missing = [c for c in h.get('expected_covers', []) if not h['covers'].get(c)]
            for c in missing:
                undischarged.append('%s/%s: never reached "%s" (vacuity guard)' % (mode, h['name'], c))
            if not count and not h['unsupported']:
                undischarged.append('%s/%s: no obligations (vacuity guard)' % (mode, h['name']))
    for name, status, o in obligations:
        if status == 'unknown':
            undischarged.append('%s: %s' % (name, (o['unknown'] or [{}])[0].get('reason')))
    discharged = [n for n, s, o in obligations if s == 'proved']
    evaluations = distinct = 0
    samples, violations, kinds = [], [], {}
    for (what, mode), r in sorted(results.items()):
        if what != 'cases':
            continue
        evaluations += r['evaluations']
        distinct += r['distinct']
        samples += [dict(c, build=mode) for c in r['samples']]
        for k, n in r['kinds'].items():
            kinds['%s:%s' % (mode, k)] = n
        violations += [dict(v, mode=mode) for v in r['violations']]
        if r['budget_hit']:
            notes.append('cases %s: stopped at the time budget' % mode)
    second = second_solver(smt, tier) if smt else None
    status = 0
    lines = []
    fresh = []
    for v in violations:
        if v['key'] in known:
            line = 'KNOWN-FINDING: property=%s %s' % (prop, known[v['key']])
            if line not in lines:
                lines.append(line)
        else:
            fresh.append(v)
    replay_dir = os.path.join(VERIF, 'evidence', 'replay')
    failed_names = [n for n, o, h in refuted]
    if fresh:
        v = fresh[0]
        path = write_replay(replay_dir, prop, dict(
            property=prop, build=v['mode'], case=v['case'], what=v['what'],
            failed_obligations=failed_names or ['contract of %s checked on this case' % prop],
            verifier=[dict(name=n, refuted=o['refuted'][:1]) for n, o, h in refuted[:5]],
            others=[dict(case=x['case'], what=x['what'][:300], build=x['mode']) for x in fresh[1:6]],
            replay='cd %s && python3 bin/replay.py <this file>' % VERIF))
        lines.append('failed: %s' % v['what'].strip().split('\n')[-1][:300])
        for n in failed_names[:8]:
            lines.append('failed obligation: %s' % n)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        status = 1
    elif any(x.get('exact', True) for n, o, h in refuted for x in o['refuted']):
        exact = [(n, o, h) for n, o, h in refuted if any(x.get('exact', True) for x in o['refuted'])]
        path = write_replay(replay_dir, prop, dict(
            property=prop, failed_obligations=failed_names,
            verifier=[dict(name=n, refuted=o['refuted']) for n, o, h in exact[:10]],
            note='the verifier refuted these obligations; the directed replay on the real code found no failing input'))
        for n in failed_names[:8]:
            lines.append('failed obligation: %s' % n)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        status = 1
    else:
        for n, o, h in refuted:
            undischarged.append('%s: refuted only on an over-approximated path, not replayed' % n)
    # a check that explored nothing has no answer
    if status == 0 and not evaluations and not discharged:
        lines.append('ERROR: nothing was explored: %s' % '; '.join(notes)[:2000])
        status = 2
    for u in undischarged[:12]:
        lines.append('UNDECIDED %s' % u[:300])
    for n in notes[:6]:
        lines.append('NOTE %s' % n[:1500])
    lines.append('%s %s: %d obligations, %d discharged, %d undecided; %d bounded cases; %.1f s' % (
        prop, 'violated' if status == 1 else 'holds' if status == 0 else 'no answer', len(obligations), len(discharged), len(undischarged), evaluations, time.time() - t0))
    coverage = dict(
        obligations=len(obligations), discharged=len(discharged),
        checker_cmd='%s -m pvc.runner %s (VC generation by symbolic execution of the ASTs of /repo, SMT back end z3 %s)' % (PY, prop, z3_version()),
        trusted_base=sorted(set(TRUSTED) | set(meta.get('TRUSTED', ()))),
        evaluations=evaluations, distinct_nontrivial=distinct,
        rule=meta.get('RULE', 'bounded cases executed on the real code, distinct by their JSON text; each checks the property\'s contract'),
        samples=samples[:8],
        explanation=meta.get('EXPLANATION', ''),
        functions_under_contract=sorted(functions), contracts_assumed_at_calls=sorted(contracts),
        obligation_list=[dict(name=n, status=s, paths=o['proved'], trivial=o['trivial'], solver_s=o['time']) for n, s, o in obligations],
        undischarged=undischarged, solver_queries=queries, solver_time_s=round(solver_time, 2), cases_by_kind=kinds,
        bounded_standins=list(meta.get('BOUNDED', ())), extraction_drops=source.DROPPED if 'accel' in meta['PROOF_MODES'] else [],
        source_sha256=source.tree_hash(), second_solver=second,
    )
    level = meta['LEVEL']
    if level == 'proof' and (undischarged or refuted or not discharged):
        level = 'other'
        coverage['explanation'] += ' [this run: not all obligations were discharged; see undischarged]'
    if not coverage['explanation']:
        coverage['explanation'] = 'deductive verification plus bounded contract checks; see DESIGN.md'
    evidence = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage,
                    assumptions=sorted(assumptions | set(meta.get('ASSUMPTIONS', ()))), wall_s=round(time.time() - t0, 2),
                    violations=len(fresh) if fresh else (1 if status == 1 else 0))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    for line in lines:
        print(line)
    sys.stdout.flush()
    return status


TRUSTED = [
    'z3 (SMT solver)',
    'pvc: the verification condition generator in /verif/pvc (interpretation of Python, heap model)',
    'CPython: semantics of builtins as modelled in pvc/models.py',
    'pydispatch: send delivers to every connected receiver in turn; robustApply calls the receiver once',
]


def z3_version():
    try:
        import pvc as _p
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def second_solver(smt, tier):
    """Discharge the dumped obligations again with another solver"""
    tools = [('cvc5', ['cvc5', '--tlimit=20000', '--strings-exp']), ('z3-4.8.12', ['z3', '-T:20'])]
    counts = {}
    t0 = time.time()
    for name, cmd in tools:
        if not shutil.which(cmd[0]):
            continue
        c = dict(unsat=0, sat=0, other=0)
        for i, (n, text) in enumerate(smt[:400]):
            if time.time() - t0 > 900:
                c['skipped'] = len(smt) - i
                break
            with tempfile.NamedTemporaryFile('w', suffix='.smt2') as f:
                if name == 'cvc5':
                    f.write('(set-logic ALL)\n')
                f.write(text)
                f.flush()
                try:
                    p = subprocess.run(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=40)
                    answer = p.stdout.decode().strip().split('\n')[0]
                except subprocess.TimeoutExpired:
                    answer = 'timeout'
            c[answer if answer in ('sat', 'unsat') else 'other'] += 1
        counts[name] = c
    return counts


def write_replay(directory, prop, data):
    os.makedirs(directory, exist_ok=True)
    text = json.dumps(data, indent=1, default=str, sort_keys=True)
    path = os.path.join(directory, '%s-%s.json' % (prop, hashlib.sha256(text.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(text)
    return os.path.relpath(path, VERIF) if path.startswith(VERIF) else path


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
