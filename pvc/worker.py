"""One process of a check: python -m pvc.worker prove|cases|replay PROPERTY MODE [file]"""
import importlib, json, os, random, signal, sys, time, traceback
import pvc
from pvc import source


class CaseTimeout(BaseException):
    pass


def spec_module(prop):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    specs = os.path.join(here, 'specs')
    if specs not in sys.path:
        sys.path.insert(0, specs)
    for name in sorted(os.listdir(specs)):
        if name.lower().startswith(prop.lower() + '_') and name.endswith('.py'):
            return importlib.import_module(name[:-3])
    raise SystemExit('no specification for %s' % prop)


def prove(prop, mode, tier, seed):
    source.setup(accel=(mode == 'accel'))
    from pvc import engine
    spec = spec_module(prop)
    result = dict(mode=mode, harnesses=[], error=None)
    only = os.environ.get('PVC_ONLY')
    shard, shards = [int(x) for x in os.environ.get('PVC_SHARD', '0/1').split('/')]
    try:
        proofs = list(spec.proofs(mode))
    except Exception:
        result['error'] = traceback.format_exc()
        return result
    for number, entry in enumerate(proofs):
        if number % shards != shard:
            continue
        name, harness = entry[0], entry[1]
        options = dict(entry[2]) if len(entry) > 2 else {}
        if only and only not in name:
            continue
        options.setdefault('wall', 60 if tier == 'quick' else 300)
        options['seed'] = seed
        if tier == 'thorough':
            options['dump'] = []
        t0 = time.time()
        try:
            rep = engine.explore(name, harness, options)
        except Exception:
            result['harnesses'].append(dict(name=name, crash=traceback.format_exc(), obligations=[], unsupported=['crash: ' + traceback.format_exc(limit=-3)],
                                            functions=[], contracts=[], assumptions=[], covers={}, paths=0, completed=0, queries=0, solver_time=0, wall=time.time() - t0))
            continue
        result['harnesses'].append(dict(
            name=name, crash=None, paths=rep.paths, completed=rep.completed, queries=rep.queries, solver_time=round(rep.solver_time, 3),
            wall=round(rep.wall, 3), unsupported=rep.unsupported, functions=sorted(rep.functions), contracts=sorted(rep.contracts),
            assumptions=sorted(rep.assumptions), covers=rep.covers, expected_covers=options.get('covers', []),
            smt=options.get('dump') or [],
            obligations=[dict(name=o.name, status=o.status, proved=o.proved, trivial=o.trivial, time=round(o.time, 3),
                              refuted=o.refuted[:3], unknown=o.unknown[:3]) for o in rep.obligations.values()]))
    return result


def real_setup(mode):
    sys.dont_write_bytecode = True
    sys.path.insert(0, source.REPO)
    if mode == 'pure':
        sys.modules['vrml_accelerate'] = None
    import vrml
    assert os.path.abspath(vrml.__file__).startswith(source.REPO + os.sep), vrml.__file__
    if mode == 'accel':
        import vrml_accelerate.fieldaccel2
        root = os.environ.get('PVC_ACCEL', '')
        assert root and vrml_accelerate.fieldaccel2.__file__.startswith(root), vrml_accelerate.fieldaccel2.__file__


def run_case(spec, case, limit=60):
    def alarm(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        return spec.check_case(case)
    except CaseTimeout:
        return 'did not finish within %d s' % limit
    except RecursionError:
        return 'RecursionError'
    except Exception:
        return 'unexpected exception: ' + traceback.format_exc(limit=-4)
    finally:
        signal.alarm(0)


def cases(prop, mode, tier, seed):
    devnull = open(os.devnull, 'w')
    out = sys.stdout
    sys.stdout = devnull
    sys.stderr = devnull
    result = dict(mode=mode, evaluations=0, distinct=0, samples=[], violations=[], kinds={}, error=None, budget_hit=False)
    seen = set()
    try:
        real_setup(mode)
        spec = spec_module(prop)
        t0 = time.time()
        budget = getattr(spec, 'CASE_SECONDS', 40) if tier == 'quick' else 400
        for case in spec.cases(random.Random(seed), tier, mode):
            if time.time() - t0 > budget:
                result['budget_hit'] = True
                break
            result['evaluations'] += 1
            text = json.dumps(case, sort_keys=True)
            if text not in seen:
                seen.add(text)
            kind = str(case.get('kind'))
            result['kinds'][kind] = result['kinds'].get(kind, 0) + 1
            if len(result['samples']) < 4 and result['kinds'][kind] == 1:
                result['samples'].append(case)
            r = run_case(spec, case)
            if r:
                result['violations'].append(dict(case=case, what=str(r)[:2000], key=case_key(spec, case)))
                if len(result['violations']) >= 40:
                    break
    except BaseException:
        result['error'] = traceback.format_exc()
    result['distinct'] = len(seen)
    sys.stdout = out
    return result


def case_key(spec, case):
    f = getattr(spec, 'known_key', None)
    return f(case) if f else json.dumps(case, sort_keys=True)


def replay(prop, mode, path):
    real_setup(mode)
    spec = spec_module(prop)
    with open(path) as f:
        data = json.load(f)
    r = run_case(spec, data['case'])
    print('replay of %s: %s' % (path, r or 'the property holds for this case'))
    return 1 if r else 0


def main(argv):
    what, prop, mode = argv[:3]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    sys.setrecursionlimit(8000 if what == 'prove' else 1500)
    if what == 'replay':
        return replay(prop, mode, argv[3])
    result = prove(prop, mode, tier, seed) if what == 'prove' else cases(prop, mode, tier, seed)
    if len(argv) > 3:
        with open(argv[3], 'w') as f:
            json.dump(result, f, default=str)
    else:
        json.dump(result, sys.stdout, indent=1, default=str)
    return 0


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code or 0)
