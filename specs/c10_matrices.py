PROPERTY = 'C10'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure', 'accel']
EXPLANATION = ('Ghost read sets: Transform.localMatrices is executed on any attribute values and any cache entry for each of the eight switch combinations: what is handed to the '
               'matrix functions is the current value of exactly the attributes the switches ask for, a new cache entry is made dependent on every attribute read, an entry which was '
               'cleared is filled again from the current attributes. _NodePath.transformMatrix is executed on a path of any length, an arbitrary item at a time: it multiplies, in '
               'path order (inverse: reversed), the local matrices of the transforms of the path with the same switches, and a new entry depends on every attribute those '
               'were computed from; entries of different switches or direction have different keys. transformChildren lists exactly the transforms, in order. With the contracts of '
               'the cache (C09: a change of a dependency clears), of announcements (C01, C03, C08) and of the matrix functions (C11, compressMatrices for any number of matrices), '
               'a cached matrix is always that of the current attributes, by induction over the history.')
BOUNDED = ['bounded: random paths of transforms and other nodes, random histories of attribute changes, deletions, routes, extensions and queries with all switches against a product '
           'of freshly computed matrices, both builds (quick 1000, thorough 10000 histories)']
TRUSTED = ['Cache and CacheHolder (C09)', 'announcements of changes (C01, C03, C08)', 'matrix functions (C11)', 'numpy.identity']
ASSUMPTIONS = ['paths are not modified in place after their first query', 'the transforms of a path are Transform nodes with the default attribute values of VRML97',
               'matrices handed out and attribute arrays are not modified in place', 'matrices are not asked for by receivers of the announcement of the very change',
               'switches are True or False', 'the nodes of a weak path are alive']
# --- end of meta
from common import *

SWITCHES = ['translate', 'scale', 'rotate']


def needed(on):
    """The attributes a matrix with these switches is a function of"""
    r = set()
    if on['translate']:
        r.add('translation')
    if on['scale']:
        r |= {'scale', 'scaleOrientation', 'center'}
    if on['rotate']:
        r |= {'rotation', 'center'}
    return r


def the_cache(ctx, interp, owner, filled):
    """The entry of the owner by the contract of the cache (C09); depends are recorded"""
    from vrml import cache
    state = dict(keys=[], made=[], calls=[])
    found = ctx.choose(['none', 'empty'] + ['filled'])
    ctx.cover(found)
    holder = None
    if found != 'none':
        holder = ctx.obj(cache.CacheHolder, 'holder')
        interp.dict_store(holder.d, 'data', None if found == 'empty' else filled)
        del ctx.trace[:]
    state['holder'] = holder
    def lookup(interp, args, kwargs):
        names = dict(zip(['self', 'client', 'key'], args), **kwargs)
        ctx.check('the entry of the object itself is looked up', names.get('client') is owner and names['self'] is cache.CACHE, repr(names))
        state['keys'].append(names.get('key', ''))
        return holder
    def data(interp, args, kwargs):
        names = dict(zip(['self', 'client', 'key', 'default'], args), **kwargs)
        ctx.check('the entry of the object itself is looked up', names.get('client') is owner, repr(names))
        state['keys'].append(names.get('key', ''))
        return interp.dict_lookup(holder.d, 'data') if holder is not None else names.get('default')
    def make(interp, args, kwargs):
        names = dict(zip(['self', 'client', 'data', 'key'], args), **kwargs)
        ctx.check('the entry made is that of the object', names.get('client') is owner, repr(names))
        state['keys'].append(names.get('key', ''))
        h = ctx.obj(cache.CacheHolder, 'new holder')
        mark = len(ctx.trace)
        interp.dict_store(h.d, 'data', names.get('data'))
        del ctx.trace[mark:]
        state['made'].append(h)
        return h
    def depend(interp, args, kwargs):
        names = dict(zip(['self', 'node', 'field'], args), **kwargs)
        ctx.trace.append(('depend', names['self'], names['node'], names.get('field')))
    interp.contract(resolved(cache.Cache, 'getHolder'), lookup, 'Cache.getHolder (C09)')
    interp.contract(resolved(cache.Cache, 'getData'), data, 'Cache.getData (C09)')
    interp.contract(resolved(cache.Cache, 'holder'), make, 'Cache.holder (C09)')
    interp.contract(resolved(cache.CacheHolder, 'depend'), depend, 'CacheHolder.depend (C09)')
    return found, state


def field_name(f):
    return getattr(f, 'name', f)


def proofs(mode):
    import z3
    from vrml import cache, node
    from vrml.vrml97 import nodepath as np97, basenodes, transformmatrix as tm, nodetypes
    from pvc.values import Obj, SAny, SList, LazyList, V, SDict
    from pvc.engine import PyExc
    from pvc import loops, models
    out = []

    # ------------------------------------------------------------ one transform
    def local(on):
        def run(ctx):
            interp = make_interp(ctx)
            T = ctx.obj(basenodes.Transform, 'transform')
            T.d.open = True
            pair = (ctx.any('forward'), ctx.any('inverse'))
            found, state = the_cache(ctx, interp, T, pair)
            new = (ctx.any('new forward'), ctx.any('new inverse'))
            calls = []
            def matrices(interp, args, kwargs):
                names = dict(zip(['translation', 'center', 'rotation', 'scale', 'scaleOrientation'], args), **kwargs)
                calls.append(names)
                return new
            interp.contract(tm.localMatrices, matrices, 'transformmatrix.localMatrices (C11)')
            def read(interp, args, kwargs):
                # a field read through its descriptor
                f, client = args[0], args[1]
                v = interp.dict_lookup(client.d, f.name)
                return f.getDefault() if v is models.ABSENT else v
            for k in ('translation', 'center', 'rotation', 'scale', 'scaleOrientation'):
                F = type(getattr(basenodes.Transform, k))
                for entry in ('__get__', 'fget'):
                    interp.contract(resolved(F, entry), read, 'reading a field (C02)')
            how = ctx.choose(['named', 'positional'])
            try:
                if how == 'named':
                    r = interp.call(resolved(basenodes.Transform, 'localMatrices'), [T], dict(on))
                else:
                    r = interp.call(resolved(basenodes.Transform, 'localMatrices'), [T] + [on[k] for k in SWITCHES])
            except PyExc as err:
                ctx.check('it does not fail', False, str(err))
                return
            ctx.check('a cache entry is returned', isinstance(r, Obj) and issubclass(r.cls, cache.CacheHolder), repr(r))
            if not isinstance(r, Obj):
                return
            data = interp.dict_lookup(r.d, 'data')
            if found == 'filled':
                ctx.check('the entry present is returned', r is state['holder'] and data is pair, repr(r))
                return
            ctx.check('matrices are computed', len(calls) >= 1)
            ctx.check('and stored in the entry returned', data is new or isinstance(data, (tuple, list)) and len(data) == 2 and data[0] is new[0] and data[1] is new[1], repr(data))
            depends = [t for t in ctx.trace if t[0] == 'depend']
            if found == 'none':
                ok = len(state['made']) == 1
                ctx.check('a new entry is made, and returned', ok and r is state['made'][0], repr(r))
                for k in needed(on):
                    ctx.check('the new entry depends on %s' % k, any(t[1] is r and t[2] is T and field_name(t[3]) == k for t in depends), repr(depends))
            else:
                ctx.check('the entry present is filled', r is state['holder'] and not state['made'], repr(r))
            ctx.check('nothing is announced', not sends(ctx))
            if calls:
                got = calls[-1]
                for k in ('translation', 'center', 'rotation', 'scale', 'scaleOrientation'):
                    v = got.get(k)
                    now = interp.dict_lookup(T.d, k)
                    if k in needed(on):
                        ok = v is now if now is not models.ABSENT else (v is None or not is_symbolic(v))
                        ctx.check('the current %s is used' % k, ok, '%r, not %r' % (v, now))
                    elif k != 'center':
                        ctx.check('%s is not used' % k, v is None, repr(v))
                    else:
                        # without scaling and rotation the center has no effect
                        ctx.check('%s is not used' % k, v is None, repr(v))
            ctx.__dict__.setdefault('keys_used', []).append((tuple(sorted(on.items())), state['keys']))
            ctx.check('the entry made is the one looked up', len({repr(k) for k in state['keys']}) == 1 or len(set(map(hash_key, state['keys']))) == 1, repr(state['keys']))
        return run

    def is_symbolic(v):
        from pvc.values import is_sym
        return is_sym(v) or isinstance(v, SAny)

    def hash_key(k):
        try:
            return hash(k)
        except TypeError:
            return repr(k)

    combos = [dict(zip(SWITCHES, [bool(i & 4), bool(i & 2), bool(i & 1)])) for i in range(8)]
    name_of = lambda on: ','.join(k for k in SWITCHES if on[k]) or 'nothing'
    for on in combos:
        out.append(('Transform.localMatrices %s' % name_of(on), local(on), dict(covers=['none', 'empty', 'filled'])))

    def keys(ctx):
        """Entries of different questions are different"""
        got = []
        def ask(owner, f, kwargs):
            interp = make_interp(ctx)
            asked = []
            def lookup(interp, args, kwargs):
                names = dict(zip(['self', 'client', 'key'], args), **kwargs)
                asked.append(names.get('key', ''))
                h = ctx.obj(cache.CacheHolder, 'holder')
                interp.dict_store(h.d, 'data', (1, 2))
                return h
            interp.contract(resolved(cache.Cache, 'getHolder'), lookup, 'Cache.getHolder (C09)')
            interp.call(f, [owner], kwargs)
            return asked
        interp = make_interp(ctx)
        T, P = ctx.obj(basenodes.Transform, 'transform'), ctx.obj(np97.NodePath, 'path')
        P.payload = interp.make([])
        for on in combos:
            got.append((('local', tuple(on.items())), ask(T, resolved(basenodes.Transform, 'localMatrices'), dict(on))))
        for which in (False, True):
            for on in combos:
                got.append((('path', which, tuple(on.items())), ask(P, resolved(np97.NodePath, 'transformMatrix'), dict(on, inverse=which))))
        for a, ka in got:
            ctx.check('one entry is looked up', len(ka) == 1, repr(ka))
            for b, kb in got:
                if a != b and a[0] == b[0]:
                    ctx.check('matrices of different switches have different entries', ka[0] != kb[0], '%r and %r: %r' % (a, b, ka))
    out.append(('keys of entries', keys, dict(covers=[])))

    def defaults(ctx):
        """An attribute which is not set stands for the identity"""
        for k, f in (('translation', tm.transMatrix), ('center', tm.transMatrix), ('rotation', tm.rotMatrix), ('scale', tm.scaleMatrix), ('scaleOrientation', tm.rotMatrix)):
            field = getattr(basenodes.Transform, k)
            ctx.check('the default %s is the identity' % k, f(field.getDefault())[0] is None and field.name == k)
    out.append(('defaults of Transform', defaults, dict(covers=[])))

    # ------------------------------------------------------------ transforms of a path
    IsT = z3.Function('transforming', V, z3.BoolSort())

    def any_path(ctx, interp, C):
        from c21_paths import path
        p, s = path(ctx, interp, C, 'path')
        # it may have been extended from any other path
        mark = len(ctx.trace)
        q, _ = path(ctx, interp, C, 'parent')
        interp.dict_store(p.d, 'parent', q)
        del ctx.trace[mark:]
        return p, s

    def start(ctx):
        from c22_weaklist import not_refs, iter_rule
        import weakref
        from pvc.values import WeakRef, SBool
        interp = make_interp(ctx)
        interp.loop_specs.append(iter_rule)
        def isinst(interp, v, cls):
            if cls in (weakref.ReferenceType, weakref.ref):
                return isinstance(v, WeakRef)
            if cls is nodetypes.Transforming:
                return IsT(interp.to_v(v))
            return NotImplemented
        interp.class_contracts['isinstance', None] = isinst
        return interp

    def children(C, reverse):
        def run(ctx):
            interp = start(ctx)
            p, s = any_path(ctx, interp, C)
            done = []
            def rule(interp, stmt, fr, items):
                if items is None or fr.yields is None or not fr.name.endswith('transformChildren'):
                    return NotImplemented
                n = z3.Length(s)
                at = (lambda k: s[k]) if not reverse else (lambda k: s[n - 1 - k])
                def establish():
                    ctx.check('every item is looked at', models.length_term(items) == n)
                    ctx.check('nothing is listed before', type(fr.yields) is list and not fr.yields)
                def havoc(k):
                    ctx.assume(z3.Implies(k < n, z3.And(0 <= n - 1 - k, n - 1 - k < n)), check=False)
                    fr.yields = interp.make([])
                def preserved(k):
                    ctx.cover('step')
                    got = fr.yields
                    same = len(got) == 1
                    ctx.check('a transform is listed, in its place, nothing else', z3.If(IsT(at(k)), interp.to_v(got[0]) == at(k) if same else z3.BoolVal(False), z3.BoolVal(not got)), repr(got))
                loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
                fr.yields = LazyList(z3.Int(ctx.name('n')), lambda i: None, 'listed')
                done.append(1)
            interp.loop_specs.insert(0, rule)
            r = interp.call(interp.get_attr(p, 'transformChildren'), [], ctx.choose([dict(reverse=reverse)] + ([{}] if not reverse else [])))
            ctx.check('one pass lists them', len(done) == 1)
            ctx.check('nothing is changed', not dict_writes(ctx))
        return run
    for C in (np97.NodePath, np97.WeakNodePath):
        for reverse in (False, True):
            out.append(('%s.transformChildren %s' % (C.__name__, 'reversed' if reverse else 'forward'), children(C, reverse), dict(covers=['step'])))

    # ------------------------------------------------------------ the matrix of a path
    FW, BW = z3.Function('forward_of', V, V), z3.Function('inverse_of', V, V)

    def matrix(on, inverse):
        def run(ctx):
            import numpy
            interp = start(ctx)
            p, _ = any_path(ctx, interp, np97.NodePath)
            cached = ctx.any('cached matrix')
            ctx.assume(cached.z != interp.to_v(None), check=False)
            found, state = the_cache(ctx, interp, p, cached)
            s = z3.Const(ctx.name('transforms'), z3.SeqSort(V))
            asked = []
            def listing(interp, args, kwargs):
                names = dict(zip(['self', 'reverse'], args), **kwargs)
                r = names.get('reverse', 0)
                ctx.check('the transforms are those of the path', names['self'] is p)
                asked.append(bool(r))
                return SList(s, 'transforms')
            interp.contract(resolved(np97.NodePath, 'transformChildren'), listing, 'transformChildren')
            questions = []
            def local_matrices(item):
                def call(interp, args, kwargs):
                    names = dict(zip(SWITCHES, args), **kwargs)
                    full = {k: names.get(k, True) for k in SWITCHES}
                    questions.append(full)
                    h = ctx.obj(cache.CacheHolder, 'local')
                    mark = len(ctx.trace)
                    h.local_of = item
                    interp.dict_store(h.d, 'data', (interp.from_v(FW(item.z)), interp.from_v(BW(item.z))))
                    del ctx.trace[mark:]
                    return h
                from pvc.values import Model
                return Model(call, 'localMatrices')
            interp.class_contracts['attr', None, 'localMatrices'] = lambda interp, o: local_matrices(o)
            interp.class_contracts['effects', None] = ('depend',)
            products = []
            whole, some = ctx.any('product'), z3.Bool(ctx.name('any_matrix'))
            ctx.assume(whole.z != interp.to_v(None), check=False)
            def compress(interp, args, items):
                products.append((list(args), items))
                return whole if ctx.branch(some) else None
            def compress_call(interp, args, kwargs):
                products.append((list(args), []))
                return None
            interp.contract(tm.compressMatrices, compress_call, 'compressMatrices (C11)')
            interp.class_contracts['starcall', id(tm.compressMatrices)] = compress
            try:
                r = interp.call(resolved(np97.NodePath, 'transformMatrix'), [p], dict(on, inverse=inverse))
            except PyExc as err:
                ctx.check('it does not fail', False, str(err))
                return
            if found == 'filled':
                ctx.check('the matrix present is returned', r is cached, repr(r))
                ctx.check('and the entry left alone', not [t for t in ctx.trace if t[0] in ('depend', 'w')])
                return
            holder = state['holder'] if found == 'empty' else (state['made'][0] if len(state['made']) == 1 else None)
            ctx.check('the entry present is filled, or one made', holder is not None and (found == 'none' or not state['made']))
            if holder is None:
                return
            ctx.check('the matrix is stored in the entry', interp.dict_lookup(holder.d, 'data') is r, repr(r))
            ctx.check('one product is computed', len(products) == 1, repr(products))
            ctx.check('of the transforms in %s order' % ('reversed' if inverse else 'path'), asked == [inverse], repr(asked))
            for q in questions:
                ctx.check('the local matrices have the same switches', {k: bool(v) for k, v in q.items()} == on, repr(q))
            if r is not whole:
                ok = isinstance(r, numpy.ndarray) and r.shape == (4, 4) and (r == numpy.identity(4)).all()
                ctx.check('without any matrix the identity is returned', ok and not ctx.feasible(z3.And(some, z3.Length(s) > 0)) or ok and (not products[0][0] and products[0][1] == [] or not ctx.feasible(some)), repr(r))
            if products:
                args, items = products[0]
                n = models.length_term(items) if isinstance(items, (SList, LazyList)) else z3.IntVal(len(items))
                ctx.check('one matrix for each transform', n == z3.Length(s) - len(args) if not args else z3.BoolVal(False))
                k = z3.Int(ctx.name('any'))
                if ctx.feasible(z3.And(k >= 0, k < z3.Length(s))) and isinstance(items, (SList, LazyList)):
                    ctx.cover('items')
                    ctx.assume(z3.And(k >= 0, k < z3.Length(s)), check=False)
                    v = interp.to_v(models.index_list(interp, items, k))
                    ctx.check('its %s matrix, in its place' % ('inverse' if inverse else 'forward'), v == (BW if inverse else FW)(s[k]))
            if found == 'none':
                loop = [t for t in ctx.trace if t[0] == 'foreach' and any(u[0] == 'depend' for o in t[3] for u in o.trace)]
                if ctx.feasible(z3.Length(s) > 0):
                    ctx.check('the new entry depends on the transforms', len(loop) >= 1 or not needed(on))
                    ctx.check('on every transform', all(ctx_proves(ctx, t[2] == z3.Length(s)) for t in loop))
                    for name in needed(on):
                        for o_conds in segments(ctx, loop):
                            ctx.check('the new entry depends on %s of every transform' % name, any(t[1] is holder and is_item(interp, t[2], s, j) and field_name(t[3]) == name for j, o in o_conds for t in o.trace if t[0] == 'depend'), repr(o_conds))
            ctx.check('nothing is announced', not sends(ctx))
            ctx.check('the entry made is the one looked up', len(set(map(hash_key, state['keys']))) == 1, repr(state['keys']))
        return run

    def ctx_proves(ctx, goal):
        return not ctx.feasible(z3.Not(goal))

    def is_item(interp, v, s, j):
        return z3.is_expr(interp.to_v(v)) and z3.simplify(interp.to_v(v)).eq(z3.simplify(s[j]))

    def segments(ctx, loop):
        """Each way an iteration may go, across the loops over the transforms"""
        import itertools
        for combination in itertools.product(*[[(t[1], o) for o in t[3] if o.kind == 'normal'] for t in loop]):
            yield list(combination)

    for inverse in (False, True):
        for on in combos:
            out.append(('transformMatrix %s%s' % (name_of(on), ' inverse' if inverse else ''), matrix(on, inverse), dict(covers=['none', 'empty', 'filled', 'items'])))

    def switches_default(ctx):
        """All switches are on, and the matrix is the forward one, unless told otherwise"""
        import inspect
        for f, extra in ((resolved(basenodes.Transform, 'localMatrices'), {}), (resolved(np97.NodePath, 'transformMatrix'), {'inverse': False})):
            d = {k: v.default for k, v in inspect.signature(f).parameters.items()}
            ctx.check('the switches are on by default', all(d[k] is True for k in SWITCHES))
            ctx.check('and the matrix is the forward one', all(d[k] == v for k, v in extra.items()))
        import numpy
        ctx.check('both kinds of path have the matrices of _NodePath', all(C.transformMatrix is np97._NodePath.transformMatrix and C.transformChildren is np97._NodePath.transformChildren for C in (np97.NodePath, np97.WeakNodePath)))
    out.append(('defaults of the switches', switches_default, dict(covers=[])))
    return out


# ------------------------------------------------------------------ cases
def cases(rnd, tier, mode):
    g = lambda lo, hi: rnd.uniform(lo, hi)
    def value(name):
        if name in ('translation', 'center'):
            return rnd.choice([[0, 0, 0], [g(-3, 3), g(-3, 3), g(-3, 3)], [1, 0, 0]])
        if name == 'scale':
            return rnd.choice([[1, 1, 1], [g(.5, 2), g(.5, 2), g(.5, 2)], [2, 2, 2]])
        return rnd.choice([[0, 1, 0, 0], [0, 0, 1, g(-3, 3)], [g(.1, 1), g(.1, 1), g(.1, 1), g(-3, 3)]])
    NAMES = ['translation', 'rotation', 'scale', 'scaleOrientation', 'center']
    # every switch combination, every attribute changed in every way between two questions for the matrix
    many = {'translation': [1, 2, 3], 'rotation': [.6, .8, 0, 1.1], 'scale': [2, .5, 1.5], 'scaleOrientation': [0, .6, .8, .7], 'center': [3, -1, 2]}
    for on in [[a, b, c] for a in (False, True) for b in (False, True) for c in (False, True)]:
        for inverse in (False, True):
            for name in NAMES:
                for what in ('set', 'fset', 'delete', 'route'):
                    i = rnd.randint(0, 1)
                    ask = ['query', 0, '', None, on, inverse, 1]
                    new = [v + d for v, d in zip(many[name], (.5, -.3, .2, .4))]
                    yield dict(kind='history', nodes=['Transform', 'Transform'], weak=rnd.random() < .5, start=[[[k, many[k]] for k in NAMES]] * 2, acts=[ask, [what, i, name, new, on, inverse, 0], ask])
    for i in range(1000 if tier == 'quick' else 10000):
        n = rnd.randint(1, 4)
        acts = []
        for k in range(rnd.randint(4, 14)):
            what = rnd.choice(['set', 'set', 'set', 'route', 'delete', 'query', 'query', 'query', 'read', 'fset'])
            name = rnd.choice(NAMES)
            acts.append([what, rnd.randint(0, n - 1), name, value(name), [rnd.random() < .6 for s in range(3)], rnd.random() < .5, rnd.randint(0, 3)])
        yield dict(kind='history', nodes=[rnd.choice(['Transform', 'Transform', 'Transform', 'Group']) for k in range(n)], weak=rnd.random() < .5,
                   start=[[[name, value(name)] for name in NAMES if rnd.random() < .3] for k in range(n)], acts=acts)


def check_case(case):
    import numpy
    from vrml import route, node
    from vrml.vrml97 import basenodes, nodepath, transformmatrix as tm
    nodes = []
    for kind, values in zip(case['nodes'], case['start']):
        n = getattr(basenodes, kind)()
        if kind == 'Transform':
            for k, v in values:
                setattr(n, k, v)
        nodes.append(n)
    C = nodepath.WeakNodePath if case['weak'] else nodepath.NodePath
    path = C(nodes[:1])
    paths = [path]
    for n in nodes[1:]:
        path = path + [n]
        paths.append(path)
    source = {}
    def expected(p, on, inverse):
        r = numpy.identity(4)
        for n in p:
            if not isinstance(n, basenodes.Transform):
                continue
            now = {k: n.__dict__[k] for k in ('translation', 'rotation', 'scale', 'scaleOrientation', 'center') if k in n.__dict__}
            if not on[0]:
                now.pop('translation', None)
            if not on[1]:
                now.pop('scale', None), now.pop('scaleOrientation', None)
            if not on[2]:
                now.pop('rotation', None)
            full = dict(translation=None, center=None, rotation=None, scale=None, scaleOrientation=None)
            full.update(now)
            m = tm.transformMatrix(**full)
            m = numpy.identity(4) if m is None else numpy.asarray(m, 'd')
            r = m.dot(r)
        return numpy.linalg.inv(r) if inverse else r
    for what, i, name, value, on, inverse, which in case['acts'] + [['query', 0, '', None, [True, True, True], inv, len(nodes) - 1] for inv in (False, True)]:
        n = nodes[i]
        if what == 'query':
            p = paths[which % len(paths)]
            got = p.transformMatrix(translate=on[0], scale=on[1], rotate=on[2], inverse=inverse)
            want = expected(p, on, inverse)
            size = 40 * max(1, numpy.abs(want).max()) ** 2
            if numpy.asarray(got).shape != (4, 4) or not numpy.all(numpy.abs(numpy.asarray(got, 'd') - want) <= 2e-5 * size):
                return 'matrix with switches %r%s is\n%s\nexpected\n%s' % (on, ' inverse' if inverse else '', got, want)
        elif not isinstance(n, basenodes.Transform):
            continue
        elif what == 'set':
            setattr(n, name, value)
        elif what == 'fset':
            getattr(type(n), name).fset(n, value)
        elif what == 'delete':
            if name in n.__dict__:
                delattr(n, name)
        elif what == 'read':
            getattr(n, name)
        else:
            if name not in source:
                source[name] = basenodes.Transform()
            s = source[name]
            r = route.ROUTE(s, name, n, name)
            setattr(s, name, value)
            del r
    return None
