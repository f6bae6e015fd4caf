PROPERTY = 'C09'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
EXPLANATION = ('A cache of any content is a map from (object, key) to holder. Every operation of Cache and CacheHolder, and the callback run when an object dies, is executed '
               'symbolically on a cache of unknown content: installing a holder changes that one entry of the map; clearing, and the death of a dependency, drop the data '
               'of that holder only, whether it is still installed or was replaced; the death of the owner empties the map at its identity, so an object which gets that '
               'identity finds nothing; depending on a field subscribes to exactly its set, del and route messages, depending on an object stores a weak reference calling '
               'the holder back. The property follows by induction over the history of operations.')
BOUNDED = ['bounded: random histories of caching, replacing, depending, changing, deleting, routing, dying (with identity reuse) and querying against a reference map (quick 5000, thorough 20000 histories)']
TRUSTED = ['pydispatch: calls each connected receiver for a message of its sender and signal, holding receivers weakly', 'weakref: the callback of a live reference is called once, when its target dies and before its identity is reused', 'dict']
ASSUMPTIONS = ['keys are hashable', 'the cache is changed through Cache and CacheHolder only']
# --- end of meta
from common import *


def the_cache(ctx, interp):
    """A cache of unknown content"""
    from pvc.values import Obj, SDict, SInt, WeakRef
    from vrml import cache
    C = ctx.obj(cache.Cache, 'cache')
    C.payload = SDict(True, 'cache')
    holders = []
    def entries(key):
        d = SDict(True, 'entries')
        d.value_maker = lambda k: holder(key, k)
        return d
    def holder(owner, k):
        h = ctx.obj(cache.CacheHolder, 'holder%d' % len(holders))
        mark = len(ctx.trace)
        holders.append(h)
        interp.dict_store(h.d, 'data', ctx.any('data'))
        interp.dict_store(h.d, 'key', k)
        for ref, t, c in ids(ctx):
            if isinstance(owner, SInt) and owner.z.eq(t):
                interp.dict_store(h.d, 'client', WeakRef(c, ctx.any('callback')))
                break
        else:
            interp.unsupported('entry of an unknown object')
        interp.dict_store(h.d, 'cache', WeakRef(C))
        interp.dict_store(h.d, 'nodeDependencies', interp.make([]))
        del ctx.trace[mark:]
        return h
    C.payload.value_maker = entries
    return C


def ids(ctx):
    return ctx.__dict__.setdefault('_known', [])


def client_object(ctx, interp, label='client'):
    """An object with an identity; its truth value is unknown"""
    c = ctx.any(label)
    ctx.assume(interp.to_v(c) != interp.to_v(None), check=False)
    t = interp.call(id, [c]).z
    ids(ctx).append((interp.to_v(c), t, c))
    return c


def proofs(mode):
    import z3
    from vrml import cache
    from pvc.values import Obj, SDict, SInt, WeakRef, Bound
    from pvc.engine import PyExc
    out = []
    get_holder = lambda interp, C, c, k: interp.call(resolved(cache.Cache, 'getHolder'), [C, c, k])
    get_data = lambda interp, C, c, k, *d: interp.call(resolved(cache.Cache, 'getData'), [C, c, k] + list(d))

    def setup(ctx):
        interp = make_interp(ctx)
        C = the_cache(ctx, interp)
        c = client_object(ctx, interp)
        k = ctx.any('key')
        return interp, C, c, k

    def different(ctx, interp, c, k):
        """Another entry: of the same object or of another one"""
        which = ctx.choose(['another key', 'another object, same key', 'another object and key'])
        ctx.cover(which)
        c2, k2 = c, k
        if which != 'another object, same key':
            k2 = ctx.any('other key')
            ctx.assume(interp.to_v(k2) != interp.to_v(k), check=False)
        if which != 'another key':
            c2 = client_object(ctx, interp, 'other object')
            ctx.assume(interp.to_v(c2) != interp.to_v(c), check=False)
        return c2, k2
    OTHERS = ['another key', 'another object, same key', 'another object and key']

    def data_of(interp, h):
        return interp.dict_lookup(h.d, 'data')

    # ------------------------------------------------------------ lookups
    def lookups(ctx):
        interp, C, c, k = setup(ctx)
        default = ctx.any('default')
        mark = len(ctx.trace)
        h = get_holder(interp, C, c, k)
        ctx.check('asking for a holder changes nothing', not changes(ctx, mark))
        mark = len(ctx.trace)
        d = get_data(interp, C, c, k, default)
        e = get_data(interp, C, c, k)
        ctx.check('asking for data changes nothing', not changes(ctx, mark))
        if h is None:
            ctx.cover('absent')
            ctx.check('without holder the default is given', d is default and e is None, repr((d, e)))
        else:
            ctx.cover('present')
            ctx.check('otherwise the data of the holder', d is data_of(interp, h) and e is d, repr((d, e)))
        ctx.check('twice the same holder', get_holder(interp, C, c, k) is h)
    out.append(('Cache.getHolder and getData', lookups, dict(covers=['absent', 'present'])))

    def default_key(ctx):
        interp, C, c, k = setup(ctx)
        data = ctx.any('data')
        h = interp.call(resolved(cache.Cache, 'holder'), [C, c, data])
        a, b = interp.call(resolved(cache.Cache, 'getHolder'), [C, c]), interp.call(resolved(cache.Cache, 'getData'), [C, c])
        ctx.check('the key left out is the same everywhere', a is h and b is data, repr((a, b)))
        ctx.check('getData of the module looks into its cache', getattr(cache.getData, '__self__', None) is cache.CACHE and cache.getData.__func__ is cache.Cache.getData)
    out.append(('default key', default_key, dict(covers=[])))

    def changes(ctx, mark, *allowed):
        return [t for t in ctx.trace[mark:] if t[0] in ('w', 'l', 'send', 'connect') and not allocated(ctx, t[1]) and not any(t[1] is a for a in allowed)]

    # ------------------------------------------------------------ installing
    def install(ctx):
        interp, C, c, k = setup(ctx)
        before = get_holder(interp, C, c, k)
        c2, k2 = different(ctx, interp, c, k)
        other = get_holder(interp, C, c2, k2)
        other_data = get_data(interp, C, c2, k2)
        old_data = data_of(interp, before) if before is not None else None
        data = ctx.any('new data')
        how = ctx.choose(['holder', 'CacheHolder'])
        h = interp.call(resolved(cache.Cache, 'holder'), [C, c, data, k]) if how == 'holder' else interp.call(cache.CacheHolder, [c, data, k, C])
        ctx.cover('new' if before is None else 'replacing')
        ctx.check('a new holder is made', isinstance(h, Obj) and h.fresh and h is not before)
        ctx.check('it is what lookups give', get_holder(interp, C, c, k) is h)
        ctx.check('with its data', get_data(interp, C, c, k, ctx.any('default')) is data)
        ctx.check('other entries stay', get_holder(interp, C, c2, k2) is other and get_data(interp, C, c2, k2) is other_data)
        if before is not None:
            ctx.check('the holder replaced keeps its data', data_of(interp, before) is old_data)
        ref = interp.get_attr(h, 'client')
        ctx.check('the owner is held weakly', isinstance(ref, WeakRef) and ref.target is c and ref.callback is not None, repr(ref))
        ctx.check('and not otherwise', not any(v is c for _, v in interp.dict_entries(h.d)))
        ctx.check('nothing is announced', not sends(ctx))
        new = ctx.any('changed data')
        interp.call(resolved(cache.CacheHolder, 'set'), [h, new])
        ctx.check('data set later is what lookups give', get_data(interp, C, c, k) is new)
        ctx.check('still in that entry only', get_holder(interp, C, c2, k2) is other and get_data(interp, C, c2, k2) is other_data)
    out.append(('installing a holder', install, dict(covers=OTHERS + ['new', 'replacing'])))

    # ------------------------------------------------------------ clearing
    def clearing(entry):
        def run(ctx):
            interp, C, c, k = setup(ctx)
            data = ctx.any('data')
            h = interp.call(cache.CacheHolder, [c, data, k, C])
            state = ctx.choose(['installed', 'replaced', 'removed'])
            if state == 'removed':
                interp.call(resolved(cache.CacheHolder, '__call__'), [h])
                interp.dict_store(h.d, 'data', data)
            newer = None
            if state == 'replaced' or state == 'removed' and ctx.choose([False, True]):
                newer = interp.call(cache.CacheHolder, [c, ctx.any('newer data'), k, C])
            newer_data = data_of(interp, newer) if newer is not None else None
            c2, k2 = different(ctx, interp, c, k)
            other, other_data = get_holder(interp, C, c2, k2), get_data(interp, C, c2, k2)
            ctx.cover(state)
            gone = ctx.choose([False, True])
            if gone:
                interp.get_attr(h, 'client').dead = True
            cache_gone = ctx.choose([False, True])
            if cache_gone:
                interp.get_attr(h, 'cache').dead = True
            mark = len(ctx.trace)
            try:
                if entry == 'clear':
                    interp.call(resolved(cache.CacheHolder, 'clear'), [h], ctx.choose([{}, dict(signal=('set', ctx.any('field')), sender=ctx.any('sender'))]))
                else:
                    interp.call(h, ctx.choose([[], [WeakRef(ctx.any('dead'))]]), {})
            except PyExc as err:
                ctx.check('it does not fail', False, str(err))
                return
            default = ctx.any('default')
            if not gone:
                ctx.check('the data is dropped', data_of(interp, h) is None or cache_gone, repr(data_of(interp, h)))
                now = get_data(interp, C, c, k, default)
                if state == 'installed':
                    if not cache_gone:
                        ctx.check('lookups do not give it any more', now is None or now is default, repr(now))
                elif newer is not None:
                    ctx.cover('stale')
                    ctx.check('a holder which replaced it stays', get_holder(interp, C, c, k) is newer and now is newer_data, repr(now))
            ctx.check('other entries stay', get_holder(interp, C, c2, k2) is other and get_data(interp, C, c2, k2) is other_data)
            ctx.check('nothing is announced', not sends(ctx))
            if entry == 'clear' and state == 'installed' and not gone and get_holder(interp, C, c, k) is h:
                ctx.cover('refilled')
                again = ctx.any('data computed again')
                interp.set_attr(h, 'data', again)
                ctx.check('data stored again is what lookups give', get_data(interp, C, c, k) is again)
        return run
    out.append(('CacheHolder.clear', clearing('clear'), dict(covers=OTHERS + ['installed', 'replaced', 'removed', 'stale', 'refilled'])))
    out.append(('CacheHolder.__call__', clearing('call'), dict(covers=OTHERS + ['installed', 'replaced', 'removed', 'stale'])))

    # ------------------------------------------------------------ death of the owner
    def death(ctx):
        interp, C, c, k = setup(ctx)
        h = interp.call(cache.CacheHolder, [c, ctx.any('data'), k, C])
        ref = interp.get_attr(h, 'client')
        k2 = ctx.any('other key')
        get_holder(interp, C, c, k2)
        c3 = client_object(ctx, interp, 'other object')
        ctx.assume(interp.to_v(c3) != interp.to_v(c), check=False)
        k3 = ctx.any('its key')
        other, other_data = get_holder(interp, C, c3, k3), get_data(interp, C, c3, k3)
        if ctx.choose([False, True]):
            interp.call(h, [], {})       # removed before
            ctx.cover('removed before')
        before = ctx.choose([False, True])
        callback = ref.callback
        ref.dead = True
        try:
            interp.call(callback, [ref])
            if before:
                interp.call(callback, [ref])     # as of another holder of the object
        except PyExc as err:
            ctx.check('the callback does not fail', False, str(err))
            return
        # an object which gets the identity of the dead one
        new = ctx.any('new object')
        ctx.__dict__.setdefault('_id_of', {})[id(new)] = (new, interp.call(id, [c]))
        k4 = ctx.any('any key')
        ctx.check('a new object with its identity finds nothing', get_holder(interp, C, new, k4) is None and get_data(interp, C, new, k4) is None)
        ctx.check('entries of other objects stay', get_holder(interp, C, c3, k3) is other and get_data(interp, C, c3, k3) is other_data)
        ctx.check('nothing is announced', not sends(ctx))
    out.append(('death of the owner', death, dict(covers=['removed before'])))

    # ------------------------------------------------------------ dependencies
    def depend(ctx):
        from vrml import protofunctions, fieldtypes
        interp, C, c, k = setup(ctx)
        h = interp.call(cache.CacheHolder, [c, ctx.any('data'), k, C])
        n = ctx.any('node')
        f = fieldtypes.SFFloat('f')
        name = ctx.str('name')
        def getField(interp, args, kwargs):
            ctx.check('the field is looked up by that name', args[0] is n and args[1] is name, repr(args))
            return f
        interp.contract(protofunctions.getField, getField, 'getField (C20)')
        how = ctx.choose(['field', 'name', 'object'])
        ctx.cover(how)
        deps = interp.get_attr(h, 'nodeDependencies')
        first = ctx.any('earlier')
        interp.call(resolved(cache.CacheHolder, 'depend'), [h, first])
        earlier = refs_to(interp, h, first)
        mark = len(ctx.trace)
        interp.call(resolved(cache.CacheHolder, 'depend'), [h, n] + ([] if how == 'object' else [f if how == 'field' else name]))
        got = [t for t in ctx.trace[mark:] if t[0] == 'connect']
        if how == 'object':
            ctx.check('nothing is subscribed to', not got)
            refs = refs_to(interp, h, n)
            ctx.check('the holder keeps a weak reference to the object, calling it back', len(refs) >= 1 and all(r.callback is h for r in refs), repr(refs))
        else:
            for t in got:
                ctx.check('only messages of the field are subscribed to', t[3] is n and type(t[2]) is tuple and len(t[2]) == 2 and t[2][0] in ('set', 'del', 'route') and t[2][1] is f, repr(t))
                r = t[1]
                ok = isinstance(r, Bound) and r.obj is h and getattr(r.func, '__func__', r.func) is resolved(cache.CacheHolder, 'clear')
                ctx.check('they clear the holder', ok, repr(t))
            for s in ('set', 'del', 'route'):
                ctx.check('%s clears the holder' % s, any(t[2][0] == s for t in got), repr(got))
            ctx.check('the node is not kept alive', not strong(interp, h, n))
        ctx.check('earlier dependencies stay', bool(earlier) and all(any(r is e for r in refs_to(interp, h, first)) for e in earlier))
        ctx.check('the data stays', get_holder(interp, C, c, k) is h)
    out.append(('CacheHolder.depend', depend, dict(covers=['field', 'name', 'object'])))

    def refs_to(interp, h, n):
        found = []
        for _, v in interp.dict_entries(h.d):
            items = v if isinstance(v, (list, tuple)) else [v]
            found.extend(r for r in items if isinstance(r, WeakRef) and r.target is n)
        return found

    def strong(interp, h, n):
        return any(v is n or isinstance(v, (list, tuple)) and any(x is n for x in v) for _, v in interp.dict_entries(h.d))

    def any_signal(ctx):
        interp, C, c, k = setup(ctx)
        from pydispatch import dispatcher
        h = interp.call(cache.CacheHolder, [c, ctx.any('data'), k, C])
        signal, sender = ctx.any('signal'), ctx.choose([None, ctx.any('sender')])
        interp.call(resolved(cache.CacheHolder, 'depend_signal'), [h, signal] + ([sender] if sender is not None else []))
        got = [t for t in ctx.trace if t[0] == 'connect']
        ok = len(got) == 1 and got[0][2] is signal and (got[0][3] is sender if sender is not None else got[0][3] is dispatcher.Any or got[0][3] is None)
        ctx.check('the signal is subscribed to', ok, repr(got))
        ctx.check('it clears the holder', ok and isinstance(got[0][1], Bound) and got[0][1].obj is h and getattr(got[0][1].func, '__func__', got[0][1].func) is resolved(cache.CacheHolder, 'clear'))
    out.append(('CacheHolder.depend_signal', any_signal, dict(covers=[])))
    return out


# ------------------------------------------------------------------ cases
def cases(rnd, tier, mode):
    for i in range(5000 if tier == 'quick' else 20000):
        acts = []
        for k in range(rnd.randint(5, 40)):
            acts.append([rnd.choice(['hold', 'hold', 'hold', 'depend', 'depend', 'depend object', 'change', 'change', 'delete', 'route', 'clear', 'kill', 'new', 'drop', 'set']),
                         rnd.randint(0, 5), rnd.randint(0, 5), rnd.randint(0, 2)])
        if rnd.random() < .3:
            # what an entry depends on is replaced by another object, at the same address perhaps
            i, n, m = rnd.randint(0, 5), rnd.randint(0, 2), rnd.randint(0, 2)
            j = rnd.choice([x for x in range(6) if x != i])
            at = rnd.randint(0, len(acts))
            acts[at:at] = [['new', i, i, n], ['hold', i, i, n], ['new', j, j, n], ['depend', i, j, n], ['kill', j, j, n], ['new', j, j, n], ['depend', i, j, m], ['change', j, rnd.randint(0, 5), m]]
        yield dict(kind='history', acts=acts, keep=rnd.random() < 0.5)


def check_case(case):
    import gc
    from vrml import cache, node, fieldtypes, protofunctions
    from pydispatch import dispatcher
    gc.disable()
    try:
        return history(case, cache, node, fieldtypes, protofunctions, dispatcher)
    finally:
        gc.enable()


def history(case, cache, node, fieldtypes, protofunctions, dispatcher):
    class Owner(node.Node):
        a = fieldtypes.SFFloat('a', 1, 0.0)
        b = fieldtypes.SFVec3f('b', 1, (0, 0, 0))
        c = fieldtypes.SFString('c', 1, '')
    values = {'a': [1, 2.5], 'b': [(1, 2, 3), (0, 0, 1)], 'c': ['x', 'y']}
    C = cache.Cache()
    objects = {i: Owner() for i in range(6)}
    model, kept, serial = {}, [], [0]       # (object number, key) -> record
    everything = []
    keys = ['', 'display list', ('tuple', 1)]
    def clear(record):
        record['data'] = None
    for what, i, j, n in case['acts']:
        key, name = keys[n], 'abc'[n]
        o, p = objects.get(i), objects.get(j)
        if what == 'new':
            if o is None:
                objects[i] = Owner()
                for (a, k) in [x for x in model if x[0] == i]:
                    return 'an entry of a dead object is left in the reference'
        elif o is None:
            continue
        elif what == 'hold':
            serial[0] += 1
            record = dict(data='data %d' % serial[0], fields=set(), objects=set(), removed=False)
            h = C.holder(o, record['data'], key)
            model[i, key] = record
            record['h'] = h if case['keep'] else None
            everything.append(record)
            del h
        elif what in ('depend', 'depend object') and (i, key) in model and p is not None:
            record = model[i, key]
            h = C.getHolder(o, key)
            if h is None:
                if record['removed']:
                    continue
                return 'holder %r is gone' % ((i, key),)
            if what == 'depend':
                h.depend(p, name if j % 2 else protofunctions.getField(p, name))
                record['fields'].add((j, name))
            elif j != i:
                h.depend(p)
                record['objects'].add(j)
            del h
        elif what == 'set' and (i, key) in model and not model[i, key]['removed']:
            serial[0] += 1
            model[i, key]['data'] = 'data %d' % serial[0]
            C.getHolder(o, key).set(model[i, key]['data'])
        elif what in ('change', 'delete', 'route'):
            if what == 'change':
                setattr(o, name, values[name][j % 2])
            elif what == 'delete':
                if name not in o.__dict__:
                    continue
                delattr(o, name)
            else:
                dispatcher.send(('route', protofunctions.getField(o, name)), o, value=values[name][0])
            for r in everything:
                if (i, name) in r['fields']:
                    clear(r)
        elif what == 'clear' and (i, key) in model:
            h = C.getHolder(o, key)
            if h is not None:
                h.clear()
            clear(model[i, key])
            del h
        elif what == 'drop':
            for r in everything:
                if r['h'] is not None:
                    r['h'] = None
                    break
        elif what == 'kill':
            del objects[i]
            for k in [x for x in model if x[0] == i]:
                del model[k]
            for r in everything:
                if i in r['objects']:
                    clear(r)
                    r['removed'] = True
                r['objects'].discard(i)
                r['fields'] = {f for f in r['fields'] if f[0] != i}
        o = p = None
        for number, obj in objects.items():
            for k in keys:
                got = C.getData(obj, k, 'nothing')
                r = model.get((number, k))
                want = ('nothing',) if r is None else (None, 'nothing') if r['data'] is None else (r['data'],)
                if got not in want:
                    return 'after %r: entry %r is %r, expected %r' % ([what, i, j, n], (number, k), got, want)
                h = C.getHolder(obj, k)
                if r is None and h is not None:
                    return 'after %r: a holder for %r' % ([what, i, j, n], (number, k))
                del h
        obj = None
        if len(C) > len(objects):
            return 'entries of dead objects remain'
    return None
