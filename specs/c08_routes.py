PROPERTY = 'C08'
LEVEL = 'proof'
PROOF_MODES = ['pure', 'accel']
CASE_MODES = ['pure', 'accel']
EXPLANATION = ('Route binding, forwarding in either direction and the record of visited ports are executed symbolically against contracts: a route subscribes to the '
               'set, del and route messages of its source (an IS mapping of both ends); forwarding to a port which the cascade has visited does nothing; otherwise the '
               'port is marked first, then written exactly once and without a message of its own, then announced with the stored value and the same cascade; a deletion '
               'forwards the source\'s default; a write starts a cascade with nothing visited. From these contracts, termination (every step marks a new port) and '
               'delivery to exactly the reachable ports (induction over the length of the chain of routes) are lemmas given to the solver.')
BOUNDED = ['bounded: random graphs of routes and IS mappings over fields and ports of several types, real builds, several cascades each (quick 1500, thorough 40000 graphs)']
TRUSTED = ['pydispatch: a message reaches every receiver connected for its sender and signal once, and no other', 'the writing of fields (C01) and ports (C23), field lookup (C20)']
ASSUMPTIONS = ['the number of routes is finite', 'handlers of ports and other receivers do not write routed fields themselves', 'the routes are alive (held by their scene)']
# --- end of meta
from common import *

SIGNALS = ('set', 'del', 'route')


def route_object(ctx, interp, cls, **attributes):
    """A route with any values of its fields, given by contract of attribute access"""
    from vrml import route, field, node, fieldtypes
    r = ctx.obj(cls, 'route')
    by_field = {getattr(route.ROUTE, k): v for k, v in attributes.items()}
    for g in {resolved(node.SFNode, '__get__'), resolved(fieldtypes.SFString, '__get__')}:
        def get(interp, args, kwargs, g=g):
            for f, v in by_field.items():
                if args[0] is f and args[1] is r:
                    return v
            return interp.call_live(g, args, kwargs)
        interp.contract(g, get, 'reading a field of the route (C02)')
    return r


def lookup(ctx, interp, table):
    """getField by contract: (node, name) -> field or AttributeError"""
    from vrml import protofunctions
    def handler(interp, args, kwargs):
        for n, name, f in table:
            if args[0] is n and args[1] is name:
                if f is None:
                    interp.raise_(AttributeError, 'no such field')
                return f
        ctx.check('only the fields of the route are looked up', False, repr(args))
        interp.raise_(AttributeError, 'no such field')
    interp.contract(protofunctions.getField, handler, 'getField (C20)')


def new_cascade(ctx, interp, sent, what, made):
    """Everything announced carries one cascade, made for it, in which nothing is visited"""
    from vrml import event
    from pvc.values import Obj
    for t in sent:
        e = t[4].get('event')
        ok = isinstance(e, Obj) and issubclass(e.cls, event.Event) and getattr(e, 'fresh', False) and e is sent[0][4].get('event')
        ctx.check('%s carries a cascade of its own, for all the routes' % what, ok, repr(t))
        ctx.check('%s does not continue an earlier cascade' % what, not any(e is m for m in made))
        if ok:
            ctx.check('in which nothing is visited', not interp.truth(interp.call(event.Event.__dict__['visited'], [e, ctx.any('port')])))
    made.extend(t[4].get('event') for t in sent[:1])


def start(F, entry):
    def run(ctx):
        from pvc.engine import PyExc
        from vrml import field, node
        interp = make_interp(ctx)
        if issubclass(F, field.Event):
            f = interp.call(F, [ctx.str('name'), ctx.choose([0, 1])])
            # a handler, if there is one, does not write routed fields itself (assumed)
            interp.class_contracts['getattr', None] = lambda interp, obj, attr, *default: default[0] if default else interp.raise_(AttributeError, 'no handler')
        else:
            f, name = make_field(interp, F, default=ctx.any('default'))
            if is_list_field(F) and hasattr(F, 'baseSFNode'):
                def canonical(interp, args, kwargs):
                    from pvc.values import SList, V
                    import z3
                    o = ctx.obj(F.baseObjectType, 'canonical list')
                    o.payload = SList(z3.Const(ctx.name('items'), z3.SeqSort(V)), 'items')
                    return o
                interp.contract(resolved(F, 'coerce'), canonical, '%s.coerce (C07)' % F.__name__)
                interp.contract(resolved(F.baseObjectType, '__setitem__'), lambda interp, args, kwargs: None, 'OList.__setitem__ (C06)')
            elif is_weak(F):
                interp.contract(resolved(F, 'coerce'), lambda interp, args, kwargs: args[1], '%s.coerce (C07)' % F.__name__)
            else:
                abstract_coerce(interp, F)
            root_contracts(interp)
        client = make_client(interp)
        if not issubclass(F, field.Event) and hasattr(F, 'baseSFNode') and entry in ('__set__', 'fset'):
            interp.dict_method(client.d, 'pop', [name, None], {})
        made = []
        for i in range(2):
            mark = len(ctx.trace)
            try:
                if entry in ('__set__', 'fset'):
                    interp.call(interp.get_attr(f, entry), [client, ctx.obj(node.Node, 'node') if is_weak(F) else ctx.any('value')])
                else:
                    interp.call(interp.get_attr(f, entry), [client])
            except PyExc:
                return
            sent = [t for t in ctx.trace[mark:] if t[0] == 'send']
            if sent:
                ctx.cover('announced')
            new_cascade(ctx, interp, sent, 'a change', made)
    return run


def list_start(ctx):
    from vrml import node, olist
    interp = make_interp(ctx)
    f, name = make_field(interp, node.MFNode, default=ctx.any('default'))
    client = make_client(interp)
    l = ctx.obj(olist.OList, 'list')
    callback = interp.call(node._changeSender, [interp.call(__import__('weakref').ref, [client]), f, interp.call(__import__('weakref').ref, [l])])
    interp.dict_store(client.d, name, l)
    made = []
    for i in range(2):
        mark = len(ctx.trace)
        interp.call(callback, [client, ctx.choose(list({olist.OList.NEW_CHILD_EVT, olist.OList.DEL_CHILD_EVT})), ctx.any('child')], {'field': f})
        sent = [t for t in ctx.trace[mark:] if t[0] == 'send']
        if sent:
            ctx.cover('announced')
        new_cascade(ctx, interp, sent, 'a mutation', made)


def proofs(mode):
    import z3
    from vrml import route, field, fieldtypes, event, node, protofunctions
    out = []
    # how a cascade starts, for every kind of field and port, and for lists changed in place
    for F in field_classes():
        if F is node.RootScenegraphNode:
            continue            # bookkeeping, not routable
        for entry in ('__set__', 'fset', '__delete__', 'fdel'):
            out.append(('%s.%s starts a cascade' % (F.__name__, entry), start(F, entry), dict(covers=['announced'])))
    for E in [field.Event] + sorted(subclasses(field.Event), key=lambda c: c.__name__):
        out.append(('%s.__set__ starts a cascade' % E.__name__, start(E, '__set__'), dict(covers=['announced'])))
    out.append(('a list changed in place starts a cascade', list_start, dict(covers=['announced'])))
    if mode == 'accel':
        return out

    def bound_to(v, obj, fn):
        from pvc.values import Bound
        f = getattr(v, 'func', None) if isinstance(v, Bound) else None
        return isinstance(v, Bound) and v.obj is obj and getattr(f, '__func__', f) is fn

    def bind(cls):
        def run(ctx):
            from pvc.engine import PyExc
            interp = make_interp(ctx)
            ends = {}
            fields = {}
            have = {}
            for end in ('source', 'destination'):
                state = ctx.choose(['present', 'no node', 'no name', 'unknown'])
                have[end] = state
                n = ctx.obj(node.Node, end) if state != 'no node' else node.NULL
                name = ctx.str(end + 'Field')
                ctx.assume(z3.Length(name.z) == 0 if state == 'no name' else z3.Length(name.z) > 0)
                fields[end] = fieldtypes.SFFloat('f') if state == 'present' else None
                ends[end], ends[end + 'Field'] = n, name
            r = route_object(ctx, interp, cls, **ends)
            lookup(ctx, interp, [(ends[e], ends[e + 'Field'], fields[e]) for e in fields])
            try:
                interp.call(resolved(cls, 'bind'), [r])
            except PyExc as err:
                ctx.check('binding does not fail', False, str(err))
                return
            got = [t for t in ctx.trace if t[0] == 'connect']
            want = ['source'] + (['destination'] if cls is route.IS else [])
            ctx.cover(have['source'])
            for t in got:
                ok = any(t[3] is ends[e] and have[e] == 'present' and type(t[2]) is tuple and len(t[2]) == 2 and t[2][0] in SIGNALS and t[2][1] is fields[e] for e in want)
                ctx.check('only messages of the bound fields are subscribed to', ok, repr(t))
                ctx.check('and handed to forward of the route', bound_to(t[1], r, resolved(cls, 'forward')), repr(t))
            for e in want:
                if have[e] == 'present':
                    for signal in SIGNALS:
                        mine = [t for t in got if t[3] is ends[e] and t[2][0] == signal and t[2][1] is fields[e]]
                        ctx.check('%s of the %s is subscribed to' % (signal, e), len(mine) >= 1, repr(got))
            ctx.check('nothing is written or announced', not dict_writes(ctx) and not sends(ctx))
        return run
    out.append(('ROUTE.bind', bind(route.ROUTE), dict(covers=['present', 'no node', 'no name', 'unknown'])))
    out.append(('IS.bind', bind(route.IS), dict(covers=['present', 'no node', 'no name', 'unknown'])))

    def constructed(ctx):
        """A new route has its arguments and is bound"""
        from pvc.engine import PyExc
        interp = make_interp(ctx)
        r = ctx.obj(route.ROUTE, 'route')
        log = []
        def init(interp, args, kwargs):
            log.append(('init', args, kwargs))
        def bind_(interp, args, kwargs):
            log.append(('bind', args, kwargs))
        interp.contract(node.Node.__dict__['__init__'], init, 'Node.__init__ (C07)')
        interp.contract(resolved(route.ROUTE, 'bind'), bind_, 'ROUTE.bind')
        values = [ctx.any(n) for n in ('source', 'sourceField', 'destination', 'destinationField')]
        names = ['source', 'sourceField', 'destination', 'destinationField']
        how = ctx.choose(['positional', 'named'])
        interp.call(route.ROUTE.__dict__['__init__'], [r] + (values if how == 'positional' else []), dict(zip(names, values)) if how == 'named' else {})
        ctx.check('the fields are set, then it is bound', [l[0] for l in log] == ['init', 'bind'], repr(log))
        if log and log[0][0] == 'init':
            got = log[0][2] if isinstance(log[0][2], dict) else dict(interp.dict_entries(log[0][2]))
            ctx.check('every argument goes to its field', set(got) == set(names) and all(got[k] is v for k, v in zip(names, values)) and len(log[0][1]) == 1, repr(log[0]))
    out.append(('ROUTE.__init__', constructed, dict(covers=[])))

    def forward(cls):
        def run(ctx):
            interp = make_interp(ctx)
            a, b, c = ctx.obj(node.Node, 'source'), ctx.obj(node.Node, 'destination'), ctx.obj(node.Node, 'other')
            fa, fb = ctx.str('sourceField'), ctx.str('destinationField')
            r = route_object(ctx, interp, cls, source=a, sourceField=fa, destination=b, destinationField=fb)
            calls = []
            interp.contract(resolved(cls, '_forward'), lambda interp, args, kwargs: calls.append(arguments(args, kwargs)), '_forward')
            def arguments(args, kwargs):
                names = ['self', 'sender', 'signal', 'destination', 'destinationField', 'event', 'value']
                got = dict(zip(names, args))
                got.update(kwargs)
                return got
            sender = ctx.choose([a, b, c] if cls is route.IS else [a])
            signal = (ctx.choose(list(SIGNALS)), ctx.any('field'))
            ev, value = ctx.choose([None, ctx.any('event')]), ctx.any('value')
            named = {'event': ev, 'value': value}
            if ctx.choose([False, True]):
                named.update(subsignal='new', subvalue=ctx.any('child'))
            interp.call(resolved(cls, 'forward'), [r], dict(signal=signal, sender=sender, **named))
            if sender is c:
                ctx.cover('neither end')
                ctx.check('messages of other nodes are not forwarded', not calls)
                return
            ctx.cover('source' if sender is a else 'destination')
            there, name = (b, fb) if sender is a else (a, fa)
            ok = len(calls) == 1
            ctx.check('one forwarding', ok, repr(calls))
            if ok:
                g = calls[0]
                ctx.check('to the other end', g.get('destination') is there and g.get('destinationField') is name, repr(g))
                ctx.check('of that message', g.get('sender') is sender and g.get('signal') is signal or g.get('signal') == signal, repr(g))
                ctx.check('in the same cascade', g.get('event') is ev, repr(g))
                ctx.check('with its value', g.get('value') is value, repr(g))
            ctx.check('nothing is written or announced otherwise', not dict_writes(ctx) and not sends(ctx))
        return run
    out.append(('ROUTE.forward', forward(route.ROUTE), dict(covers=['source'])))
    out.append(('IS.forward', forward(route.IS), dict(covers=['source', 'destination', 'neither end'])))

    def step(ctx):
        """One step of a cascade"""
        from pvc.engine import PyExc
        interp = make_interp(ctx)
        interp.contract(resolved_print(), lambda interp, args, kwargs: None, 'traceback.print_exc')
        source, dest = ctx.obj(node.Node, 'source'), ctx.choose([ctx.obj(node.Node, 'destination'), node.NULL, None])
        name = ctx.str('destinationField')
        kind = ctx.choose(['field', 'port'])
        target = fieldtypes.SFFloat('target') if kind == 'field' else field.Event('target')
        named = dest is not None and dest is not node.NULL and ctx.branch(z3.Length(name.z) > 0)
        lookup(ctx, interp, [(dest, name, target)])
        given = ctx.any('value')
        default = ctx.any('default of the source')
        stored = ctx.any('stored')
        what = ctx.choose(list(SIGNALS))
        sf = fieldtypes.SFString('changed')
        log = []
        def note(*t):
            log.append(t)
        def fget(interp, args, kwargs):
            note('fget', args)
            return default
        interp.contract(resolved(fieldtypes.SFString, 'fget'), fget, 'fget of the source field')
        def fset(interp, args, kwargs):
            note('write', args[0], args[1], args[2], args[3] if len(args) > 3 else kwargs.get('notify', 1))
            outcome = ctx.choose(['ok', ValueError, TypeError])
            if outcome != 'ok':
                note('refused')
                interp.raise_(outcome, 'refused')
            return stored if kind == 'field' else None
        interp.contract(resolved(fieldtypes.SFFloat, 'fset'), fset, 'writing the field')
        interp.contract(field.Event.__dict__['__set__'], fset, 'writing the port')
        Visited = {}
        before = ctx.choose([False, True])
        events = []
        def visited(interp, args, kwargs):
            e, key = args[0], args[1]
            value = args[2] if len(args) > 2 else kwargs.get('value')
            ok = type(key) is tuple and len(key) == 2 and key[0] is dest and key[1] is target
            ctx.check('ports are told apart by node and field', ok, repr(key))
            if e not in events:
                events.append(e)
                Visited[id(e)] = before if e is ev else False
            old = Visited[id(e)]
            if value is not None:
                note('mark', e, value)
                Visited[id(e)] = bool(value)
            return 1 if old else None
        interp.contract(event.Event.__dict__['visited'], visited, 'Event.visited')
        fresh = []
        def init(interp, args, kwargs):
            fresh.append(args[0])
        interp.contract(event.Event.__dict__['__init__'], init, 'Event.__init__')
        ev = ctx.choose([None, ctx.obj(event.Event, 'cascade')])
        interp.class_contracts['send', None] = lambda interp, signal, sender, args, named: note('send', signal, sender, args, named)
        r = ctx.obj(route.ROUTE, 'route')
        extra = {} if ctx.choose([True, False]) else dict(subsignal='new', subvalue=ctx.any('child'))
        try:
            interp.call(resolved(route.ROUTE, '_forward'), [r, source, (what, sf), dest, name], dict(event=ev, value=given, **extra))
        except PyExc as err:
            ctx.check('forwarding does not fail', False, str(err))
            return
        ctx.check('nothing else is written', not dict_writes(ctx), repr(dict_writes(ctx)))
        acts = [l for l in log if l[0] not in ('fget',)]
        if not named:
            ctx.cover('unbound')
            ctx.check('a route without destination does nothing', not acts, repr(log))
            return
        if ev is not None and before:
            ctx.cover('visited')
            ctx.check('a visited port is left alone', not [l for l in acts if l[0] in ('write', 'send')], repr(log))
            return
        ctx.cover('new')
        marks = [l for l in acts if l[0] == 'mark']
        ok = bool(marks) and acts[0][0] == 'mark' and all(m[2] for m in marks)
        ctx.check('the port is marked before anything else', ok, repr(acts))
        cascade = marks[0][1] if marks else None
        ctx.check('in the cascade under way, or a new one', cascade is ev if ev is not None else cascade in fresh, repr(acts))
        writes = [l for l in acts if l[0] == 'write']
        ok = len(writes) == 1 and writes[0][1] is target and writes[0][2] is dest
        ctx.check('the port is written exactly once', ok, repr(acts))
        value = default if what == 'del' else given
        if what == 'del':
            gets = [l for l in log if l[0] == 'fget']
            ctx.check('the default is that of the field deleted', bool(gets) and all(g[1][0] is sf and g[1][1] is source for g in gets), repr(gets))
        if ok:
            ctx.check('with the value', writes[0][3] is value, repr(writes))
            ctx.check('without a message of its own', writes[0][4] in (0, False), repr(writes))
        refused = any(l[0] == 'refused' for l in acts)
        told = [l for l in acts if l[0] == 'send']
        if refused:
            ctx.cover('refused')
            ctx.check('a value refused is not announced as written', not [l for l in told if l[1][0] == 'set'], repr(told))
        else:
            now = stored if kind == 'field' else value
            routes = [l for l in told if type(l[1]) is tuple and l[1][0] == 'route']
            ctx.check('the cascade goes on from the port once', len(routes) == 1, repr(told))
            sets = [l for l in told if type(l[1]) is tuple and l[1][0] == 'set']
            ctx.check('a port announces its value once', len(sets) == (1 if kind == 'port' else 0), repr(told))
            for l in told:
                ctx.check('with the port written', type(l[1]) is tuple and len(l[1]) == 2 and l[1][1] is target and l[2] is dest, repr(l))
                ctx.check('with the value stored', l[4].get('value') is now, repr(l))
        for l in told:
            ctx.check('only of the port', type(l[1]) is tuple and l[1][0] in ('route', 'set'), repr(l))
            ctx.check('in the same cascade', l[4].get('event') is cascade, repr(l))
            ctx.check('after it is written', acts.index(l) > acts.index(writes[0]) if writes else False, repr(acts))
    out.append(('one step of a cascade', step, dict(covers=['unbound', 'visited', 'new', 'refused'])))

    def record(ctx):
        """Event.visited: a dictionary of its own, remembers what was marked, and nothing else"""
        from pvc.values import SDict
        interp = make_interp(ctx)
        e = interp.call(event.Event, [])
        f = interp.call(event.Event, [])
        k, l = ctx.any('port'), ctx.any('another port')
        visited = lambda e, *a: interp.call(event.Event.__dict__['visited'], [e] + list(a))
        ctx.check('a new cascade has visited nothing', not interp.truth(visited(e, k)))
        visited(e, k, 1)
        ctx.check('a marked port is visited', interp.truth(visited(e, k)))
        ctx.check('in that cascade only', not interp.truth(visited(f, k)))
        if ctx.branch(interp.to_v(k) != interp.to_v(l)):
            ctx.cover('other')
            ctx.check('and no other port', not interp.truth(visited(e, l)))
            visited(e, l, 1)
        ctx.check('it stays visited', interp.truth(visited(e, k)))
        visited(e, k, 1)
        ctx.check('however often it is marked', interp.truth(visited(e, k)))
    out.append(('record of visited ports', record, dict(covers=['other'])))

    def history(ctx):
        """Event.visited after any number of ports: what is marked stays marked, what is not is not"""
        from pvc.values import SDict
        interp = make_interp(ctx)
        e = interp.call(event.Event, [])
        for name, d in list(interp.dict_entries(e.d)):
            if isinstance(d, SDict):
                ctx.cover('any ports')
                d.open = True
                d.value_maker = lambda k: 1
        k, l = ctx.any('port'), ctx.any('another port')
        visited = lambda e, *a: interp.call(event.Event.__dict__['visited'], [e] + list(a))
        ctx.assume(interp.to_v(k) != interp.to_v(l), check=False)
        before = interp.truth(visited(e, l))
        if not interp.truth(visited(e, k)):
            ctx.cover('new')
            visited(e, k, 1)
            ctx.check('a marked port is visited', interp.truth(visited(e, k)))
        ctx.check('marking a port leaves all others as they are', interp.truth(visited(e, l)) == before)
    out.append(('record of visited ports, later', history, dict(covers=['new'])))

    def lemmas(ctx):
        """Delivery and termination, from the contracts of the step"""
        interp = make_interp(ctx)
        P = z3.DeclareSort('Port')
        edge = z3.Function('routed', P, P, z3.BoolSort())
        V = z3.Function('visited', P, z3.BoolSort())          # when the cascade is over
        W = z3.Function('writes', P, z3.IntSort())
        start = z3.Const('start', P)
        at = z3.Function('reachable_in', P, z3.IntSort(), z3.BoolSort())
        p, q = z3.Consts('p q', P)
        n = z3.Int('n')
        # contract of the step and of the dispatcher: a message of a port reaches all of its routes;
        # each leaves its destination visited
        closed = z3.And(z3.ForAll([p], z3.Implies(edge(start, p), V(p))), z3.ForAll([p, q], z3.Implies(z3.And(V(p), edge(p, q)), V(q))))
        reach = z3.And(z3.ForAll([p], at(p, 1) == edge(start, p)),
                       z3.ForAll([q, n], z3.Implies(n >= 1, at(q, n + 1) == z3.Exists([p], z3.And(at(p, n), edge(p, q))))))
        def prove(name, hypotheses, goal):
            s = z3.Solver()
            s.set('timeout', 20000)
            s.add(*hypotheses)
            s.add(z3.Not(goal))
            ctx.check(name, s.check() == z3.unsat)
        m = z3.Int('m')
        prove('delivery, base: ports at one route are reached', [closed, reach], z3.ForAll([q], z3.Implies(at(q, 1), V(q))))
        prove('delivery, step: so are those one route further', [closed, reach, m >= 1, z3.ForAll([q], z3.Implies(at(q, m), V(q)))], z3.ForAll([q], z3.Implies(at(q, m + 1), V(q))))
        # exactly once: a write happens only with the marking of an unvisited port, after which it stays visited
        seen, seen2, w, w2 = z3.Bool('seen'), z3.Bool('seen2'), z3.Int('w'), z3.Int('w2')
        inv = lambda s, w: w == z3.If(s, 1, 0)
        stepped = z3.Or(z3.And(seen, seen2, w2 == w), z3.And(z3.Not(seen), seen2, w2 == w + 1), z3.And(seen2 == seen, w2 == w))
        prove('once: a port is written as often as it is visited, at most once', [inv(seen, w), stepped], inv(seen2, w2))
        # termination: the number of unvisited ports decreases with every step that sends
        left, left2, total = z3.Ints('left left2 total')
        prove('termination: every step which goes on leaves fewer ports to visit', [left >= 1, left2 == left - 1], z3.And(left2 >= 0, left2 < left))
        # nothing else: a port is visited only from the start or a visited port along a route
        origin = z3.Function('visited_after', P, z3.IntSort(), z3.BoolSort())
        only = z3.And(z3.ForAll([q], z3.Not(origin(q, 0))),
                      z3.ForAll([q, n], z3.Implies(z3.And(n >= 0, origin(q, n + 1)), z3.Or(origin(q, n), edge(start, q), z3.Exists([p], z3.And(origin(p, n), edge(p, q)))))))
        R = z3.Function('reachable', P, z3.BoolSort())
        rclosed = z3.And(z3.ForAll([p], z3.Implies(edge(start, p), R(p))), z3.ForAll([p, q], z3.Implies(z3.And(R(p), edge(p, q)), R(q))))
        prove('nothing else, base', [only, rclosed], z3.ForAll([q], z3.Implies(origin(q, 0), R(q))))
        prove('nothing else, step: only reachable ports are visited', [only, rclosed, m >= 0, z3.ForAll([q], z3.Implies(origin(q, m), R(q)))], z3.ForAll([q], z3.Implies(origin(q, m + 1), R(q))))
    out.append(('delivery, exactly once and termination', lemmas, dict(covers=[])))
    return out


def resolved_print():
    import traceback
    return traceback.print_exc


# ------------------------------------------------------------------ cases
def cases(rnd, tier, mode):
    for i in range(12 if tier == 'quick' else 300):
        # long chains of routes which come back to where they went before
        n = rnd.choice([20, 40, 70])
        kinds = [rnd.choice(['float', 'double']) for k in range(3)]
        ports = [rnd.randint(0, 2) for k in range(n)]
        edges = [[k, ports[k], k + 1, ports[k + 1], False] for k in range(n - 1)]
        for k in range(rnd.choice([1, 1, 2])):
            back = rnd.choice([0, 1, rnd.randint(0, n - 2)])
            edges.append([rnd.choice([n - 1, n - 2, rnd.randint(back, n - 1)]), 0, back, ports[back], False])
            edges[-1][1] = ports[edges[-1][0]]
        yield dict(kind='graph', n=n, kinds=kinds, edges=edges, acts=[[0, ports[0], rnd.choice([1, 3, 7]), False, rnd.random() < .5]])
    for i in range(1500 if tier == 'quick' else 40000):
        n = rnd.randint(2, 6)
        kinds = [rnd.choice(['float', 'float', 'int', 'port', 'double', 'bool']) for k in range(3)]
        edges = []
        for j in range(rnd.randint(1, 10)):
            edges.append([rnd.randint(0, n - 1), rnd.randint(0, 2), rnd.randint(0, n - 1), rnd.randint(0, 2), rnd.random() < 0.2])
        yield dict(kind='graph', n=n, kinds=kinds, edges=edges,
                   acts=[[rnd.randint(0, n - 1), rnd.randint(0, 2), rnd.choice([0, 1, 3, 7]), rnd.random() < 0.2, rnd.random() < 0.3] for k in range(rnd.randint(1, 4))])


def check_case(case):
    from pydispatch import dispatcher
    from vrml import field, fieldtypes, node, route, event
    make = {'float': lambda n: fieldtypes.SFFloat(n, 1, 0.0), 'int': lambda n: fieldtypes.SFInt32(n, 1, 5), 'port': lambda n: field.newEvent(n, 'SFFloat', 1),
            'double': lambda n: fieldtypes.SFFloat(n, 1, 2.0), 'bool': lambda n: fieldtypes.SFBool(n, 1, 0), 'mfloat': lambda n: fieldtypes.MFFloat(n, 1, [1.0])}
    fields = [make[k]('f%d' % i) for i, k in enumerate(case['kinds'])]
    cls = type('Holder', (node.Node,), {f.name: f for f in fields})
    nodes = [cls() for i in range(case['n'])]
    routes, edges = [], {}
    seen = set()
    for a, fa, b, fb, is_ in case['edges']:
        if is_ and a == b:
            is_ = False
        R = route.IS if is_ else route.ROUTE
        routes.append(R(nodes[a], fields[fa].name, nodes[b], fields[fb].name))
        edges.setdefault((a, fa), set()).add((b, fb))
        if is_:
            edges.setdefault((b, fb), set()).add((a, fa))
    number = {id(n): i for i, n in enumerate(nodes)}
    findex = {id(f): i for i, f in enumerate(fields)}
    for a, fa, value, delete, directly in case['acts']:
        reach, todo = set(), [(a, fa)]
        while todo:
            p = todo.pop()
            for q in edges.get(p, ()):
                if q not in reach:
                    reach.add(q)
                    todo.append(q)
        f = fields[fa]
        if delete and f.name not in nodes[a].__dict__:
            delete = False
        if delete and case['kinds'][fa] == 'port':
            delete = False
        before = [dict(n.__dict__) for n in nodes]
        writes = {}
        # count writes through the fields themselves
        undo = []
        for i, g in enumerate(fields):
            if isinstance(g, field.Field):
                original = g.fset
                def fset(client, value, notify=1, original=original, i=i):
                    key = (number.get(id(client)), i)
                    if not notify:
                        writes[key] = writes.get(key, 0) + 1
                    return original(client, value, notify)
                try:
                    g.fset = fset
                    undo.append(g)
                except AttributeError:
                    pass
        with Recorder() as rec:
            if delete and directly:
                fields[fa].fdel(nodes[a])
            elif delete:
                delattr(nodes[a], f.name)
            elif directly and isinstance(f, field.Field):
                f.fset(nodes[a], value)
            else:
                setattr(nodes[a], f.name, value)
        for g in undo:
            del g.fset
        told = {}
        for sig, snd, named in rec.events:
            if isinstance(sig, tuple) and sig[0] == 'route' and id(snd) in number:
                key = (number[id(snd)], findex[id(sig[1])])
                told[key] = told.get(key, 0) + 1
        # what cannot be converted is not reached in this reference: only compare without refusals
        if set(told) != reach:
            return 'ports reached: %r, expected %r' % (sorted(told), sorted(reach))
        if any(n != 1 for n in told.values()):
            return 'reached several times: %r' % (told,)
        if any(n != 1 for k, n in writes.items()) or undo and not set(writes) <= reach:
            return 'written several times or not reachable: %r' % (writes,)
        sent = fields[fa].getDefault() if delete else value
        for (b, fb) in reach:
            g = fields[fb]
            if g.name not in nodes[b].__dict__:
                return 'port %r holds no value' % ((b, fb),)
            got = nodes[b].__dict__[g.name]
            kind = case['kinds'][fb]
            if isinstance(g, field.Field):
                if not same(g.coerce(got), got):
                    return 'port %r holds %r, which is not canonical' % ((b, fb), got)
            if all(k not in ('bool',) for k in case['kinds']):
                want = sent
                flat = lambda v: float(v) if not hasattr(v, '__len__') else float(v[0])
                if flat(got) != flat(want):
                    return 'port %r holds %r, sent was %r' % ((b, fb), got, want)
        for i, n in enumerate(nodes):
            for g in fields:
                k = (i, findex[id(g)])
                if k in reach or k == (a, fa):
                    continue
                if n.__dict__.get(g.name, 'none') is not before[i].get(g.name, 'none'):
                    return 'port %r is not reachable but was changed' % (k,)
    return None
