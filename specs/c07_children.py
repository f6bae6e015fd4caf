PROPERTY = 'C07'
LEVEL = 'proof'
PROOF_MODES = ['pure', 'accel']
CASE_MODES = ['pure', 'accel']
EXPLANATION = ('Coercion of every node-valued field type is executed symbolically for a value of any kind: a node of the required type is kept, None gives NULL, a '
               'one-item sequence is coerced as its item (recursion by contract), a list is coerced item by item (any length), everything else raises ValueError. '
               'fset and the default of node lists are executed with the announcements they subscribe to: the very callbacks registered for the list\'s messages are '
               'then executed for any message and send exactly one change of that field, and none for other fields or for a list replaced since; a node of any root is '
               'given the root of the node it is assigned into exactly when it has none and that one has one (lists: for every item, any length). Constructors hand '
               'every argument to its field.')
BOUNDED = ['bounded: real node classes: construction, assignment, defaults, copies and replacement of child lists followed by random mutations with recorded announcements (quick 3000, thorough 12000 histories); constructor arguments: 0 to 3 of them',
           'bounded: root propagation into trees of nodes of the built-in classes']
TRUSTED = ['pydispatch: connect registers a callback for messages of a sender and signal, weak=False keeps it', 'OList announces exactly the membership changes (C06)',
           'the storing of a written value (C01), the field denoted by a name (C20)']
ASSUMPTIONS = ['no class is both a node and a list, tuple or string']
# --- end of meta
from common import *


def node_fields():
    from vrml import node
    return [F for F in field_classes() + event_classes() if issubclass(F, node._SFNode)]


def event_classes():
    from vrml import field
    all_modules()
    return sorted({c for c in subclasses(field.Event) if c.__module__.startswith('vrml')}, key=lambda c: (c.__module__, c.__qualname__))


def list_fields():
    from vrml import node
    return [F for F in field_classes() + event_classes() if issubclass(F, node._MFNode)]


KINDS = ['node', 'None', 'text', 'tuple', 'list', 'other']


def value_of_kind(ctx, interp, kind, node):
    """A value of one kind, everything else about it open"""
    import z3
    from pvc.values import SInt, SAny
    from pvc import models
    if kind == 'None':
        return None, None
    value = ctx.any(kind)
    v = interp.to_v(value)
    for c in (None, node.NULL):
        ctx.assume(v != interp.to_v(c))
    base = {'text': str, 'tuple': tuple, 'list': list}.get(kind)
    def isinstance_(interp, x, cls):
        if x is not value:
            return NotImplemented
        if kind == 'node':
            return issubclass(cls, node.Node) or cls is object or issubclass(node.Node, cls)
        if base is not None:
            return issubclass(base, cls)
        return cls is object
    interp.class_contracts['isinstance', None] = isinstance_
    length = ctx.int('length')
    ctx.assume(length.z >= 0)
    item = ctx.any('item')
    def len_(interp, x):
        if x is not value or base is None:
            interp.unsupported('len of %r' % (x,))
        return length
    def getitem(interp, x, k):
        if isinstance(k, slice):
            return models.opaque_text(interp) if base is str else ctx.any('part')
        if x is value and base is not None:
            if isinstance(k, int) and k in (0, -1):
                ctx.assume(length.z == 1, check=True)
                return item
        interp.unsupported('item %r of %r' % (k, x))
    interp.class_contracts['len', None] = len_
    interp.class_contracts['getitem', None] = getitem
    if base is not None:
        from pvc.values import Truthy
        ctx.assume(Truthy(v) == (length.z > 0))
    return value, (length, item)


def coerce_single(F):
    def run(ctx):
        from pvc.engine import PyExc
        from vrml import node
        interp = make_interp(ctx)
        f = F('prop', 1)
        kind = ctx.choose(KINDS)
        value, parts = value_of_kind(ctx, interp, kind, node)
        fn = resolved(F, 'coerce')
        depth, recursions = [0], []
        result = ctx.any('coerced item')
        def handler(interp, args, kwargs):
            if not depth[0]:
                depth[0] = 1
                return interp.call_live(fn, args, kwargs)
            recursions.append(args[1])
            if ctx.choose(['ok', 'refused']) == 'refused':
                interp.raise_(ValueError, 'refused')
            return result
        interp.contract(fn, handler, '%s.coerce (of an item)' % F.__name__)
        required = F.requiredTypes
        ctx.cover(kind)
        try:
            r = interp.call(fn, [f, value])
            raised = None
        except PyExc as err:
            raised = err
            ctx.check('a refusal is a ValueError', err.cls is ValueError, str(err))
        ctx.check('nothing is changed or announced', not dict_writes(ctx) and not sends(ctx))
        if raised is None:
            if kind == 'node':
                ctx.check('a node is kept', r is value, repr(r))
            elif kind == 'None':
                ctx.check('None stands for no node', r is node.NULL, repr(r))
            elif kind == 'text':
                ctx.check('text is refused', False, repr(r))
            elif kind in ('tuple', 'list') and recursions:
                ctx.check('a one-item sequence stands for its item', len(recursions) == 1 and recursions[0] is parts[1] and r is result, repr(r))
                ctx.check('a sequence of one item', parts[0].z == 1)
            elif required:
                ctx.check('everything else is refused', False, '%s gives %r' % (kind, r))
            return
        if kind == 'node':
            # of another type than required
            ctx.check('a node of the required type is accepted', required != (node.Node,), str(raised))
        ctx.check('None is accepted', kind != 'None', str(raised))
        if kind in ('tuple', 'list') and not recursions:
            ctx.check('a one-item sequence is taken as its item', parts[0].z != 1)
    return run


def coerce_list(F):
    def run(ctx):
        import z3
        from pvc.engine import PyExc
        from pvc.values import SList, LazyList, Obj, V
        from pvc import models
        from vrml import node
        interp = make_interp(ctx)
        f = F('prop', 1)
        SF = F.baseSFNode
        Canon, Good = z3.Function('canonical', V, V), z3.Function('suitable', V, z3.BoolSort())
        def one(interp, args, kwargs):
            v = interp.to_v(args[1])
            if not ctx.branch(Good(v)):
                interp.raise_(ValueError, 'refused')
            return interp.from_v(Canon(v))
        interp.contract(resolved(type(SF), 'coerce'), one, 'coerce of an item')
        kind = ctx.choose(['node', 'None', 'text', 'items', 'other'])
        ctx.cover(kind)
        if kind == 'items':
            value = ctx.slist('items')
            seq = value.seq
        else:
            value, parts = value_of_kind(ctx, interp, kind, node)
        def content(interp, items):
            return items if isinstance(items, LazyList) else interp.make(list(items))
        interp.class_contracts['content', F.baseObjectType] = content
        try:
            r = interp.call(resolved(F, 'coerce'), [f, value])
        except PyExc as err:
            ctx.check('a refusal is a ValueError', err.cls is ValueError, str(err))
            ctx.check('no node and None are accepted', kind != 'None', str(err))
            if kind == 'node':
                ctx.check('a node of the required type is accepted', SF.requiredTypes != (node.Node,), str(err))
            if kind == 'items':
                k = z3.Int(ctx.name('bad'))
                ctx.cover('item refused')
                if SF.requiredTypes:
                    s = z3.Int('s!!')
                    ctx.check('only an unsuitable item is refused', z3.Exists([s], z3.And(s >= 0, s < z3.Length(seq), z3.Not(Good(seq[s])))))
            return
        ctx.check('nothing is announced', not sends(ctx))
        ctx.check('the result is a new observable list', isinstance(r, Obj) and r.cls is F.baseObjectType and allocated(ctx, r) or isinstance(r, F.baseObjectType) and id(r) in interp.fresh, repr(r))
        inside = r.payload if isinstance(r, Obj) else r
        if kind == 'items':
            n = models.length_term(inside) if isinstance(inside, (SList, LazyList)) else z3.IntVal(len(inside))
            ctx.check('one entry for each item', n == z3.Length(seq))
            j = z3.Int(ctx.name('any'))
            ctx.assume(z3.And(j >= 0, j < z3.Length(seq)))
            if ctx.feasible() and isinstance(inside, (SList, LazyList)):
                ctx.instantiate(j)
                ctx.check('no unsuitable item is accepted', Good(seq[j]))
                ctx.assume(Good(seq[j]))
                ctx.check('the canonical form of the item', interp.to_v(models.index_list(interp, inside, j)) == Canon(seq[j]))
        elif kind == 'node':
            ctx.check('a single node stands for a one-item list', len(inside) == 1 and inside[0] is value, repr(inside))
        elif kind == 'None':
            ctx.check('None stands for an empty list', len(inside) == 0, repr(inside))
        else:
            # anything false stands for an empty list
            from pvc.values import Truthy
            ctx.check('everything else is refused', z3.Not(Truthy(interp.to_v(value))), kind)
            ctx.check('or empty', len(inside) == 0, repr(inside))
    return run


# ---------------------------------------------------------- roots
def roots(ctx, interp):
    """The root of a node is a function of the node; setting it is recorded"""
    import z3
    from pvc.values import V, WeakRef
    from vrml import node, field
    Root = z3.Function('root', V, V)
    memo = {}
    def fget(interp, args, kwargs):
        o = args[1]
        k = interp.to_v(o)
        return interp.from_v(Root(k))
    def fset(interp, args, kwargs):
        ctx.trace.append(('rootset', args[1], args[2] if len(args) > 2 else kwargs.get('value'), args[3] if len(args) > 3 else kwargs.get('notify', 1)))
        return None
    interp.contract(resolved(node.RootScenegraphNode, 'fset'), fset, 'RootScenegraphNode.fset')
    interp.contract(field.WeakField.__dict__['fget'], fget, 'WeakField.fget of the root field')
    return Root


def check_roots(ctx, interp, Root, client, value, single, items=None):
    import z3
    from pvc.values import Truthy, SList
    from pvc import models
    has = lambda v: Truthy(Root(v))
    me = interp.to_v(client)
    direct = [t for t in ctx.trace if t[0] == 'rootset']
    def proper(t, v):
        ctx.check('it takes over the root of the node', interp.to_v(t[1]) == v, repr(t))
        ctx.check('that root', interp.to_v(t[2]) == Root(me), repr(t))
        ctx.check('silently', t[3] in (0, False), repr(t))
    if single:
        v = interp.to_v(value)
        ctx.check('one root at most', len(direct) <= 1)
        if direct:
            ctx.cover('takes over')
            proper(direct[0], v)
            ctx.check('only a node without root is given one', z3.And(Truthy(v), has(me), z3.Not(has(v))))
        else:
            ctx.check('a node without root is given the one of the node', z3.Not(z3.And(Truthy(v), has(me), z3.Not(has(v)))))
        return
    ctx.check('roots are given to the items', not direct)
    seq = items
    loops = [t for t in ctx.trace if t[0] == 'foreach' and any(u[0] == 'rootset' for o in t[3] for u in o.trace)]
    n = z3.Length(seq)
    ctx.check('one pass over the items', len(loops) <= 1)
    if not loops:
        others = [t for t in ctx.trace if t[0] == 'foreach']
        k = z3.Int(ctx.name('any'))
        ctx.check('items without root are given the one of the node', z3.Or(n == 0, z3.Not(has(me))) if not others else z3.BoolVal(False))
        return
    ctx.cover('takes over')
    _, j, bound, segment, over = loops[0]
    ctx.check('over all the items', z3.And(bound == n, models.length_term(over) == n) if z3.is_expr(bound) else False)
    for o in segment:
        item = seq[j]
        sets = [u for u in o.trace if u[0] == 'rootset']
        ctx.check('one root at most', len(sets) <= 1)
        cond = z3.And(*(list(o.conds) + [j >= 0, j < n]))
        if sets:
            ctx.check('it takes over the root of the node', z3.Implies(cond, interp.to_v(sets[0][1]) == item), repr(sets))
            ctx.check('that root', z3.Implies(cond, interp.to_v(sets[0][2]) == Root(me)), repr(sets))
            ctx.check('silently', sets[0][3] in (0, False), repr(sets))
            ctx.check('only a node without root is given one', z3.Implies(cond, z3.And(has(me), z3.Not(has(item)))))
        else:
            ctx.check('a node without root is given the one of the node', z3.Implies(cond, z3.Or(z3.Not(has(me)), has(item))))


# ---------------------------------------------------------- watching
def check_watch(ctx, interp, f, client, name, stored, own):
    """The callbacks registered for the list announce its changes as those of the field, and nothing else"""
    from pvc.values import Obj, WeakRef
    from pvc.engine import PyExc
    from vrml import olist
    L = olist.OList
    connects = [t for t in ctx.trace if t[0] == 'connect']
    ctx.check('the list is an observable list', isinstance(stored, Obj) and issubclass(stored.cls, L), repr(stored))
    if not isinstance(stored, Obj):
        return
    sender = interp.get_attr(stored, 'sender')
    ctx.check('its messages come from the node', isinstance(sender, WeakRef) and sender.target is client, repr(sender))
    extra = interp.get_attr(stored, 'extraArgs')
    extra = extra if isinstance(extra, dict) else dict(interp.dict_entries(extra)) if extra is not None else {}
    ctx.check('and name the field', set(extra) == {'field'} and extra['field'] is f, repr(extra))
    for t in connects:
        ctx.check('only the messages of the list are subscribed to', t[3] is client and t[2] in (L.NEW_CHILD_EVT, L.DEL_CHILD_EVT), repr(t))
        ctx.check('the subscription lasts', t[4] in (False, 0), repr(t))
    for signal in (L.NEW_CHILD_EVT, L.DEL_CHILD_EVT):
        for which in ('this list', 'another field', 'replaced list', 'node gone'):
            child = ctx.any('child')
            mark = len(ctx.trace)
            current = interp.dict_lookup(client.d, name)
            # message of a list which is not the field's (any more), or of another field
            field_arg = f if which != 'another field' else ctx.any('other field')
            if which == 'another field':
                ctx.assume(interp.to_v(field_arg) != interp.to_v(f), check=False)
            if which == 'replaced list':
                other = ctx.obj(L, 'new list')
                other.payload = interp.make([])
                interp.dict_store(client.d, name, other)
                mark = len(ctx.trace)
            refs = [r for r in weak_refs(connects) if r.target is client] if which == 'node gone' else []
            if which == 'node gone' and not refs:
                ctx.check('the subscription does not keep the node alive', False)
            for r in refs:
                r.dead = True
            try:
                for t in connects:
                    if t[2] == signal:
                        interp.call(t[1], [], dict(sender=client, signal=signal, value=child, **dict(extra, field=field_arg)))
            except PyExc as err:
                ctx.check('the callback does not fail', False, str(err))
            got = [t for t in ctx.trace[mark:] if t[0] == 'send']
            if which == 'this list':
                ok = len(got) == 1
                ctx.check('a mutation is announced once as a change of the field', ok, repr(got))
                if ok:
                    _, sig, snd, args, named = got[0]
                    ctx.check('("set", field)', type(sig) is tuple and len(sig) == 2 and sig[0] == 'set' and sig[1] is f, repr(sig))
                    ctx.check('of that node', snd is client, repr(snd))
                    ctx.check('with the list as its value', named.get('value') is current, repr(named))
            else:
                ctx.check('nothing is announced for %s' % which, not got, repr(got))
            ctx.check('the callback changes nothing', not [t for t in ctx.trace[mark:] if t[0] in ('w', 'l') and not allocated(ctx, t[1])])
            if which == 'replaced list':
                interp.dict_store(client.d, name, current)
            for r in refs:
                r.dead = False


def weak_refs(connects):
    from pvc.values import Func, WeakRef
    out = []
    for t in connects:
        env = t[1].env if isinstance(t[1], Func) else None
        while env is not None:
            out.extend(v for v in env.locals.values() if isinstance(v, WeakRef))
            env = env.parent
    return out


def write_list(F, entry):
    def run(ctx):
        import z3
        from pvc.engine import PyExc
        from pvc.values import SList, V, Obj
        from vrml import node, olist
        interp = make_interp(ctx)
        f, name = make_field(interp, F)
        client = make_client(interp)
        Root = roots(ctx, interp)
        s = z3.Const(ctx.name('items'), z3.SeqSort(V))
        coerced = ctx.obj(F.baseObjectType, 'canonical list')
        coerced.payload = SList(s, 'items')
        coerced.fresh_local = coerced.d.fresh_local = True
        given = ctx.any('value')
        asked = []
        def coerce(interp, args, kwargs):
            asked.append(args[1])
            if ctx.choose(['ok', 'refused']) == 'refused':
                interp.raise_(ValueError, 'refused')
            return coerced
        interp.contract(resolved(F, 'coerce'), coerce, '%s.coerce' % F.__name__)
        had = ctx.choose([False, True])
        previous = None
        replaced = []
        if had:
            previous = ctx.obj(F.baseObjectType, 'present list')
            previous.payload = SList(z3.Const(ctx.name('old'), z3.SeqSort(V)), 'old')
            interp.dict_store(client.d, name, previous)
        else:
            interp.dict_method(client.d, 'pop', [name, None], {})
        ctx.trace[:] = []
        def replace(interp, args, kwargs):
            replaced.append(args)
            args[0].payload = SList(s, 'items')
            return None
        interp.contract(resolved(F.baseObjectType, '__setitem__'), replace, 'OList.__setitem__ (C06)')
        try:
            if entry == '__set__':
                interp.call(interp.get_attr(f, '__set__'), [client, given])
            else:
                interp.call(interp.get_attr(f, 'fset'), [client, given] + ([0] if entry == 'silent' else []))
        except PyExc as err:
            ctx.cover('refused')
            ctx.check('a refusal is a ValueError', err.cls is ValueError, str(err))
            ctx.check('which changes nothing', not dict_writes(ctx) and not replaced)
            ctx.check('and announces nothing', not sends(ctx) and not [t for t in ctx.trace if t[0] in ('connect', 'rootset')])
            return
        ctx.check('the given value is coerced', asked and asked[0] is given, repr(asked))
        stored = interp.dict_lookup(client.d, name)
        if had:
            ctx.cover('replaced')
            ctx.check('the present list is kept', stored is previous, repr(stored))
            ok = len(replaced) == 1 and replaced[0][0] is previous and isinstance(replaced[0][1], slice) and replaced[0][1] == slice(None) and replaced[0][2] is coerced
            ctx.check('its items are replaced by the canonical ones', ok, repr(replaced))
            ctx.check('it is not watched twice', not [t for t in ctx.trace if t[0] == 'connect'])
            ctx.check('nothing else is written', not [t for t in dict_writes(ctx)], repr(dict_writes(ctx)))
        else:
            ctx.cover('new list')
            ctx.check('the canonical list is stored', stored is coerced, repr(stored))
            ctx.check('nothing else is written', all(t[0] == 'w' and t[1] is client.d and t[2] is name for t in dict_writes(ctx)), repr(dict_writes(ctx)))
        check_roots(ctx, interp, Root, client, stored, False, s)
        if not had:
            check_watch(ctx, interp, f, client, name, stored, given)
    return run


def write_single(F):
    def run(ctx):
        from pvc.engine import PyExc
        interp = make_interp(ctx)
        f, name = make_field(interp, F)
        client = make_client(interp)
        Root = roots(ctx, interp)
        canonical = ctx.any('canonical node')
        interp.contract(resolved(F, 'coerce'), lambda interp, args, kwargs: canonical, '%s.coerce' % F.__name__)
        entry = ctx.choose(['__set__', 'fset'])
        interp.call(interp.get_attr(f, entry), [client, ctx.any('value')])
        ctx.check('the node is stored', interp.dict_lookup(client.d, name) is canonical)
        check_roots(ctx, interp, Root, client, canonical, True)
    return run


def default_list(F):
    def run(ctx):
        from vrml import node
        from pvc.values import Obj
        interp = make_interp(ctx)
        f, name = make_field(interp, F)
        client = make_client(interp)
        interp.dict_method(client.d, 'pop', [name, None], {})
        ctx.trace[:] = []
        how = ctx.choose(['__get__', 'fget'])
        r = interp.call(interp.get_attr(f, how), [client] + ([node.Node] if how == '__get__' else []))
        stored = interp.dict_lookup(client.d, name)
        ctx.check('the default list is stored and returned', r is stored, '%r %r' % (r, stored))
        ctx.check('it is empty', isinstance(stored, Obj) and stored.payload == [])
        check_watch(ctx, interp, f, client, name, stored, None)
    return run


def root_field(ctx):
    """RootScenegraphNode.fset: the node refers to that root afterwards; recursion only into what its own fields hold"""
    import z3
    from pvc.values import V, SAny, WeakRef, Truthy, SList, Model
    from pvc.engine import PyExc
    from vrml import node, field, protofunctions
    from vrml.vrml97 import scenegraph
    interp = make_interp(ctx)
    f = node.Node.rootSceneGraph
    client = make_client(interp)
    root = ctx.obj(scenegraph.SceneGraph, 'root')
    before = ctx.choose(['unset', 'the same', 'another'])
    if before == 'unset':
        interp.dict_method(client.d, 'pop', [f.name, None], {})
    else:
        interp.dict_store(client.d, f.name, WeakRef(root if before == 'the same' else ctx.obj(node.Node, 'former')))
    ctx.trace[:] = []
    fn = resolved(node.RootScenegraphNode, 'fset')
    depth, children, registered = [0], [], []
    def handler(interp, args, kwargs):
        if not depth[0]:
            depth[0] = 1
            return interp.call_live(fn, args, kwargs)
        ctx.trace.append(('rootset', args[1], args[2], args[3] if len(args) > 3 else kwargs.get('notify', 1)))
        return None
    interp.contract(fn, handler, 'RootScenegraphNode.fset (of what the fields hold)')
    # any list of fields, each holding anything
    from vrml.vrml97 import basenodes
    shapes = ctx.choose(['none', 'single', 'list', 'name', 'other'])
    fields = {'none': [], 'single': [node.SFNode('held', 1)], 'list': [node.MFNode('held', 1)], 'name': [node.Node.DEF], 'other': [node.Node.externalURL]}[shapes]
    interp.contract(protofunctions.getFields, lambda interp, args, kwargs: interp.make(list(fields)), 'getFields (C20)')
    if getattr(node, 'getFields', None) is not protofunctions.getFields:
        interp.contract(node.getFields, lambda interp, args, kwargs: interp.make(list(fields)), 'getFields (C20)')
    held = ctx.any('held')
    items = ctx.slist('held')
    for c in (node.SFNode, node.MFNode, type(node.Node.DEF)):
        g = resolved(c, '__get__')
        if g is not None:
            def get(interp, args, kwargs, g=g):
                if not any(args[0] is x for x in fields):
                    return interp.call_live(g, args, kwargs)
                return items if isinstance(args[0], node.MFNode) else ctx.str('DEF') if args[0] is node.Node.DEF else held
            interp.contract(g, get, '%s.__get__ of the fields' % c.__name__)
    interp.contract(scenegraph.SceneGraph.__dict__['regDefName'], lambda interp, args, kwargs: registered.append((args[0], args[1:])), 'regDefName (C15)')
    try:
        interp.call(fn, [f, client, root], {'notify': 0})
    except PyExc as err:
        ctx.check('it does not fail', False, str(err))
        return
    ref = interp.dict_lookup(client.d, f.name)
    ctx.check('the node has that root', isinstance(ref, WeakRef) and ref.target is root, repr(ref))
    ctx.check('nothing else is written', all(t[0] == 'w' and (t[1] is client.d and t[2] == f.name or t[2] == f.name and t[3] is node.NULL) for t in dict_writes(ctx)), repr(dict_writes(ctx)))
    ctx.check('silently', not sends(ctx), repr(sends(ctx)))
    wanted = 1 if shapes == 'name' and before != 'the same' else 0
    ctx.check('a new root learns its name', len(registered) == wanted and all(o is root and a[1] is client for o, a in registered), repr(registered))
    ctx.cover(shapes)
    ctx.cover(before)


def constructor(ctx):
    """Node.__init__ hands every argument to the field its name denotes, once, in order"""
    from pvc.engine import PyExc
    from pvc.values import Model
    from vrml import node, protofunctions
    interp = make_interp(ctx)
    n = ctx.choose([0, 1, 2, 3])
    names = ['a%d' % i for i in range(n)]
    values = [ctx.any('argument') for i in range(n)]
    client = make_client(interp)
    known = {}
    got = []
    class Denoted(object):
        """A field: fset records the call"""
    bad = ctx.choose([None] + list(range(n)))
    why = ctx.choose(['unknown', 'not a field', 'refused']) if bad is not None else None
    fields = {}
    class Stand(object):
        def __init__(self, name): self.name = name
        def __get__(self, *a): pass
        def __set__(self, *a): pass
        def __repr__(self): return 'field ' + self.name
    class NotField(object):
        pass
    def getField(interp, args, kwargs):
        ctx.check('fields of the node are looked up', args[0] is client, repr(args))
        name = args[1]
        if bad is not None and name == names[bad] and why == 'unknown':
            interp.raise_(AttributeError, 'unknown')
        if bad is not None and name == names[bad] and why == 'not a field':
            return NotField()
        f = fields.setdefault(name, Stand(name))
        def fset(interp, args, kwargs, f=f):
            if bad is not None and f.name == names[bad] and why == 'refused':
                interp.raise_(ValueError, 'refused')
            got.append((f, args[0], args[1] if len(args) > 1 else kwargs.get('value'), len(args) + len(kwargs)))
        f.fset = Model(fset, 'fset of ' + name)
        return f
    interp.contract(protofunctions.getField, getField, 'getField (C20)')
    if node.getField is not protofunctions.getField:
        interp.contract(node.getField, getField, 'getField (C20)')
    try:
        interp.call(node.Node.__dict__['__init__'], [client], dict(zip(names, values)))
    except PyExc as err:
        ctx.cover('refused')
        want = {'unknown': AttributeError, 'not a field': TypeError, 'refused': ValueError}[why] if why else None
        ctx.check('a refusal tells its reason', err.cls is want, str(err))
        return
    ctx.cover('constructed')
    ctx.check('no argument is ignored', bad is None)
    ok = len(got) == n and all(g[0] is fields.get(names[i]) and g[1] is client and g[2] is values[i] and g[3] == 2 for i, g in enumerate(got))
    ctx.check('every argument is given to its field', ok, repr(got))


def proofs(mode):
    out = []
    for F in node_fields():
        if mode == 'pure':
            out.append(('%s.coerce' % F.__name__, coerce_single(F), dict(covers=KINDS)))
    from vrml import field, node
    for F in list_fields():
        if mode == 'pure':
            out.append(('%s.coerce' % F.__name__, coerce_list(F), dict(covers=['node', 'None', 'text', 'items', 'other'])))
        if issubclass(F, field.Field):
            for entry in ('__set__', 'fset', 'silent'):
                out.append(('%s, written by %s' % (F.__name__, entry), write_list(F, entry), dict(covers=['refused', 'replaced', 'new list', 'takes over'])))
            out.append(('%s, default' % F.__name__, default_list(F), dict(covers=[])))
    for F in node_fields():
        if issubclass(F, field.Field) and not is_weak(F):
            out.append(('%s, root of a written node' % F.__name__, write_single(F), dict(covers=['takes over'])))
    if mode == 'pure':
        out.append(('root of a node', root_field, dict(covers=['none', 'single', 'list', 'name', 'other', 'unset', 'the same', 'another'])))
        out.append(('constructor', constructor, dict(covers=['refused', 'constructed'])))
    return out


# ------------------------------------------------------------------ cases
HOW = ['construct', 'assign', 'default', 'copy', 'replace', 'delete', 'scene']
OPS = ['append', 'insert', 'pop', 'remove', 'set', 'slice', 'del', 'extend', 'clear', 'iadd', 'imul']


def cases(rnd, tier, mode):
    names = holders()
    for i in range(3000 if tier == 'quick' else 12000):
        yield dict(kind='history', holders=[list(rnd.choice(names)) for k in range(2)], how=[rnd.choice(HOW) for k in range(rnd.randint(1, 4))],
                   ops=[[rnd.choice(OPS), rnd.randint(0, 1), rnd.randint(-3, 3), rnd.randint(0, 7)] for k in range(rnd.randint(1, 7))])
    for i in range(600 if tier == 'quick' else 2000):
        yield dict(kind='root', entry=rnd.choice(['single', 'list', 'construct', 'default list']), rooted=rnd.random() < 0.8, own=rnd.random() < 0.3, depth=rnd.randint(0, 3), many=rnd.randint(0, 3))
    for what in ('text', 'number', 'plain', 'longtuple', 'mixed', 'array', 'empty tuple', 'class', 'dict', 'badlist', 'nested', 'null', 'none', 'list1', 'tuple1', 'node', 'generator'):
        for where in ('single', 'list', 'construct single', 'construct list', 'list again'):
            yield dict(kind='accept', what=what, where=where)


def holders():
    from vrml import node
    out = []
    for c in node_classes():
        for f in public_fields(c):
            if isinstance(f, node.MFNode) and type(f) is node.MFNode:
                out.append((c.__module__, c.__name__, f.name))
    return sorted(set(out))


def check_case(case):
    from vrml import node
    from vrml.vrml97 import basenodes
    if case['kind'] == 'accept':
        return check_accept(case)
    if case['kind'] == 'root':
        return check_root(case)
    import importlib
    from pydispatch import dispatcher
    pool = [basenodes.Group(DEF='n%d' % i) for i in range(8)]
    made = []
    for (module, cname, fname) in case['holders']:
        cls = getattr(importlib.import_module(module), cname)
        made.append([cls, fname, None])
    problem = []
    for i, (cls, fname, n) in enumerate(made):
        from vrml import protofunctions
        f = protofunctions.getField(cls, fname)
        for how in case['how']:
            if how == 'construct' or n is None:
                n = cls(**{fname: [pool[0], pool[1]]}) if how in ('construct', 'scene') else cls()
            if how == 'assign':
                setattr(n, fname, [pool[2]])
            elif how == 'default':
                n = cls()
                getattr(n, fname)
            elif how == 'copy':
                n = n.copy()
            elif how == 'replace':
                setattr(n, fname, [pool[3], pool[4]])
                setattr(n, fname, (pool[5],))
            elif how == 'delete':
                if fname in n.__dict__:
                    old = n.__dict__[fname]
                    delattr(n, fname)
                    with Recorder() as rec:
                        old.append(pool[6])
                    if [e for e in rec.events if isinstance(e[0], tuple)]:
                        return 'a list which is no longer the field is announced: %r' % (rec.events,)
        made[i][2] = n
    for op, which, a, b in case['ops']:
        cls, fname, n = made[which]
        f = protofunctions.getField(cls, fname)
        l = getattr(n, fname)
        x = pool[b]
        if any(y is x for y in l) and op in ('append', 'insert', 'extend', 'iadd', 'set', 'slice'):
            continue
        before = list(l)
        with Recorder() as rec:
            try:
                if op == 'append': l.append(x)
                elif op == 'insert': l.insert(a, x)
                elif op == 'pop': l.pop()
                elif op == 'remove': l.remove(x)
                elif op == 'set': l[a] = x
                elif op == 'slice': l[a:] = [x]
                elif op == 'del': del l[a]
                elif op == 'extend': l.extend([x])
                elif op == 'clear': l.clear()
                elif op == 'iadd':
                    l += [x]
                elif op == 'imul':
                    l *= 0
            except (IndexError, ValueError):
                pass
        if getattr(n, fname) is not l:
            return '%s replaced the list' % op
        changes = len([y for y in l if not any(y is z for z in before)]) + len([y for y in before if not any(y is z for z in l)])
        told = [e for e in rec.events if isinstance(e[0], tuple)]
        mine = [e for e in told if e[0] == ('set', f) and e[1] is n and e[2].get('value') is l]
        if len(mine) != changes:
            return '%s with %d membership changes is announced %d times as a change of %s.%s' % (op, changes, len(mine), cls.__name__, fname)
        if len(told) != len(mine):
            return '%s is announced as %r' % (op, [e for e in told if not any(e is m for m in mine)])
        if changes and not mine:
            return 'not announced'
    return None


def check_accept(case):
    import numpy
    from vrml import node
    from vrml.vrml97 import basenodes
    b = basenodes.Box()
    c = basenodes.Sphere()
    value, single, many = {
        'text': ('abc', ValueError, ValueError), 'number': (3, ValueError, ValueError), 'plain': (object(), ValueError, ValueError),
        'longtuple': ((b, c), ValueError, [b, c]), 'mixed': ([b, 'x'], ValueError, ValueError), 'array': (numpy.zeros(3), ValueError, ValueError),
        'empty tuple': ((), ValueError, []), 'class': (basenodes.Box, ValueError, ValueError), 'dict': ({'a': b}, ValueError, ValueError),
        'badlist': ([3], ValueError, ValueError), 'nested': ([[b]], b, [b]), 'null': (node.NULL, node.NULL, None), 'none': (None, node.NULL, []),
        'list1': ([b], b, [b]), 'tuple1': ((b,), b, [b]), 'node': (b, b, [b]), 'generator': ((x for x in [b]), ValueError, ValueError)}[case['what']]
    where = case['where']
    want = many if 'list' in where else single
    if want is None:
        return None
    n = basenodes.Group() if 'list' in where else basenodes.Shape()
    if where == 'list again':
        n.children = [c]
    try:
        if where.startswith('construct'):
            n = basenodes.Group(children=value) if 'list' in where else basenodes.Shape(geometry=value)
        elif 'list' in where:
            n.children = value
        else:
            n.geometry = value
    except ValueError:
        if want is not ValueError:
            return '%r refused' % (value,)
        if not where.startswith('construct') and (where == 'list again') != ('children' in n.__dict__) or where == 'list again' and list(n.children) != [c]:
            return 'a refusal changed the node'
        return None
    if want is ValueError:
        return '%r accepted by %s' % (value, where)
    got = list(n.children) if 'list' in where else n.geometry
    if isinstance(want, list):
        ok = len(got) == len(want) and all(p is q for p, q in zip(got, want))
    else:
        ok = got is want
    return None if ok else '%r becomes %r' % (value, got)


def check_root(case):
    from vrml import node
    from vrml.vrml97 import basenodes, scenegraph
    root = scenegraph.SceneGraph()
    other = scenegraph.SceneGraph()
    parent = basenodes.Group() if case['entry'] != 'single' else basenodes.Shape()
    if case['rooted']:
        node.Node.rootSceneGraph.fset(parent, root)
    def tree(depth):
        if case['entry'] == 'single':
            return basenodes.Box()
        g = basenodes.Group()
        if depth:
            g.children = [tree(depth - 1), basenodes.Shape(geometry=basenodes.Box())]
        return g
    news = [tree(case['depth']) for i in range(max(1, case['many']))]
    if case['own']:
        node.Node.rootSceneGraph.fset(news[0], other)
    if case['entry'] == 'single':
        news = news[:1]
        parent.geometry = news[0]
    elif case['entry'] == 'default list':
        parent.children
        parent.children = news
    else:
        parent.children = news
    for i, n in enumerate(news):
        r = node.Node.rootSceneGraph.fget(n)
        want = other if case['own'] and i == 0 else root if case['rooted'] else None
        if want is None:
            if r:
                return 'an unrooted parent gives a root: %r' % (r,)
        elif r is not want:
            return 'root of the assigned node is %r' % (r,)
    return None
