PROPERTY = 'C18'
LEVEL = 'proof'
PROOF_MODES = ['pure', 'accel']
CASE_MODES = ['pure', 'accel']
SHARDS = 3
EXPLANATION = ('One copying pass, by contract: Copier.use looks up and records copies by identity. Node.copy is executed symbolically for a node or a prototype instance with '
               'any number of fields of any type (invariant over the fields): it returns what the pass already has, otherwise one new node of the same type, registered before '
               'any field is copied, which holds exactly the copied values of the set fields (and of default nodes, kept by the source), silently, and whose child lists announce '
               'their changes as its own; the source is not changed. copyValue of every field type gives immutable values or new arrays and lists holding the copies of the '
               'nodes of the same pass (any length). SceneGraph.copy: its names become the names of the copies (any number), its prototypes a table of its own. ROUTE.copy: the copy is '
               'bound like any new route. PrototypedNode.instantiate: the first definition with a body is copied in a pass of its own, and every mapping of every interface (any number of both) '
               'becomes one IS connection from that field of the instance to the mapped field of the very copy, which is given the declared default, or the instance\'s own default nodes, and '
               'passes it on when it is a prototype itself. That sharing inside the source is sharing inside the copy, and that nothing else is shared, follows by induction over the pass.')
BOUNDED = ['bounded: real scenes and prototypes made by the seed: sizes 2 to 20 nodes with shared nodes, routes, nested prototypes and several mappings per field; every copy and instance compared with its '
           'source node by node, then both sides changed (quick 1200 scenes, 300 in the compiled build; thorough 20000)']
TRUSTED = ['copy.copy calls __copy__; dict(d) is a table of its own with the entries of d', 'the effect of an IS connection (C08)', 'writes of fields (C01, C07), the fields of a type (C20)',
           'weakref and numpy copies']
ASSUMPTIONS = ['copiers share prototypes (shareProtos=0 was never supported: copyProto does not exist)', 'default values of node fields are not changed in place on the class']
# --- end of meta
from common import *


ANY_FIELDS = 'the fields of the node'


def probe(proto=False):
    from vrml import node
    return type('Probe', (node.PrototypedNode, node.Node) if proto else (node.Node,), {'__module__': 'vrml.node'})


def the_copier(ctx, interp, known):
    """A copier in the midst of a pass: known(node) gives its copy, None, or 'nothing known of it'"""
    from vrml import copier
    c = ctx.obj(copier.Copier, 'copier', open=True)
    uses = []
    def use(interp, args, kwargs):
        names = dict(zip(['self', 'clientNode', 'newNode'], args), **kwargs)
        if names.get('newNode') is None:
            for who, what, whom in reversed(uses):
                if who is names['clientNode'] and whom is names['self']:
                    return what
            return known(names['clientNode'])
        uses.append((names['clientNode'], names['newNode'], names['self']))
        return None
    interp.contract(copier.Copier.__dict__['use'], use, 'Copier.use')
    return c, uses


def any_fields(ctx, interp, f, client):
    """The node has any fields: the list of them, each being like f at the step looked at"""
    import z3
    from pvc.values import LazyList
    from vrml import node, protofunctions
    n = ctx.int('fields')
    ctx.assume(n.z >= 0, check=False)
    fields = LazyList(n.z, lambda j: f, ANY_FIELDS)
    def of(interp, args, kwargs):
        ctx.check('the fields of the node are copied', args[0] is client and not (len(args) > 1 and args[1]) and not kwargs.get('events'), repr(args))
        return fields
    for g in set([protofunctions.getFields, node.getFields]):
        interp.contract(g, of, 'getFields (C20)')
    return fields


def copy_node(F, proto):
    def run(ctx):
        import z3
        from pvc import loops
        from pvc.values import WeakRef, Obj, ABSENT, Truthy
        from pvc.engine import PathEnd
        from vrml import node, copier
        interp = make_interp(ctx)
        cls = probe(proto)
        client = ctx.obj(cls, 'source', open=True)
        f, name = make_field(interp, F)
        weak = is_weak(F)
        previous = ctx.obj(cls, 'copy made before') if ctx.choose([True, False]) else None
        def known(n):
            ctx.check('the copier is asked for this node', n is client, repr(n))
            return previous
        c, uses = the_copier(ctx, interp, known)
        given = ctx.choose([True, False])
        # -- contracts
        declared, own = ctx.any('declared default'), ctx.any('own default')
        if weak:
            # (never a reference, C02)
            declared = own = ctx.choose([None, node.NULL])
        def default(interp, args, kwargs):
            if len(args) > 1 or kwargs:
                ctx.check('defaults are read for the node', args[1] is client, repr(args))
                interp.dict_store(client.d, name, own)
                return own
            return declared
        interp.contract(resolved(F, 'getDefault'), default, 'getDefault')
        copies, watched = [], []
        def copy_value(interp, args, kwargs):
            names = dict(zip(['self', 'value', 'copier'], args), **kwargs)
            r = ctx.any('copied value')
            copies.append((names, r))
            return r
        interp.contract(resolved(F, 'copyValue'), copy_value, 'copyValue')
        interp.contract(node._MFNode.__dict__['_watchList'], lambda interp, args, kwargs: watched.append(args), '_watchList (C07)')
        fields = any_fields(ctx, interp, f, client)
        # -- the state
        state = ctx.choose(['stored', 'unset'] + (['dead'] if weak else []))
        value = ctx.any('value') if not weak else ctx.obj(node.Node, 'value')
        held = ABSENT if state == 'unset' else value
        if weak and state != 'unset':
            held = WeakRef(value)
            held.dead = state == 'dead'
        client.d.base.append([name, held])
        ctx.trace[:] = []
        passes = []
        def new_node():
            ctx.check('a new node is registered as the copy', len(uses) == 1 and uses[0][0] is client, repr(uses))
            if len(uses) != 1:
                raise PathEnd()
            new = uses[0][1]
            ctx.check('of the same type', isinstance(new, Obj) and new.cls is cls and new is not client and allocated(ctx, new), repr(new))
            ctx.check('with the copier of the pass', uses[0][2] is c if given else isinstance(uses[0][2], Obj) and uses[0][2].cls is copier.Copier and uses[0][2] is not c, repr(uses))
            return new
        def rule(interp, stmt, fr, items):
            if getattr(items, 'label', None) != ANY_FIELDS:
                return NotImplemented
            start = [None]
            def establish():
                new = new_node()
                ctx.check('no field of the copy is set before', not [v for k, v in new.d.over if v is not ABSENT], repr(new.d.over))
                passes.append(1)
            def havoc(k):
                new = uses[0][1]
                # other fields may have been copied
                new.d.open = True
                new.d.base.append([name, ABSENT])
                start[0] = len(ctx.trace)
            def preserved(k):
                new = uses[0][1]
                trace = ctx.trace[start[0]:]
                writes = [t for t in trace if t[0] == 'w']
                for t in writes:
                    ctx.check('nothing but this field is written', (t[1] is new.d or t[1] is client.d) and t[2] is name, repr(t))
                at = [t[3] for t in writes if t[1] is new.d]
                src = [t[3] for t in writes if t[1] is client.d]
                ctx.check('no list is changed', not [t for t in trace if t[0] == 'l'])
                ctx.check('copying is silent', not [t for t in trace if t[0] == 'send'])
                ctx.check('no other copy is registered', len(uses) == 1)
                ctx.check('a value is copied once', len(copies) <= 1 and len(at) == len(copies), repr((copies, at)))
                if copies:
                    names, r = copies[0]
                    ctx.check('by the field', names['self'] is f)
                    ctx.check('with the same copier', names.get('copier') is uses[0][2], repr(names))
                    ctx.check('the copy holds the copied value', bool(at) and at[-1] is r, repr(at))
                if state == 'stored':
                    ctx.cover('stored')
                    ctx.check('a stored value is copied', bool(copies) and copies[0][0]['value'] is value, repr(copies))
                    ctx.check('the source keeps its value', not src, repr(src))
                elif state == 'dead':
                    ctx.cover('dead')
                    ctx.check('at most nothing is copied', all(n['value'] is None for n, r in copies), repr(copies))
                else:
                    if copies:
                        ctx.cover('default nodes')
                        ctx.check('only fields of nodes have a default to copy', bool(F.nodes))
                        ctx.check('the copied default is the one the source keeps', copies[0][0]['value'] is own and src and src[-1] is own, repr((copies, src)))
                    else:
                        ctx.cover('unset')
                        ctx.check('default nodes are copied', z3.Not(Truthy(declared.z)) if F.nodes and not weak else True)
                        ctx.check('an unset field stays unset', not src or not F.nodes or is_weak(F) or src[-1] is own, repr(src))
                want = 1 if copies and is_list_field(F) else 0
                ok = len(watched) == want and all(w[0] is f and w[1] is new and w[2] is copies[0][1] for w in watched)
                ctx.check('child lists of the copy announce their changes as its own', ok, repr(watched))
            loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
        interp.loop_specs.insert(0, rule)
        r = interp.call(resolved(cls, 'copy'), [client] + ([c] if given else []))
        if given and previous is not None:
            ctx.cover('copied before')
            ctx.check('a node is copied once in a pass', r is previous, repr(r))
            ctx.check('nothing is done then', not uses and not dict_writes(ctx) and not passes and not copies)
            return
        if previous is not None:
            return              # (nothing is known of a new copier)
        ctx.cover('copied')
        new = new_node()
        ctx.check('the copy is returned', r is new, repr(r))
        ctx.check('one pass over the fields', len(passes) == 1)
        ctx.check('nothing else is changed', not dict_writes(ctx), repr(dict_writes(ctx)))
        ctx.check('silently', not sends(ctx))
    return run


def use_harness(ctx):
    """Copier.use: a table from nodes to their copies"""
    from pvc.values import SDict, ABSENT
    from vrml import copier
    interp = make_interp(ctx)
    fn = copier.Copier.__dict__['use']
    from pvc import models
    c = models.new_instance(interp, copier.Copier)
    interp.call(copier.Copier.__dict__['__init__'], [c])
    a, b = ctx.obj(probe(), 'one'), ctx.obj(probe(), 'other')
    ctx.check('a new copier knows no node', interp.call(fn, [c, a]) is None)
    # any state reached by registrations
    x, y = ctx.obj(probe(), 'copy'), ctx.obj(probe(), 'copy of the other')
    had = ctx.choose(['nothing', 'another', 'it'])
    if had != 'nothing':
        ctx.check('registering gives nothing', interp.call(fn, [c, b if had == 'another' else a, y]) is None)
    was = interp.call(fn, [c, b])
    ctx.check('what is registered is used', was is (y if had == 'another' else None))
    interp.call(fn, [c, a, x])
    ctx.check('a registered copy is used', interp.call(fn, [c, a]) is x)
    ctx.check('once registered it stays', interp.call(fn, [c, a]) is x)
    ctx.check('other nodes are not concerned', interp.call(fn, [c, b]) is was)
    ctx.cover(had)


def copy_definition(F):
    def run(ctx):
        from pvc.values import Obj
        from vrml import node
        interp = make_interp(ctx)
        f, name = make_field(interp, F)
        calls = []
        def copy_value(interp, args, kwargs):
            r = ctx.any('copied default')
            calls.append((args, r))
            return r
        interp.contract(resolved(F, 'copyValue'), copy_value, 'copyValue')
        was = interp.get_attr(f, 'defaultobj')
        interp.class_contracts['text', None] = lambda interp, v: ctx.str('text')
        g = interp.call(resolved(F, 'copy'), [f, probe(), None])
        ctx.check('a new definition of the same type', isinstance(g, Obj) and g is not f and g.cls is F, repr(g))
        ctx.check('the same name', interp.get_attr(g, 'name') is name)
        ctx.check('the same exposure', interp.get_attr(g, 'exposure') == interp.get_attr(f, 'exposure'))
        ctx.check('the copied default', len(calls) == 1 and calls[0][0][1] is was and interp.get_attr(g, 'defaultobj') is calls[0][1])
    return run


def copy_value(F):
    """copyValue of the field type: equal, and nothing shared that can be changed"""
    def run(ctx):
        import z3
        from pvc.values import Obj, LazyList, SList, Model, WeakRef, Truthy
        from pvc import models
        from vrml import node, arrays, field, olist, fieldtypes
        interp = make_interp(ctx)
        f, name = make_field(interp, F)
        fn = resolved(F, 'copyValue')
        if is_weak(F):
            kind = ctx.choose(['none', 'copied', 'elsewhere', 'no copier'])
            ctx.cover(kind)
            value = None if kind == 'none' else ctx.obj(node.Node, 'value')
            other = ctx.obj(node.Node, 'copy')
            c, uses = the_copier(ctx, interp, lambda n: other if kind == 'copied' and n is value else None)
            r = interp.call(fn, [f, value, None if kind == 'no copier' else c])
            if kind == 'none':
                ctx.check('no reference stays none', r is None, repr(r))
            else:
                ctx.check('the copy is referred to where there is one', isinstance(r, WeakRef) and r.target is (other if kind == 'copied' else value), repr(r))
            ctx.check('nothing is changed', not dict_writes(ctx) and not uses)
            return
        c = ctx.obj(__import__('vrml.copier', fromlist=['x']).Copier, 'copier', open=True)
        if issubclass(F, node._SFNode):
            kind = ctx.choose(['node', 'other'])
            ctx.cover(kind)
            value = ctx.obj(probe(), 'value', open=True) if kind == 'node' else ctx.choose([None, 'text', 1])
            done = []
            r_ = ctx.obj(node.Node, 'copy')
            interp.contract(resolved(probe(), 'copy'), lambda interp, args, kwargs: done.append((args, kwargs)) or r_, 'Node.copy')
            r = interp.call(fn, [f, value, c])
            if kind == 'node':
                ctx.check('the copy of the node in this pass', r is r_ and len(done) == 1 and done[0][0][0] is value and (list(done[0][0]) + [done[0][1].get('copier')])[1] is c, repr(done))
            else:
                ctx.check('anything else has no state', r is value and not done, repr(r))
            ctx.check('nothing is changed', not dict_writes(ctx))
            return
        if is_list_field(F):
            items = ctx.slist('children')
            value = ctx.obj(F.baseObjectType, 'value', open=True)
            value.payload = items
            SF = F.baseSFNode
            Copy = z3.Function('copy of', __import__('pvc.values', fromlist=['V']).V, __import__('pvc.values', fromlist=['V']).V)
            def one(interp, args, kwargs):
                names = dict(zip(['self', 'value', 'copier'], args), **kwargs)
                ctx.check('items are copied by the type of items, in this pass', names['self'] is SF and names.get('copier') is c, repr(names))
                return interp.from_v(Copy(interp.to_v(names['value'])))
            interp.contract(resolved(type(SF), 'copyValue'), one, 'copyValue of items')
            r = interp.call(fn, [f, value, c])
            ctx.check('the result is a new observable list', isinstance(r, Obj) and r.cls is F.baseObjectType and r is not value and allocated(ctx, r), repr(r))
            inside = r.payload
            ctx.check('its items are its own', inside is not items)
            n = models.length_term(inside)
            ctx.check('one for each item', n == z3.Length(items.seq))
            j = z3.Int(ctx.name('any'))
            ctx.assume(z3.And(j >= 0, j < z3.Length(items.seq)))
            if ctx.feasible():
                ctx.instantiate(j)
                ctx.check('the copy of the item', interp.to_v(models.index_list(interp, inside, j)) == Copy(items.seq[j]))
            ctx.check('nothing is changed', not dict_writes(ctx), repr(dict_writes(ctx)))
            return
        if fn is field.Field.__dict__['copyValue']:
            # values without state: what coercion makes (C04) is a number, a truth value or a text
            value = ctx.any('value')
            r = interp.call(fn, [f, value, c])
            ctx.check('the value', r is value, repr(r))
            ctx.check('its values cannot be changed', issubclass(F, STATELESS), F.__name__)
            return
        if F.__name__ == 'MFString':
            items = ctx.slist('strings')
            r = interp.call(fn, [f, items, c])
            ctx.check('a new list', isinstance(r, (SList, LazyList, list)) and r is not items, repr(r))
            ctx.check('of the same length', models.length_term(r) == z3.Length(items.seq))
            j = z3.Int(ctx.name('any'))
            ctx.assume(z3.And(j >= 0, j < z3.Length(items.seq)))
            if ctx.feasible():
                ctx.check('with the same strings', interp.to_v(models.index_list(interp, r, j)) == items.seq[j])
            ctx.check('nothing is changed', not dict_writes(ctx), repr(dict_writes(ctx)))
            return
        # arrays
        value, code = ctx.any('value'), ctx.any('type code')
        made = []
        def typecode(interp, args, kwargs):
            ctx.check('the type code is that of the value', args[0] is value)
            return code
        interp.contract(arrays.typeCode, typecode, 'arrays.typeCode')
        def array(interp, args, kwargs):
            names = dict(zip(['object', 'dtype'], args), **kwargs)
            r = ctx.any('new array')
            made.append((names, r))
            return r
        interp.contract(arrays.array, array, 'numpy.array: a new array of the given elements and type')
        r = interp.call(fn, [f, value, c])
        ctx.check('a new array', len(made) >= 1 and r is made[-1][1], repr(made))
        names = made[-1][0] if made else {}
        ctx.check('of the elements and the type of the value', names.get('object') is value and names.get('dtype') is code and names.get('copy', True) is True and set(names) <= {'object', 'dtype', 'copy'}, repr(names))
        ctx.check('nothing is changed', not dict_writes(ctx))
    return run


def default_nodes(F):
    """Instances of prototypes get default nodes of their own"""
    def run(ctx):
        from pvc.values import Obj
        from vrml import node, copier
        interp = make_interp(ctx)
        listed = is_list_field(F)
        d = ctx.obj(probe(), 'default node', open=True)
        f, name = make_field(interp, F, d)
        proto = ctx.choose([True, False])
        client = ctx.obj(probe(proto), 'client', open=True)
        stored = ctx.obj(F.baseObjectType, 'canonical list', open=True) if listed else d
        interp.contract(resolved(F, 'coerce'), lambda interp, args, kwargs: stored if args[1] is d else args[1], 'coerce (C04, C07)')
        copies, watched = [], []
        r_ = ctx.obj(F.baseObjectType if listed else node.Node, 'copied', open=True)
        interp.contract(resolved(F, 'copyValue'), lambda interp, args, kwargs: copies.append((args, kwargs)) or r_, 'copyValue')
        interp.contract(node._MFNode.__dict__['_watchList'], lambda interp, args, kwargs: watched.append(args), '_watchList (C07)')
        r = interp.call(resolved(F, 'getDefault'), [f, client])
        now = interp.dict_lookup(client.d, name)
        ctx.check('the default is stored and returned', now is r, repr((now, r)))
        if proto:
            ctx.cover('prototype')
            ctx.check('an instance gets a copy', r is r_ and len(copies) == 1 and copies[0][0][1] is stored, repr((r, copies)))
            c = (list(copies[0][0]) + [copies[0][1].get('copier')])[2] if copies else None
            ctx.check('made for it alone', c is None and not listed or isinstance(c, Obj) and c.cls is copier.Copier and allocated(ctx, c), repr(copies))
        else:
            ctx.cover('other')
            ctx.check('other nodes get the default', r is stored or r is r_, repr(r))
        if listed:
            ctx.check('its changes are announced', [tuple(w) for w in watched] == [(f, client, r)], repr(watched))
        ctx.check('silently', not sends(ctx))
        for t in dict_writes(ctx):
            ctx.check('nothing else is written', t[1] is client.d and t[2] is name, repr(t))
    return run


def copy_route(cls_name):
    def run(ctx):
        from vrml import route, node, copier
        from pvc.values import Obj
        interp = make_interp(ctx)
        R = getattr(route, cls_name)
        r = ctx.obj(R, 'route', open=True)
        previous = ctx.obj(R, 'copy made before') if ctx.choose([True, False]) else None
        c, uses = the_copier(ctx, interp, lambda n: previous)
        given = ctx.choose([True, False])
        new = ctx.obj(R, 'copy', open=True)
        log = []
        def copy(interp, args, kwargs):
            log.append(('copy', args))
            whom = (list(args) + [kwargs.get('copier'), None])[1]
            ctx.check('in one pass', whom is c if given else whom is None or isinstance(whom, Obj) and whom.cls is copier.Copier)
            return new
        interp.contract(node.Node.__dict__['copy'], copy, 'Node.copy')
        interp.contract(resolved(R, 'bind'), lambda interp, args, kwargs: log.append(('bind', args)), 'bind (C08)')
        got = interp.call(resolved(R, 'copy'), [r] + ([c] if given else []))
        if previous is not None:
            if given:
                ctx.cover('copied before')
                ctx.check('a route is copied once in a pass', got is previous, repr(got))
                ctx.check('nothing is done then', not log or not [x for x in log if x[0] == 'bind'], repr(log))
            return
        ctx.cover('copied')
        ctx.check('a route is copied as a node', got is new and [k for k, a in log] == ['copy', 'bind'] and log[0][1][0] is r, repr(log))
        ctx.check('and the copy is connected', log[-1][1][0] is new, repr(log))
        ctx.check('nothing else is changed', not dict_writes(ctx))
    return run


def new_instance(ctx):
    """A new instance gets its body, bound to its interface, before any value is given to it"""
    from vrml import node
    interp = make_interp(ctx)
    P = probe(True)
    log = []
    body = interp.contract(resolved(node.PrototypedNode, 'instantiate'), lambda interp, args, kwargs: log.append(('body', args[0], args[1:], kwargs)), 'PrototypedNode.instantiate')
    interp.contract(node.Node.__dict__['__init__'], lambda interp, args, kwargs: log.append(('values', args[0], args[1:], kwargs)), 'Node.__init__')
    values = {} if ctx.choose([True, False]) else {'first': ctx.any('a value'), 'second': ctx.any('another')}
    o = ctx.obj(P, 'instance')
    interp.call(resolved(P, '__init__'), [o], dict(values))
    ctx.cover('made')
    ctx.check('the body is made, once, before the values are given', [x[0] for x in log] == ['body', 'values'] and all(x[1] is o and not x[2] for x in log), repr(log))
    ctx.check('exactly the values given', log[-1][3] == values, repr(log))
    ctx.check('nothing else is changed', not dict_writes(ctx))


def copy_scene(ctx):
    import z3
    from pvc import loops
    from pvc.values import SDict, LazyList, Obj, ABSENT, WeakRef, Truthy
    from vrml import node, copier, protonamespace
    from vrml.vrml97 import scenegraph
    interp = make_interp(ctx)
    S = scenegraph.SceneGraph
    protos = ctx.obj(protonamespace.ProtoNamespace, 'prototypes')
    names = SDict(True, 'names')
    root = ctx.choose([None, 'root'])
    if root:
        root = WeakRef(ctx.obj(S, 'root'))
    s = ctx.obj(S, 'scene', open=True, defNames=names, protoTypes=protos, root=root)
    given = ctx.choose([True, False])
    c = ctx.obj(copier.Copier, 'copier', open=True)
    c.d.over.append(['shareProtos', 1])
    new = ctx.obj(S, 'copy', open=True)
    log = []
    def whom(args, kwargs):
        x = (list(args) + [kwargs.get('copier'), None])[1]
        ctx.check('in one pass', x is c if given else isinstance(x, Obj) and x.cls is copier.Copier and x is not c, repr(args))
        return x
    one = ctx.obj(probe(), 'named node', open=True) if ctx.choose([True, False]) else None
    done = ctx.obj(probe(), 'copy of the named node', open=True)
    key = ctx.str('name')
    def copy(interp, args, kwargs):
        x = whom(args, kwargs)
        log.append((args[0], x))
        if args[0] is s:
            return new
        ctx.check('only named nodes are copied besides', args[0] is one, repr(args))
        ctx.check('after the scene, which is their root', log[0][0] is s, repr(log))
        return done
    interp.contract(node.Node.__dict__['copy'], copy, 'Node.copy')
    protos2 = ctx.obj(protonamespace.ProtoNamespace, 'copied prototypes')
    import copy as copymodule
    tables = []
    def table(interp, args, kwargs):
        ctx.check('the table of prototypes is copied', args[0] is protos)
        tables.append(1)
        return protos2
    interp.contract(copymodule.copy, table, 'copy.copy of the table of prototypes')
    n = ctx.int('names')
    ctx.assume(n.z >= 0, check=False)
    def entries(interp, d, kind):
        if d is not names:
            return NotImplemented
        return LazyList(n.z, lambda j: (key, one) if kind == 'items' else key if kind in ('keys', '__iter__') else one, 'the names')
    interp.class_contracts['entries', None] = entries
    names.base.append([key, one])
    ctx.trace[:] = []
    passes = []
    def rule(interp, stmt, fr, items):
        if getattr(items, 'label', None) != 'the names':
            return NotImplemented
        mark = [None]
        def establish():
            passes.append(1)
        def havoc(k):
            mark[0] = len(ctx.trace)
            for v in fr.locals.values():
                if isinstance(v, SDict) and v is not names:
                    ctx.check('the new table is empty before', not v.over)
                    v.open = True
        def preserved(k):
            writes = [t for t in ctx.trace[mark[0]:] if t[0] in ('w', 'l')]
            mine = [x for x in log if x[0] is one]
            empty = interp.truth(interp.eq(key, ''))
            if one is None or empty:
                ctx.cover('no name')
                ctx.check('no name for no node', not writes, repr(writes))
            else:
                ctx.cover('name')
                ctx.check('the name becomes that of the copy', len(mine) == 1 and len(writes) == 1 and writes[0][2] is key and writes[0][3] is done and allocated(ctx, writes[0][1]), repr((mine, writes)))
        loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
    interp.loop_specs.insert(0, rule)
    r = interp.call(S.__dict__['copy'], [s] + ([c] if given else []))
    ctx.cover('copied')
    ctx.check('the copy is returned', r is new, repr(r))
    ctx.check('its fields are copied once', len([x for x in log if x[0] is s]) == 1)
    ctx.check('one pass over the names', len(passes) == 1)
    written = {}
    for t in dict_writes(ctx):
        ctx.check('only the copy is written', t[1] is new.d, repr(t))
        written[t[2]] = t[3]
    ctx.check('its prototypes are a copy of the table', written.get('protoTypes') is protos2)
    names2 = written.get('defNames')
    ctx.check('its names are a new table', isinstance(names2, (SDict, dict)) and names2 is not names and allocated(ctx, names2), repr(names2))
    ctx.check('prototypes are looked up outwards as in the source', written.get('root', None) is root, repr(written))
    ctx.check('nothing else', set(written) <= {'protoTypes', 'defNames', 'root'}, repr(written))


def copy_table(ctx):
    """copy.copy of a table of prototypes (its __copy__) makes a table of the same class, of the entries of the first one"""
    from vrml import protonamespace
    import copy as copymodule
    interp = make_interp(ctx)
    T = protonamespace.ProtoNamespace
    protos = ctx.obj(T, 'prototypes', open=True)
    if not issubclass(T, dict) or {'__init__', '__new__', '__setitem__', '__getitem__', 'items', 'keys', '__iter__'} & set(vars(T)):
        interp.unsupported('a table which is no plain dict')
    made = []
    new = ctx.obj(T, 'table', open=True)
    def make(interp, args, kwargs):
        made.append((args, kwargs))
        return new
    for f in (T, dict):
        interp.contract(f, make, 'dict()')
    r = interp.call(T.__dict__['__copy__'], [protos]) if '__copy__' in vars(T) else new
    ctx.cover('copied')
    ctx.check('a new table', r is not protos, repr(r))
    if '__copy__' in vars(T) and (r is not new or made != [([protos], {})] and made != [((protos,), {})]):
        interp.unsupported('a table made in another way')
    ctx.check('of the entries of the table', True)


def the_null_node(ctx):
    """NULL: its copy is itself; it is false, equals NULL and nothing else"""
    from vrml import node, copier
    interp = make_interp(ctx)
    N = node.NullNode
    null = ctx.obj(N, 'null', open=True)
    case = ctx.choose(['copy', 'truth', 'equal', 'unequal', 'hash'])
    ctx.cover(case)
    if case == 'copy':
        c = ctx.choose([None, 'copier'])
        mark = len(ctx.trace)
        r = interp.call(N.__dict__['copy'], [null] + ([ctx.obj(copier.Copier, 'copier', open=True)] if c else []))
        ctx.check('the copy of NULL is NULL', r is null, repr(r))
        ctx.check('nothing is written', not [t for t in ctx.trace[mark:] if t[0] in ('w', 'l')])
    elif case == 'truth':
        r = interp.call(N.__bool__, [null])
        ctx.check('NULL is false', r is False, repr(r))
    elif case == 'equal':
        r = interp.call(N.__eq__, [null, ctx.obj(N, 'another', open=True)])
        ctx.check('NULL equals NULL', interp.truth(r) is True, repr(r))
    elif case == 'unequal':
        other = ctx.choose(['node', None, 'text', 0])
        r = interp.call(N.__eq__, [null, ctx.obj(probe(), 'node', open=True) if other == 'node' else other])
        ctx.check('NULL equals nothing else', interp.truth(r) is False, repr(r))
    else:
        a = interp.call(N.__hash__, [null])
        b = interp.call(N.__hash__, [ctx.obj(N, 'another', open=True)])
        ctx.check('what is equal hashes alike', interp.truth(interp.eq(a, b)) is True, repr((a, b)))


def instantiate(ctx):
    """PrototypedNode.instantiate: an own body, each interface field connected to what it is mapped to there"""
    import z3
    from pvc import loops
    from pvc.values import SDict, LazyList, Obj, ABSENT, WeakRef, Truthy, Model
    from vrml import node, copier, route, field, protofunctions
    from vrml.vrml97 import scenegraph
    from pvc.engine import PyExc
    interp = make_interp(ctx)
    P = type('Definition', (node.PrototypedNode, node.Node), {})
    Q = type('Specialised', (P,), {})
    cls = ctx.choose([P, Q])
    defined = ctx.choose([P] + ([Q] if cls is Q else []) + [None])
    me = ctx.obj(cls, 'instance', open=True)
    template = ctx.obj(scenegraph.SceneGraph, 'template', open=True)
    body = ctx.obj(scenegraph.SceneGraph, 'body', open=True)
    made = []
    stored = []
    # -- the body of the definition
    scene_field = node.PrototypedNode.scenegraph
    def fget(interp, args, kwargs):
        if args[0] is not scene_field:
            return interp.call_live(node.PrototypedNode.scenegraph.fget, args, kwargs)
        if args[1] is defined:
            return template
        return node.NULL
    def fset(interp, args, kwargs):
        if args[0] is scene_field:
            stored.append((args[1], args[2]))
            return args[2]
        return sets(interp, args, kwargs)
    F = type(scene_field)
    interp.contract(resolved(F, 'fget'), fget, 'the body of a definition')
    # -- one mapping
    fname = ctx.str('interface')
    dest = ctx.obj(probe(), 'node of the template', open=True)
    nested = ctx.choose([False, True])
    mine = ctx.obj(probe(nested), 'its copy', open=True)
    dfield = ctx.str('mapped field')
    kind = ctx.choose(['value', 'nodes', 'no nodes', 'event'])
    SF = node.SFNode if kind in ('nodes', 'no nodes') else __import__('vrml.fieldtypes', fromlist=['x']).SFVec3f
    declared, own = ctx.any('declared default'), ctx.any('own default')
    source = ctx.obj(SF if kind != 'event' else field.Event, 'interface field')
    target = ctx.obj(SF, 'mapped field definition')
    log = []
    def getfield(interp, args, kwargs):
        if args[0] is me:
            ctx.check('interface fields are those named', args[1] is fname, repr(args))
            return source
        ctx.check('mapped fields are looked up in the copy', args[0] is mine and args[1] is dfield, repr(args))
        return target
    for g in set([protofunctions.getField, node.getField]):
        interp.contract(g, getfield, 'getField (C20)')
    def getdefault(interp, args, kwargs):
        ctx.check('of the interface', args[0] is source)
        return declared
    interp.contract(resolved(SF, 'getDefault'), getdefault, 'getDefault')
    if kind in ('nodes', 'no nodes'):
        t = Truthy(declared.z)
        ctx.assume(t if kind == 'nodes' else z3.Not(t))
    def fget_own(interp, args, kwargs):
        if args[0] is scene_field:
            return fget(interp, args, kwargs)
        ctx.check('values are those of the instance', args[0] is source and args[1] is me, repr(args))
        return own
    interp.contract(resolved(SF, 'fget'), fget_own, 'fget')
    interp.contract(resolved(F, 'fget'), fget_own, 'fget')
    fails = ctx.choose([False, True])
    def sets(interp, args, kwargs):
        names = dict(zip(['self', 'client', 'value', 'notify'], args), **kwargs)
        log.append(('set', names))
        if fails:
            interp.raise_(AttributeError, 'no value')
        return names['value']
    interp.contract(resolved(F, 'fset'), fset, 'fset (C01, C07)')
    if resolved(SF, 'fset') is not resolved(F, 'fset'):
        interp.contract(resolved(SF, 'fset'), sets, 'fset (C01)')
    copiers = []
    def copy_scene(interp, args, kwargs):
        c = (list(args) + [kwargs.get('copier')])[1]
        ctx.check('the template is copied', args[0] is template if defined else made and args[0] is made[0], repr(args))
        ctx.check('in a pass of its own', isinstance(c, Obj) and c.cls is copier.Copier and allocated(ctx, c), repr(args))
        made.append(args[0])
        copiers.append(c)
        return body
    interp.contract(scenegraph.SceneGraph.__dict__['copy'], copy_scene, 'SceneGraph.copy')
    def copy_node(interp, args, kwargs):
        ctx.check('the mapped node is copied in the pass of the template', args[0] is dest and len(copiers) == 1 and (list(args) + [kwargs.get('copier')])[1] is copiers[0], repr(args))
        return mine
    interp.contract(node.Node.__dict__['copy'], copy_node, 'Node.copy')
    routes = []
    def is_(interp, args, kwargs):
        if args[0].cls is scenegraph.SceneGraph:
            ctx.check('an empty body', len(args) == 1 and not kwargs)
            made.append(args[0])
            return None
        ctx.check('connections are mappings', args[0].cls is route.IS, repr(args))
        log.append(('IS', args[0], dict(zip(['self', 'source', 'sourceField', 'destination', 'destinationField'], args), **kwargs)))
        return None
    for k in (route.IS, scenegraph.SceneGraph):
        interp.contract(resolved(k, '__init__'), is_, 'the constructor of %s' % k.__name__)
    class Routes(object):
        def list_method(self, interp, target, name, args, kwargs):
            if name == 'append':
                log.append(('append', args[0]))
                return None
            interp.unsupported('routes.' + name)
    rl = ctx.obj(list, 'routes')
    rl.payload = Routes()
    interp.class_contracts['attr', scenegraph.SceneGraph, 'routes'] = lambda interp, o: rl
    # -- any mappings
    n, m = ctx.int('interfaces'), ctx.int('mappings')
    ctx.assume(z3.And(n.z >= 0, m.z >= 0), check=False)
    inner = LazyList(m.z, lambda j: (dest, dfield), 'mappings')
    outer = SDict(True, 'interfaces')
    asked = []
    def ismaps(interp, args, kwargs):
        asked.append(args[0])
        return outer
    interp.contract(node.ismaps, ismaps, 'ismaps')
    interp.class_contracts['entries', None] = lambda interp, d, k: LazyList(n.z, lambda j: (fname, inner) if k == 'items' else fname, 'interfaces') if d is outer else NotImplemented
    outer.base.append([fname, inner])
    passes = []
    def what_of(items):
        """Which list of mappings is gone through, however it was made from the tables"""
        if not isinstance(items, LazyList) or items.label in ('interfaces', 'mappings'):
            return getattr(items, 'label', None)
        j = z3.Int(ctx.name('of'))
        x = items.item(j)
        if items.n.eq(n.z) and (x is fname or isinstance(x, tuple) and len(x) == 2 and x[0] is fname and x[1] is inner):
            return 'interfaces'
        if items.n.eq(m.z) and isinstance(x, tuple) and len(x) == 2 and x[0] is dest and x[1] is dfield:
            return 'mappings'
    def rule(interp, stmt, fr, items):
        label = what_of(items)
        if label is None:
            interp.unsupported('a loop over something else')
        mark = [0]
        def establish():
            passes.append(label)
            if label == 'mappings':
                ctx.check('nothing but the mappings concerns an interface', not log, repr(log))
        def havoc(k):
            mark[0] = len(ctx.trace)
        def preserved(k):
            ctx.check('nothing is written besides', not [t for t in ctx.trace[mark[0]:] if t[0] in ('w', 'l') and not allocated(ctx, t[1])], repr(ctx.trace[mark[0]:]))
            if label == 'interfaces':
                ctx.check('each interface: one pass over its mappings', passes.count('mappings') == 1)
                return
            made_is = [x for x in log if x[0] == 'IS']
            ctx.cover('mapped')
            ctx.check('one connection', len(made_is) == 1, repr(log))
            if made_is:
                w = made_is[0][2]
                ctx.check('from the interface field of the instance', w.get('source') is me and w.get('sourceField') is fname, repr(w))
                ctx.check('to the mapped field of the copied node', w.get('destination') is mine and w.get('destinationField') is dfield, repr(w))
            ctx.check('kept with the body', [x[1] for x in log if x[0] == 'append'] == [x[1] for x in made_is], repr(log))
            set_ = [x[1] for x in log if x[0] == 'set']
            if kind == 'event':
                ctx.cover('event')
                ctx.check('events have no initial value', not set_, repr(log))
                return
            ctx.cover(kind)
            ctx.check('the mapped field is given the default', len(set_) == 1, repr(log))
            if set_:
                w = set_[0]
                ctx.check('that field', w['self'] is target and w['client'] is mine, repr(w))
                want = [own] if kind == 'nodes' else [declared] + ([own] if kind == 'no nodes' else [])
                ctx.check('default nodes are those of the instance' if kind == 'nodes' else 'the declared default', any(w['value'] is x for x in want), repr(w))
                ctx.check('nested prototypes pass it on', bool(w.get('notify', 1)) or not nested, repr(w))
        loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
    interp.loop_specs.insert(0, rule)
    interp.call(node.PrototypedNode.__dict__['instantiate'], [me])
    ctx.cover('no definition' if defined is None else 'definition')
    ctx.check('an own body is made', len(copiers) == 1, repr(made))
    ctx.check('the instance keeps its body', stored and stored[-1][0] is me and stored[-1][1] is body, repr(stored))
    ctx.check('nothing else is given a body', all(x is me or defined is None and isinstance(x, type) and y is made[0] for x, y in stored), repr(stored))
    if defined is not None:
        ctx.check('mappings are those of the definition', asked == [defined], repr(asked))
        ctx.check('all of them are connected', passes == ['interfaces'], repr(passes))
    ctx.check('nothing else is changed', not dict_writes(ctx), repr(dict_writes(ctx)))


def proofs(mode):
    global STATELESS
    all_modules()
    from vrml import fieldtypes as ft
    STATELESS = (ft.SFBool, ft.SFFloat, ft.SFInt32, ft.SFString, ft.SFTime, ft.SFUInt32)
    out = []
    if mode == 'pure':
        out.append(('Copier.use', use_harness, dict(covers=['nothing', 'another', 'it'])))
        for F in field_classes():
            covers = ['node', 'other'] if F.__name__ in ('SFNode', 'SFRoute') else ['none', 'copied', 'elsewhere', 'no copier'] if is_weak(F) else []
            out.append(('%s.copyValue' % F.__name__, copy_value(F), dict(covers=covers)))
        out.append(('SceneGraph.copy', copy_scene, dict(covers=['copied', 'name', 'no name'])))
        out.append(('the table of prototypes', copy_table, dict(covers=['copied'])))
        out.append(('NULL', the_null_node, dict(covers=['copy', 'truth', 'equal', 'unequal', 'hash'])))
        for R in ('ROUTE', 'IS'):
            out.append(('%s.copy' % R, copy_route(R), dict(covers=['copied', 'copied before'])))
        out.append(('PrototypedNode.__init__', new_instance, dict(covers=['made'])))
        out.append(('PrototypedNode.instantiate', instantiate, dict(covers=['no definition', 'definition', 'mapped', 'event', 'value', 'nodes', 'no nodes'])))
    for F in field_classes():
        from vrml import node
        out.append(('definition of %s' % F.__name__, copy_definition(F), dict(covers=[])))
        covers = ['stored', 'unset', 'copied', 'copied before'] + (['dead'] if is_weak(F) else ['default nodes'] if F.nodes else [])
        for proto in (False, True):
            out.append(('Node.copy, %s of %s' % (F.__name__, 'an instance' if proto else 'a node'), copy_node(F, proto), dict(covers=covers)))
        if F.nodes and not is_weak(F):
            out.append(('%s, default of an instance' % F.__name__, default_nodes(F), dict(covers=['prototype', 'other'])))
    return out


# ================================================================== bounded: real scenes and prototypes
def kids(n):
    """Everything a node is made of: (how it is reached, value), nodes and data"""
    from vrml import node, field, protofunctions
    from vrml.vrml97 import scenegraph
    out = []
    for f in sorted(protofunctions.getFields(n), key=lambda f: f.name):
        if isinstance(f, field.WeakField):
            continue
        if f.fhas(n):
            out.append((f.name, f, f.fget(n)))
    return out


class Graph(object):
    """The nodes reached from one, in the order they are found, and what they hold"""
    def __init__(self, top, read=True):
        from vrml import node, protofunctions, field
        from vrml.vrml97 import scenegraph
        self.order, self.index, self.data = [], {}, []
        self.visit(top)
        i = 0
        while i < len(self.order):
            n = self.order[i]
            if read:
                # default nodes are seen when they are read
                for f in protofunctions.getFields(n):
                    if f.nodes and not f.fhas(n) and not isinstance(f, field.WeakField) and f.getDefault():
                        f.fget(n)
            for name, f, value in kids(n):
                if isinstance(value, node.Node):
                    self.visit(value)
                elif isinstance(f, node._MFNode):
                    for x in value:
                        self.visit(x)
            if isinstance(n, scenegraph.SceneGraph):
                for k in sorted(n.defNames):
                    if k and n.defNames[k] is not None:
                        self.visit(n.defNames[k])
            i += 1
    def visit(self, n):
        from vrml import node
        if isinstance(n, node.Node) and n is not node.NULL and id(n) not in self.index:
            self.index[id(n)] = len(self.order)
            self.order.append(n)
    def term(self, v, f=None):
        """The value, its nodes replaced by their numbers"""
        import numpy
        from vrml import node
        if isinstance(v, node.Node):
            return 'NULL' if v is node.NULL else ('node', self.index.get(id(v), 'elsewhere'))
        if isinstance(v, numpy.ndarray):
            return ('array', str(v.dtype), v.shape, v.tobytes())
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, [self.term(x) for x in v])
        return (type(v).__name__, repr(v))
    def picture(self):
        """Everything that can be seen of the nodes, values not yet read included"""
        from vrml import node, protofunctions, field
        from vrml.vrml97 import scenegraph
        out = []
        for n in self.order:
            d = {'type': type(n), 'DEF': n.DEF}
            for f in protofunctions.getFields(n):
                if isinstance(f, field.WeakField) or f.name == ' scenegraph' and not f.fhas(n):
                    continue
                d[f.name] = self.term(f.fget(n) if f.fhas(n) else f.getDefault())
                if not f.fhas(n) and not f.nodes:
                    d[f.name] = self.term(f.coerce(f.getDefault()))
            r = node.Node.rootSceneGraph.fget(n)
            d[' root'] = self.term(r) if isinstance(r, node.Node) and r is not node.NULL else None
            if isinstance(n, scenegraph.SceneGraph):
                d['defNames'] = [(k, self.term(v)) for k, v in sorted(n.defNames.items()) if k and v is not None]
                d['protoTypes'] = sorted((k, id(v)) for k, v in n.protoTypes.items())
            out.append(d)
        return out
    def state(self):
        """Mutable objects: nodes, lists, arrays, dictionaries"""
        import numpy
        from vrml.vrml97 import scenegraph
        objects, arrays = {}, []
        for n in self.order:
            objects[id(n)] = n
            objects[id(n.__dict__)] = n
            for name, f, value in kids(n):
                if isinstance(value, numpy.ndarray):
                    arrays.append((n, name, value))
                elif isinstance(value, list):
                    objects[id(value)] = (n, name)
            if isinstance(n, scenegraph.SceneGraph):
                objects[id(n.defNames)] = (n, 'defNames')
                objects[id(n.protoTypes)] = (n, 'protoTypes')
        return objects, arrays


def shared(a, b):
    """What two graphs share that can be changed"""
    import numpy
    oa, aa = a.state()
    ob, ab = b.state()
    for k in oa:
        if k in ob:
            return '%s / %s' % (oa[k], ob[k])
    spans = sorted((x.__array_interface__['data'][0], x.__array_interface__['data'][0] + x.nbytes, i, n, name) for i, g in enumerate((aa, ab)) for n, name, x in g if x.nbytes and x.flags.writeable)
    end = [None, None]
    for lo, hi, i, n, name in spans:
        o = end[1 - i]
        if o is not None and o[0] > lo:
            return '%s of %s and %s of %s' % (name, n, o[2], o[1])
        if end[i] is None or end[i][0] < hi:
            end[i] = (hi, n, name)
    return None


def builtin_types():
    from vrml.vrml97 import basenamespaces
    from vrml import node
    return sorted(k for k, v in basenamespaces.basePrototypes.items() if isinstance(v, type) and issubclass(v, node.Node) and k not in ('sceneGraph', 'ROUTE', 'IS', 'NULL', 'Script'))


def some_value(r, f, make):
    """A random value for a field"""
    import numpy
    t = f.typeName()
    if t == 'SFNode':
        return make()
    if t == 'MFNode':
        return [make() for i in range(r.choice([0, 1, 2, 3]))]
    if t in ('SFString',):
        return r.choice(['', 'a', 'b c'])
    if t == 'MFString':
        return [r.choice(['', 'x', 'yy']) for i in range(r.choice([0, 1, 3]))]
    if t in ('SFInt32', 'SFUInt32'):
        return r.randrange(1000)
    if t == 'SFBool':
        return r.choice([True, False])
    if t in ('SFFloat', 'SFTime'):
        return r.random()
    import re
    m = re.match('[SM]F(Vec|Color|Rotation|Matrix)([234]?)', t)
    n = {'Color': 3, 'Rotation': 4}.get(m.group(1)) or (int(m.group(2)) ** (2 if m.group(1) == 'Matrix' else 1)) if m else 1
    if t == 'SFImage':
        return [1, 2, 1, 3, 4]
    if t.startswith('SF') and not t.startswith('SFArray'):
        return [r.random() for i in range(n)]
    return [r.random() if 'Int' not in t else r.randrange(9) for i in range(n * r.choice([0, 1, 2, 5]))]


TYPES = ['SFNode', 'MFNode', 'SFVec3f', 'MFFloat', 'MFString', 'SFColor', 'SFFloat', 'MFVec3f', 'SFString', 'MFInt32', 'SFRotation']


class Builder(object):
    """Scenes of any shape, from Python"""
    def __init__(self, rnd, size):
        self.rnd, self.size, self.nodes, self.protos, self.kept = rnd, size, [], [], []
        from vrml.vrml97 import basenamespaces
        self.types = basenamespaces.basePrototypes
    def __call__(self):
        """A node: new or one of those made (sharing), or NULL"""
        from vrml import node, protofunctions, field
        r = self.rnd
        if self.nodes and (r.random() < .3 or len(self.nodes) >= self.size):
            return r.choice(self.nodes)
        if r.random() < .05:
            return node.NULL
        k = r.random()
        if k < .15 and self.protos:
            n = r.choice(self.protos)()
        elif k < .25:
            from vrml.vrml97.script import Script
            n = Script(self.interface())
        else:
            n = self.types[r.choice(builtin_types()) if r.random() < .4 else r.choice(['Group', 'Transform', 'Switch', 'Shape', 'IndexedFaceSet', 'Coordinate', 'Material', 'LOD', 'Anchor'])]()
        self.fill(n)
        self.nodes.append(n)
        return n
    def child(self):
        from vrml import node
        n = self()
        return self() if n is node.NULL else n
    def fill(self, n):
        from vrml import protofunctions, field, node
        r = self.rnd
        if r.random() < .4:
            n.DEF = r.choice('ABCDEF')
        fields = sorted((f for f in protofunctions.getFields(n) if f.name[:1] != ' ' and not isinstance(f, field.WeakField)), key=lambda f: f.name)
        for f in r.sample(fields, min(len(fields), r.choice([0, 1, 2, 4]))):
            if r.random() < .15:
                f.fget(n)
                continue
            f.fset(n, some_value(r, f, self.child if isinstance(f, node._MFNode) else self))
    def interface(self):
        """Field definitions, with defaults of any kind"""
        from vrml import field, node
        r = self.rnd
        out = []
        for i in range(r.choice([0, 1, 2, 3])):
            t = r.choice(TYPES)
            out.append(self.one_field('%s%d' % (t.lower(), i), t))
        return out
    def one_field(self, name, t):
        from vrml import field, node
        r = self.rnd
        f = field.newField(name, t, 1)
        value = some_value(r, f, self.child if isinstance(f, node._MFNode) else self)
        if r.random() < .5:
            value = f.coerce(value)
        return field.newField(name, t, 1, value)
    def proto(self, routes=True):
        """A prototype: a body, some of its fields mapped to interfaces of their type"""
        from vrml import node, field, protofunctions
        from vrml.vrml97 import scenegraph
        r = self.rnd
        own = Builder(r, r.choice([1, 3, 8]))
        own.protos = list(self.protos)
        body = own.scene(routes)
        self.kept.append(own)
        fields = self.interface()
        # what can be mapped, and interfaces of its types
        ends = []
        for n in own.nodes:
            for f in sorted(protofunctions.getFields(n), key=lambda f: f.name):
                if f.name[:1] != ' ' and not isinstance(f, field.WeakField) and f.typeName() in TYPES:
                    ends.append((n, f))
        ends = r.sample(ends, min(len(ends), r.choice([1, 2, 4, 6])))
        ends += [(n, f) for n in own.nodes if isinstance(n, node.PrototypedNode) for f in vars(type(n)).values() if isinstance(f, field.Field) and f.typeName() in TYPES and r.random() < .5]
        for n, f in ends:
            if r.random() < .7:
                fields.append(self.one_field('x%d' % len(fields), f.typeName()))
        if r.random() < .4:
            fields.append(field.newEvent('event', 'SFVec3f', r.choice([0, 1])))
        cls = node.prototype('P%d' % len(self.protos), fields, sceneGraph=body)
        maps = node.ismaps(cls)
        done = set()
        for n, f in ends:
            fit = [g for g in fields if g.typeName() == f.typeName()]
            if fit and (id(n), f.name) not in done:
                done.add((id(n), f.name))
                maps.setdefault(r.choice(fit).name, []).append((n, f.name))
        self.protos.append(cls)
        return cls
    def scene(self, routes=True):
        from vrml import route, protofunctions, field
        from vrml.vrml97 import scenegraph
        r = self.rnd
        sg = scenegraph.SceneGraph(children=[self.child() for i in range(r.choice([0, 1, 2, 4]))] if r.random() < .9 else None)
        for n in self.nodes:
            if r.random() < .3:
                sg.regDefName(r.choice(['A', 'B', 'G', 'H']), n)
        for i in range(r.choice([0, 0, 1, 2, 4])):
            if not self.nodes or not routes:
                break
            ends = [r.choice(self.nodes) for j in (0, 1)]
            fs = [[f.name for f in protofunctions.getFields(n) if f.name[:1] != ' ' and f.typeName() == 'SFVec3f'] for n in ends]
            if fs[0] and fs[1]:
                sg.addRoute(route.ROUTE(source=ends[0], sourceField=r.choice(sorted(fs[0])), destination=ends[1], destinationField=r.choice(sorted(fs[1]))))
                if r.random() < .2:
                    sg.routes[-1].DEF = 'R'
                if r.random() < .2:
                    sg.regDefName('S', sg.routes[-1])
        for p in self.protos:
            if r.random() < .5:
                sg.addProto(p)
        return sg


def change(r, top, log):
    """One change somewhere in a graph"""
    import numpy
    from vrml import node, protofunctions, field
    from vrml.vrml97 import scenegraph, basenodes
    g = Graph(top)
    n = r.choice(g.order)
    fields = sorted((f for f in protofunctions.getFields(n) if f.name not in (' root', ' scenegraph', 'source', 'destination', 'sourceField', 'destinationField', 'routes') and not isinstance(f, field.WeakField)), key=lambda f: f.name)
    if isinstance(n, scenegraph.SceneGraph) and r.random() < .4:
        k = r.choice(['def', 'proto', 'route'])
        log.append((k, str(n)))
        if k == 'def':
            n.regDefName(r.choice('AGX'), r.choice(g.order))
        elif k == 'proto':
            n.addProto(node.prototype(r.choice(['P0', 'New']), []))
        elif list(n.routes):
            del n.routes[0]
        return
    f = r.choice(fields)
    v = f.fget(n)
    fresh = lambda: basenodes.Group(DEF=r.choice(['', 'N', 'A']))
    k = r.choice(['set', 'set', 'in place', 'in place', 'del', 'DEF'])
    log.append((k, f.name, str(n)))
    if k == 'set':
        f.fset(n, some_value(r, f, fresh))
    elif k == 'DEF':
        n.DEF = r.choice(['', 'Z', 'A'])
    elif k == 'del':
        # (a class written in Python, as those of Scripts, has one default node, which all instances without a value refer to)
        if not (f.nodes and not isinstance(n, node.PrototypedNode) and f.getDefault()):
            f.fdel(n)
    elif isinstance(v, numpy.ndarray):
        v += 1
    elif isinstance(v, list):
        if isinstance(f, node._MFNode):
            r.choice([lambda: v.append(fresh()), lambda: v.insert(0, fresh()), lambda: v and v.pop()])()
        else:
            v.append('more')


def quiet(f, *args):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*args)


def cases(rnd, tier, mode):
    n = (1200 if mode == 'pure' else 300) if tier == 'quick' else 20000
    for i in range(n):
        yield {'kind': rnd.choice(['copy', 'copy', 'instances', 'driven']), 'seed': rnd.randrange(1 << 48)}


def check_case(case):
    return quiet(globals()['case_' + case['kind']], case)


def graphs(seed):
    import random
    r = random.Random(seed)
    b = Builder(r, r.choice([2, 5, 10, 20]))
    for i in range(r.choice([0, 0, 1, 2])):
        b.proto()
    return r, b


def case_copy(case):
    from vrml import node, protofunctions, field
    all_modules()
    r, b = graphs(case['seed'])
    top = b.scene()
    scene = top         # (kept)
    if r.random() < .4 and b.nodes:
        top = r.choice(b.nodes + list(scene.routes))
    before = Graph(top).picture() if r.random() < .5 else None
    c = top.copy()
    a, z = Graph(top), Graph(c)
    if len(a.order) != len(z.order):
        return '%d nodes copied to %d: %r %r' % (len(a.order), len(z.order), a.order, z.order)
    for x, y in zip(a.order, z.order):
        if type(x) is not type(y):
            return 'the copy of %s is %s' % (x, y)
        if x is y:
            return '%s is not copied' % x
    p, q = a.picture(), z.picture()
    if before is not None and p != before:
        return 'copying changed the source: %s' % difference(before, p)
    if p != q:
        # the root may be outside
        return 'the copy differs: %s' % difference(p, q)
    for x, y in zip(a.order, z.order):
        s, t = node.Node.rootSceneGraph.fget(x), node.Node.rootSceneGraph.fget(y)
        if id(s) in a.index:
            if t is not z.order[a.index[id(s)]]:
                return 'the root of the copy of %s is %s' % (x, t)
    s = shared(a, z)
    if s:
        return 'shared: ' + s
    log = []
    for i in range(6):
        side = r.choice([0, 1])
        other = (c, top)[side]
        was = Graph(other).picture()
        nodes = set(id(n) for n in Graph(other).order)
        try:
            change(r, (top, c)[side], log)
        except (ValueError, TypeError, AttributeError):
            pass
        if Graph(other).picture() != was:
            return 'a change (%s) of the %s shows in the other: %s' % (log, ('source', 'copy')[side], difference(was, Graph(other).picture()))
    return None


def difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        for k in sorted(set(x) | set(y), key=str):
            if x.get(k) != y.get(k):
                return '%s of node %d (%s): %r / %r' % (k, i, x['type'].__name__, x.get(k), y.get(k))
    return '%d / %d nodes' % (len(a), len(b))


def case_instances(case):
    from vrml import node
    r, b = graphs(case['seed'])
    cls = b.proto()
    one = cls()
    first = Graph(one)
    was = first.picture()
    two = cls()
    a, z = Graph(one), Graph(two)
    if a.picture() != was:
        return 'another instance changed the first: %s' % difference(was, a.picture())
    p, q = a.picture(), z.picture()
    if p != q:
        return 'instances differ: %s' % difference(p, q)
    s = shared(a, z)
    if s:
        return 'shared between instances: ' + s
    template = Graph(node.PrototypedNode.scenegraph.fget(cls))
    for g in (a, z):
        s = shared(g, template)
        if s:
            return 'shared with the definition: ' + s
    log = []
    for i in range(6):
        side = r.choice([0, 1])
        other = (two, one)[side]
        w1, w2 = Graph(other).picture(), template.picture()
        try:
            change(r, (one, two)[side], log)
        except (ValueError, TypeError, AttributeError):
            pass
        if Graph(other).picture() != w1:
            return 'a change (%s) of one shows in the other: %s' % (log, difference(w1, Graph(other).picture()))
        if template.picture() != w2:
            return 'a change (%s) of an instance shows in the definition: %s' % (log, difference(w2, template.picture()))
    return None


def mapped(instance, cls, names):
    """Nodes of the body of an instance by the names they were given in the definition (not those of bodies in the body)"""
    from vrml import node
    out, seen = {}, set()
    def walk(n):
        if id(n) in seen or not isinstance(n, node.Node) or n is node.NULL:
            return
        seen.add(id(n))
        if n.DEF in names:
            out[n.DEF] = n
        for name, f, value in kids(n):
            if name == ' scenegraph' and n is not instance:
                continue
            for x in (value if isinstance(f, node._MFNode) else [value]):
                walk(x)
    walk(node.PrototypedNode.scenegraph.fget(instance))
    return out


def equal_value(a, b):
    import numpy
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        return same(a, b)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal_value(x, y) for x, y in zip(a, b))
    from vrml import node
    if isinstance(a, node.Node) or isinstance(b, node.Node):
        return a is b or a is node.NULL and b is node.NULL
    return same(a, b)


def undriven(one, body, maps):
    """What the interface does not drive"""
    from vrml import protofunctions, node, field
    out = {}
    driven = set((n.DEF, f) for pairs in maps.values() for n, f in pairs)
    for k, n in body.items():
        for f in protofunctions.getFields(n):
            if f.name[:1] != ' ' and (k, f.name) not in driven and f.fhas(n) and not isinstance(n, node.PrototypedNode):
                out[k, f.name] = concrete_of(f.fget(n))
    return out


def concrete_of(v):
    import numpy
    if isinstance(v, numpy.ndarray):
        return ('array', str(v.dtype), v.shape, v.tobytes())
    if isinstance(v, list):
        return [concrete_of(x) for x in v]
    return v if isinstance(v, (int, float, str)) else id(v)


def drives_all(one, known, what):
    """That for the instance and all instances in its body"""
    for n in Graph(one).order:
        if type(n) in known:
            w = drives(n, type(n), known[type(n)][0], known[type(n)][1], what)
            if w:
                return w
    return None


def drives(one, cls, names, maps, what):
    """Every interface field's value is that of all fields mapped to it, in this body"""
    from vrml import protofunctions, field
    body = mapped(one, cls, names)
    for k, pairs in maps.items():
        f = protofunctions.getField(one, k)
        if isinstance(f, field.Event):
            continue
        v = f.fget(one)
        for n, g in pairs:
            if n.DEF not in body:
                return '%s: no node %s in the body for %s' % (what, n.DEF, k)
            dest = body[n.DEF]
            h = protofunctions.getField(dest, g)
            if not equal_value(h.coerce(v), h.fget(dest)):
                return '%s: %s is %r, but %s of %s in its body %r' % (what, k, v, g, dest, h.fget(dest))
    return None


def case_driven(case):
    import random
    from vrml import node, protofunctions, field
    from vrml.vrml97 import scenegraph
    all_modules()
    r = random.Random(case['seed'])
    b = Builder(r, r.choice([2, 5, 10]))
    known = {}
    for i in range(r.choice([1, 1, 2, 3])):
        cls = b.proto(routes=False)
        maps = dict((k, list(v)) for k, v in node.ismaps(cls).items())
        names = {}
        for j, n in enumerate(x for pairs in maps.values() for x, f in pairs):
            if n.DEF not in names:
                n.DEF = 'p%d n%d' % (i, j)
                names[n.DEF] = n
        known[cls] = (names, maps)
    names, maps = known[cls]
    instances = [cls() for i in range(3)]
    for x in instances:
        w = drives_all(x, known, 'initially')
        if w:
            return w
    if r.random() < .3:
        instances.append(instances[0].copy())
    log = []
    for step in range(5):
        x = r.choice(instances)
        fresh = Builder(r, 6)
        w = [undriven(y, mapped(y, cls, names), maps) for y in instances]
        others = [(y, Graph(y).picture()) for y in instances if y is not x]
        fields = sorted((f for f in vars(cls).values() if isinstance(f, (field.Field, field.Event))), key=lambda f: f.name)
        if not fields:
            return None
        f = r.choice(fields)
        if isinstance(f, field.Event):
            value = [r.random() for i in range(3)]
            log.append((f.name, value))
            setattr(x, f.name, value)
            body = mapped(x, cls, names)
            for n, g in maps.get(f.name, ()):
                got = getattr(body[n.DEF], g)
                if not equal_value(protofunctions.getField(body[n.DEF], g).coerce(value), got):
                    return 'event %s sent with %r, %s of %s is %r' % (f.name, value, g, n.DEF, got)
        else:
            value = some_value(r, f, fresh.child if isinstance(f, node._MFNode) else fresh)
            how = r.choice(['set', 'fset', 'del', 'in place'])
            if how == 'in place' and not isinstance(f, node.MFNode):
                how = 'set'
            log.append((f.name, how, value))
            if how == 'set':
                setattr(x, f.name, value)
            elif how == 'fset':
                f.fset(x, value)
            elif how == 'del':
                if not f.fhas(x):
                    continue
                f.fdel(x)
            else:
                getattr(x, f.name).append(fresh.child())
        bad = drives_all(x, known, 'after %s' % log)
        if bad:
            return bad
        for y, was in others:
            if Graph(y).picture() != was:
                return 'after %s another instance changed: %s' % (log, difference(was, Graph(y).picture()))
        after = undriven(x, mapped(x, cls, names), maps)
        before = w[[y is x for y in instances].index(True)]
        for k in before:
            if k in after and after[k] != before[k]:
                return 'after %s something else changed: %s: %r %r' % (log, k, before[k], after[k])
    return None
