PROPERTY = 'C15'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
EXPLANATION = ('regDefName, getDEF, addProto and getProto are executed symbolically on a scene whose name tables have any content: after registering, the new '
               'name resolves to the node, the node bears it, the name it bore before no longer resolves to it, and an arbitrary other name resolves '
               'as it did; getProto is the nearest registration (the enclosing scenes by the contract of getProto itself, dead or missing ones giving nothing). '
               'A new scene has its own tables, with nothing in them, and no enclosing scene but the one given.')
BOUNDED = ['bounded: random histories of registrations, renamings, deaths of enclosing scenes and lookups against reference tables, on the real code']
TRUSTED = ['weakref.ref: gives its object while it lives and None afterwards', 'dict: a table from names to their last assigned values']
ASSUMPTIONS = ['scenes are not (directly or not) enclosed in themselves']
# --- end of meta
from common import *


def scene(ctx, interp, label='scene'):
    """A scene with name tables of any content and any root"""
    from pvc.values import SDict, Obj, WeakRef
    from vrml import protonamespace
    from vrml.vrml97 import scenegraph
    import z3
    defs = SDict(True, label + '.defNames')
    protos = ctx.obj(protonamespace.ProtoNamespace, label + '.protoTypes')
    protos.payload = SDict(True, label + '.protoTypes')
    s = ctx.obj(scenegraph.SceneGraph, label, open=True, defNames=defs, protoTypes=protos)
    return s, defs, protos.payload


def node_of(ctx, label='node'):
    from vrml import node
    return ctx.obj(type('Probe', (node.Node,), {}), label, open=True)


def proofs(mode):
    out = []
    def h(name, body, covers):
        def run(ctx):
            interp = make_interp(ctx)
            body(ctx, interp)
        out.append((name, run, dict(covers=covers)))

    def lookup(ctx, interp, d, key):
        """What a table holds now under key"""
        from pvc.values import ABSENT
        v = interp.dict_lookup(d, key)
        return None if v is ABSENT else v

    def register(ctx, interp):
        from vrml.vrml97 import scenegraph
        from vrml import protofunctions
        from pvc.values import SStr, ABSENT
        s, defs, protos = scene(ctx, interp)
        n = node_of(ctx)
        name, other = ctx.str('name'), ctx.str('other')
        had = ctx.choose([True, False])
        old = ctx.str('old') if had else ''
        if had:
            n.d.over.append([' DEF', old])
        else:
            n.d.base.append([' DEF', ABSENT])
        # the state before: what the names of interest resolve to
        state = ctx.choose(['registered', 'another', 'nothing'])
        another = ctx.any('other node')
        ctx.assume(another.z != n.ref, check=False)
        defs.base.append([old, n if state == 'registered' else ABSENT if state == 'nothing' else another])
        before_other = lookup(ctx, interp, defs, other)
        was = lookup(ctx, interp, defs, old)
        interp.call(scenegraph.SceneGraph.__dict__['regDefName'], [s, name, n])
        got = interp.call(scenegraph.SceneGraph.__dict__['getDEF'], [s, name])
        ctx.check('the name resolves to the node', got is n, repr(got))
        now = interp.call(protofunctions.defName, [n])
        ctx.check('the node bears the name', interp.truth(interp.eq(now, name)) if isinstance(now, (str, SStr)) else False, repr(now))
        same_name = ctx.branch(interp.compare_bool(interp.eq(old, name)).z) if not isinstance(interp.eq(old, name), bool) else interp.eq(old, name)
        if not same_name:
            after = interp.call(scenegraph.SceneGraph.__dict__['getDEF'], [s, old])
            if state == 'registered':
                ctx.cover('renamed')
                ctx.check('the name it was registered under is free', after is None, repr(after))
            else:
                ctx.cover('unregistered')
                ctx.check('a name that is not its own is not touched', after is was, repr(after))
        if interp.truth(interp.eq(other, name)) or interp.truth(interp.eq(other, old)):
            return
        ctx.cover('other name')
        after = interp.call(scenegraph.SceneGraph.__dict__['getDEF'], [s, other])
        ctx.check('every other name resolves as before', after is before_other, repr(after))
        for t in dict_writes(ctx):
            ctx.check('only the table and the node are written', t[0] == 'w' and (t[1] is defs or (t[1] is n.d and t[2] == ' DEF')), repr(t))
    h('regDefName', register, ['renamed', 'unregistered', 'other name'])

    def get_def(ctx, interp):
        from vrml.vrml97 import scenegraph
        s, defs, protos = scene(ctx, interp)
        name = ctx.str('name')
        want = lookup(ctx, interp, defs, name)
        got = interp.call(scenegraph.SceneGraph.__dict__['getDEF'], [s, name])
        ctx.cover('found' if want is not None else 'nothing')
        ctx.check('getDEF gives what is registered', got is want, repr(got))
        ctx.check('nothing is changed', not dict_writes(ctx))
    h('getDEF', get_def, ['found', 'nothing'])

    def get_proto(ctx, interp):
        from vrml.vrml97 import scenegraph
        from pvc.values import WeakRef, ABSENT
        s, defs, protos = scene(ctx, interp)
        name = ctx.str('name')
        held = ctx.any('prototype', type) if ctx.choose([True, False]) else None
        if held is not None:
            ctx.assume(held.z != interp.to_v(None), check=False)
        protos.base.append([name, held if held is not None else ABSENT])
        root = ctx.choose(['none', 'alive', 'dead'])
        r = ctx.obj(scenegraph.SceneGraph, 'enclosing', open=True)
        ref = None
        if root != 'none':
            ref = WeakRef(r)
            ref.dead = root == 'dead'
        s.d.over.append(['root', ref])
        outer = [True]
        asked = []
        answer = ctx.any('outer prototype', type) if ctx.choose([True, False]) else None
        def recursive(interp, args, kwargs):
            if outer[0]:
                outer[0] = False
                return interp.call_live(scenegraph.SceneGraph.__dict__['getProto'], args, kwargs)
            ctx.check('the enclosing scene is asked for the same name', args[0] is r and args[1] is name, repr(args))
            asked.append(1)
            return answer
        interp.contract(scenegraph.SceneGraph.__dict__['getProto'], recursive, 'SceneGraph.getProto (enclosing scenes)')
        got = interp.call(scenegraph.SceneGraph.__dict__['getProto'], [s, name])
        if held is not None:
            ctx.cover('own')
            ctx.check("the scene's own registration comes first", got is held, repr(got))
        elif root == 'alive':
            ctx.cover('enclosing')
            ctx.check('otherwise what the enclosing scene resolves', got is answer and bool(asked), repr(got))
        else:
            ctx.cover('nothing')
            ctx.check('nothing when there is none', got is None and not asked, repr(got))
        ctx.check('nothing is changed', not dict_writes(ctx))
    h('getProto', get_proto, ['own', 'enclosing', 'nothing'])

    def add_proto(ctx, interp):
        from vrml.vrml97 import scenegraph
        from vrml import node, protofunctions
        s, defs, protos = scene(ctx, interp)
        P = type('Proto', (node.Node,), {'PROTO': ctx.choose(['Given', ''])})
        key = P.PROTO or 'Proto'
        other = ctx.str('other')
        before = lookup(ctx, interp, protos, other)
        interp.call(scenegraph.SceneGraph.__dict__['addProto'], [s, P])
        got = interp.call(scenegraph.SceneGraph.__dict__['getProto'], [s, key])
        ctx.check('the name of the prototype resolves to it', got is P, repr(got))
        if interp.truth(interp.eq(other, key)):
            return
        ctx.cover('other name')
        ctx.check('every other name resolves as before', lookup(ctx, interp, protos, other) is before)
    h('addProto', add_proto, ['other name'])

    def namespace(ctx, interp):
        """getattr(scene.protoTypes, name) is the registration"""
        from pvc.engine import PyExc
        s, defs, protos = scene(ctx, interp)
        name = ctx.str('name')
        want = lookup(ctx, interp, protos, name)
        p = s.d.over[1][1]
        from vrml import protonamespace
        if interp.truth(interp.eq(name, '__contains__')):
            return
        try:
            got = interp.call(protonamespace.ProtoNamespace.__dict__['__getattr__'], [p, name])
        except PyExc as err:
            ctx.cover('nothing')
            ctx.check('AttributeError for an unregistered name', err.cls is AttributeError and want is None, str(err))
            return
        ctx.cover('found')
        ctx.check('the registered prototype', got is want, repr(got))
    h('protoTypes as attributes', namespace, ['found', 'nothing'])
    h('a new scene', new_scene, ['enclosed', 'not enclosed', 'own tables', 'given tables', 'routes', 'no routes'])
    return out


def new_scene(ctx, interp):
    """SceneGraph.__init__: what a new scene is enclosed in and its tables, which no other scene has unless they were given"""
    from pvc.values import SDict, Obj, WeakRef
    from pvc import models
    from vrml import node, protonamespace
    from vrml.vrml97 import scenegraph
    S = scenegraph.SceneGraph
    root = ctx.obj(S, 'enclosing', open=True) if ctx.choose([True, False]) else None
    given = ctx.choose([True, False])
    names = SDict(True, 'names') if given else None
    protos = ctx.obj(protonamespace.ProtoNamespace, 'prototypes') if given else None
    if given:
        protos.payload = SDict(True, 'entries')
    children, other = ctx.any('children'), ctx.any('another attribute')
    routes = ctx.choose([None, 2])
    routes = routes and interp.make([ctx.any('route') for i in range(routes)])
    begun, owned, added = [], [], []
    def begin(interp, args, kwargs):
        begun.append((args, dict(kwargs)))
    interp.contract(resolved(node.Node, '__init__'), begin, 'Node.__init__ (C07)')
    interp.contract(resolved(type(node.Node.rootSceneGraph), 'fset'), lambda interp, args, kwargs: owned.append((args, bool(begun))), 'fset of the root (C01)')
    interp.contract(S.__dict__['addRoute'], lambda interp, args, kwargs: added.append(args), 'addRoute')
    made = []
    for i in range(2):
        s = models.new_instance(interp, S)
        interp.call(S.__dict__['__init__'], [s], dict(root=root, protoTypes=protos, defNames=names, children=children, routes=routes, other=other))
        made.append(s)
        ref = interp.get_attr(s, 'root')
        if root is None:
            ctx.cover('not enclosed')
            ctx.check('it is enclosed in no other', ref is None, repr(ref))
        else:
            ctx.cover('enclosed')
            ctx.check('it is enclosed in the one given, which it does not keep', isinstance(ref, WeakRef) and ref.target is root, repr(ref))
        tables = [interp.get_attr(s, 'defNames'), interp.get_attr(s, 'protoTypes')]
        if given:
            ctx.cover('given tables')
            ctx.check('the tables given are its own', tables[0] is names and tables[1] is protos, repr(tables))
        else:
            ctx.cover('own tables')
            ctx.check('its tables are new', all(allocated(ctx, t) for t in tables) and isinstance(tables[1], Obj) and issubclass(tables[1].cls, protonamespace.ProtoNamespace), repr(tables))
            ctx.check('its tables are empty', not interp.truth(interp.len_(tables[0])) and not interp.truth(interp.len_(tables[1])), repr(tables))
            before = [interp.get_attr(m, n) for m in made[:-1] for n in ('defNames', 'protoTypes')]
            ctx.check('no other scene has them', not any(t is b for t in tables for b in before))
        ctx.check('it is begun as a node with the attributes given', len(begun) == 1 and begun[0][0] == [s] and begun[0][1] == dict(children=children, other=other), repr(begun))
        ctx.check('it is its own root', len(owned) == 1 and owned[0][0][1] is s and owned[0][0][2] is s and owned[0][1], repr(owned))
        ctx.cover('routes' if routes is not None else 'no routes')
        want = interp.iterate(routes) if routes is not None else []
        ctx.check('the routes are added in order', len(added) == len(want) and all(a[0] is s and a[1] is r for a, r in zip(added, want)), repr(added))
        begun[:], owned[:], added[:] = [], [], []


def cases(rnd, tier, mode):
    names = ['a', 'b', 'c', 'd', 'a b', 'caf\u00e9']
    for i in range(5000 if tier == 'quick' else 20000):
        ops = []
        for j in range(rnd.randint(1, 14)):
            op = rnd.choice(['reg', 'reg', 'reg', 'proto', 'proto', 'getproto', 'kill', 'delete'])
            ops.append([op, rnd.randint(0, 2), rnd.choice(names), rnd.randint(0, 3)])
        yield dict(kind='history', depth=rnd.randint(1, 3), ops=ops)
    yield dict(kind='order')


def check_case(case):
    import gc
    from vrml import node, protofunctions, protonamespace
    from vrml.vrml97 import scenegraph, basenodes
    if case['kind'] == 'order':
        # a dead enclosing scene gives nothing, an own registration still does
        outer = scenegraph.SceneGraph()
        P = node.prototype('P', []) if False else type('P', (node.Node,), {'PROTO': 'P'})
        outer.addProto(P)
        inner = scenegraph.SceneGraph(root=outer)
        if inner.getProto('P') is not P:
            return 'prototype of the enclosing scene is not found'
        del outer
        gc.collect()
        if inner.getProto('P') is not None:
            return 'a dead enclosing scene still resolves'
        return None
    scenes = []
    for i in range(case['depth']):
        scenes.append(scenegraph.SceneGraph(root=scenes[-1] if scenes else None))
    nodes = [basenodes.Group(), basenodes.Transform(), basenodes.Box(), basenodes.Group()]
    protos = [type('P%d' % i, (node.Node,), {'PROTO': p}) for i, p in enumerate(['a', 'b', '', 'a'])]
    defs = [{} for s in scenes]
    tables = [{} for s in scenes]
    bears = [''] * len(nodes)
    alive = len(scenes)
    for op, which, name, k in case['ops']:
        which = which % case['depth']
        s = scenes[which]
        if op == 'reg':
            s.regDefName(name, nodes[k])
            if defs[which].get(bears[k]) is nodes[k]:
                del defs[which][bears[k]]
            defs[which][name] = nodes[k]
            bears[k] = name
        elif op == 'delete':
            if nodes[k].DEF == bears[k]:
                pass
        elif op == 'proto':
            s.addProto(protos[k])
            tables[which][protos[k].PROTO or protos[k].__name__] = protos[k]
        for w, s in enumerate(scenes):
            for n in ['a', 'b', 'c', 'd', 'a b', 'caf\u00e9', 'zz']:
                got = s.getDEF(n)
                if got is not defs[w].get(n):
                    return 'after %r, name %r resolves to %r' % (op, n, got)
            for n in ['a', 'b', 'P2', 'zz']:
                want = None
                for u in range(w, -1, -1):
                    if n in tables[u]:
                        want = tables[u][n]
                        break
                if s.getProto(n) is not want:
                    return 'prototype %r resolves to %r' % (n, s.getProto(n))
        for n, b in zip(nodes, bears):
            if protofunctions.defName(n) != b:
                return 'node bears %r, not %r' % (protofunctions.defName(n), b)
    return None
