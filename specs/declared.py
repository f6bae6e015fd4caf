"""What the handlers of the parser rely on: prototypes, members and routes as they are made"""
from common import *


def routes(ctx):
    """SceneGraph.addRoute: routes are put behind those of the scene; ends given by name are looked up in the scene"""
    import z3
    from pvc.values import SStr
    from vrml import route, node, field, protofunctions
    from vrml.vrml97 import scenegraph
    interp = make_interp(ctx)
    S = scenegraph.SceneGraph
    s = ctx.obj(S, 'scene', open=True)
    held = []
    class Routes(object):
        def append(self, r):
            raise NotImplementedError
    listed = ctx.obj(Routes, 'routes')
    interp.contract(Routes.__dict__['append'], lambda interp, args, kwargs: held.append(args[1]), 'routes.append (C07)')
    interp.class_contracts['attr', S, 'routes'] = lambda interp, o: listed
    class Probe(node.Node):
        pass
    nodes = [ctx.obj(Probe, x, open=True) for x in ('source', 'destination')]
    asked = []
    def get_def(interp, args, kwargs):
        asked.append(args[1])
        ctx.check('names are looked up in the scene', args[0] is s)
        for n, end in zip(names, nodes):
            if args[1] is n:
                return end
        ctx.check('the names given are looked up', False, repr(args))
    interp.contract(S.__dict__['getDEF'], get_def, 'SceneGraph.getDEF (C15)')
    made = []
    def begin(interp, args, kwargs):
        made.append((args[0], dict(zip(('source', 'sourceField', 'destination', 'destinationField'), args[1:]), **kwargs)))
    interp.contract(route.ROUTE.__dict__['__init__'], begin, 'ROUTE.__init__ (C08)')
    form = ctx.choose(['route', 'four', 'three'])
    names = [ctx.str('name of the source'), ctx.str('name of the destination')]
    fields = [ctx.str('source field'), ctx.str('destination field')]
    if form == 'route':
        r = ctx.obj(route.ROUTE, 'route', open=True)
        got = interp.call(S.__dict__['addRoute'], [s, r])
        ctx.check('the route is one of the scene', len(held) == 1 and held[0] is r, repr(held))
        ctx.check('the route is returned', got is r)
        ctx.check('no other is made', not made)
        ctx.cover('route')
        return
    by_name = [ctx.choose([True, False]) for i in range(2 if form == 'four' else 1)]
    ends = [n if named else x for named, n, x in zip(by_name, names, nodes)]
    if form == 'four':
        given = [ends[0], fields[0], ends[1], fields[1]]
    else:
        watched = []
        f = ctx.obj(type('AnyField', (field.Field,), {}), 'field', open=True)
        def lookup(interp, args, kwargs):
            ctx.check('the field of the source is looked up', args[0] is nodes[0] and args[1] is fields[0], repr(args))
            return f
        interp.contract(protofunctions.getField, lookup, 'getField (C20)')
        def watch(interp, args, kwargs):
            kw = dict(zip(('self', 'node', 'receiver', 'signal'), args), **kwargs)
            watched.append(kw)
        interp.contract(resolved(field.Field, 'watch'), watch, 'watch (connect)')
        target = ctx.any('target')
        interp.class_contracts['hasattr', '__call__'] = lambda interp, v: True
        from pvc.values import Model
        target = Model(lambda interp, args, kwargs: None, 'target')
        given = [ends[0], fields[0], target]
    how = ctx.choose(['tuple', 'list', 'arguments'])
    got = interp.call(S.__dict__['addRoute'], [s] + ([tuple(given)] if how == 'tuple' else [interp.make(list(given))] if how == 'list' else given))
    ctx.check('one route is put behind those of the scene', len(held) == 1, repr(held))
    ctx.check('only names are looked up', len(asked) == sum(by_name), repr(asked))
    if form == 'four':
        ctx.cover('four')
        ctx.check('one route is made', len(made) == 1 and held and held[0] is made[0][0] and got is made[0][0], repr((made, held)))
        if len(made) == 1:
            kw = made[0][1]
            ctx.check('it connects what was given', set(kw) == {'source', 'sourceField', 'destination', 'destinationField'} and kw['source'] is nodes[0] and kw['destination'] is nodes[1]
                      and kw['sourceField'] is fields[0] and kw['destinationField'] is fields[1], repr(kw))
    else:
        ctx.cover('three')
        ctx.check('the target is told of settings and deletions of the field', len(watched) == 2 and all(w['self'] is f and w['node'] is nodes[0] and w['receiver'] is target for w in watched)
                  and {w['signal'][0] for w in watched} == {'set', 'del'} and all(w['signal'][1] is f for w in watched), repr(watched))


def members(event):
    """newField, newEvent: a member of the type given, by its name or as a class"""
    def run(ctx):
        from vrml import field
        interp = make_interp(ctx)
        all_modules()
        table = field.baseEventTypes if event else field.baseFieldTypes
        kind = ctx.choose(sorted(table))
        made = []
        C = table[kind]
        init = resolved(C, '__init__')
        def begin(interp, args, kwargs):
            made.append((args[0], dict(zip(('name', 'direction') if event else ('name', 'exposure', 'default'), args[1:]), **kwargs)))
        interp.contract(init, begin, '%s.__init__' % C.__name__)
        name, flag, default = ctx.str('name'), ctx.choose([0, 1, None]), ctx.any('default')
        has = not event and ctx.choose([True, False])
        kw = {}
        if flag is not None:
            kw['direction' if event else 'exposure'] = flag
        if has:
            kw['default'] = default
        r = interp.call(getattr(field, 'newEvent' if event else 'newField'), [name, kind if ctx.choose([True, False]) else C], kw)
        ctx.cover('made')
        ctx.check('one member is made and returned', len(made) == 1 and r is made[0][0], repr((made, r)))
        if len(made) != 1:
            return
        o, got = made[0]
        ctx.check('it is of the type of that name', o.cls is C, repr(o.cls))
        ctx.check('of the name given', got.get('name') is name, repr(got))
        ctx.check('exposed or directed as given', bool(got.get('direction' if event else 'exposure', 1)) == bool(flag if flag is not None else 1), repr(got))
        ctx.check('with the default given, if there is one', got.get('default') is default if has else got.get('default', field._NULL) is field._NULL, repr(got))
    return run


def table_of_types(ctx):
    """The tables of types: every registered class is found under the name of its type"""
    from vrml import field
    interp = make_interp(ctx)
    all_modules()
    for table in (field.baseFieldTypes, field.baseEventTypes):
        for name, C in sorted(table.items()):
            got = interp.call(field.typeName, [C])
            ctx.check('%s is found under its name' % C.__name__, got == name, repr(got))
    ctx.cover('types')


def prototypes(ctx):
    """prototype(): a class of the name given, with exactly the members given, each under its own name, and the scene and address given

    The members are any number of fields and events of distinct names; the class is seen from one arbitrary name.
    """
    import z3
    from pvc import models
    from pvc.keyed import Key, Entries, KeyedDict, entries_rule
    from pvc.values import Model, SStr
    from vrml import node, field, protofunctions
    from vrml.vrml97 import scenegraph
    interp = make_interp(ctx)
    key = Key(ctx)
    what = ctx.choose(['member', 'no member', 'PROTO'])
    ctx.assume((key.text.z == z3.StringVal('PROTO')) == z3.BoolVal(what == 'PROTO'), check=False)
    F = ctx.obj(type('AnyField', (field.Field,), {}), 'field', open=True)
    interp.set_attr(F, 'name', key.text)
    class Members(Entries):
        def element(self, k, v):
            if z3.eq(k.z, key.text.z):
                return F
            return ctx.obj(type('AnyField', (field.Field,), {}), 'another', open=True, name=k)
    there = what == 'member'
    given = Members(key, 'values', there, F, 'members')
    interp.loop_specs.insert(0, entries_rule(key))
    made, scenes, urls = [], [], []
    class Made(object):
        pass
    proto = ctx.obj(Made, 'prototype', open=True)
    def new_class(interp, args):
        made.append(args)
        return proto
    interp.class_contracts['type', None] = new_class
    interp.contract(protofunctions.setSceneGraph, lambda interp, args, kwargs: scenes.append(args), 'setSceneGraph')
    interp.contract(protofunctions.setExternalURL, lambda interp, args, kwargs: urls.append(args), 'setExternalURL')
    for name in ('setSceneGraph', 'setExternalURL'):
        f = getattr(node, name, None)
    name = ctx.str('name')
    kw = {'fields': given}
    scene = ctx.obj(scenegraph.SceneGraph, 'scene', open=True) if ctx.choose([True, False]) else None
    url = ctx.str('address') if ctx.choose([True, False]) else None
    if scene is not None:
        kw['sceneGraph'] = scene
    if url is not None:
        ctx.assume(z3.Length(url.z) > 0, check=False)
        kw['externalURL'] = url
    r = interp.call(node.prototype, [name], kw)
    ctx.check('one class is made and returned', len(made) == 1 and r is proto, repr(made))
    if len(made) != 1:
        return
    n, bases, env = made[0]
    ctx.check('of the name given', n is name, repr(n))
    ctx.check('it is a prototype and a node', tuple(bases) == (node.PrototypedNode, node.Node), repr(bases))
    if not isinstance(env, KeyedDict):
        interp.unsupported('a class made of %r' % (env,))
    value = env.value if env.there() else None
    ctx.cover(what)
    if what == 'member':
        ctx.check('every member is one of the class, under its name', value is F, repr(value))
    elif what == 'no member':
        ctx.check('there are no other members', value is None, repr(value))
    else:
        ctx.check('its name as a prototype is the name given', value is name, repr(value))
    ctx.check('it has the scene given', [a[1] for a in scenes] == ([scene] if scene is not None else []) and all(a[0] is proto for a in scenes), repr(scenes))
    ctx.check('it has the address given', [a[1] for a in urls] == ([url] if url is not None else []) and all(a[0] is proto for a in urls), repr(urls))


def added(ctx):
    """addField: the member is an attribute of the prototype, under its own name"""
    from vrml import node, field, protofunctions
    interp = make_interp(ctx)
    P = type('Interface', (node.PrototypedNode, node.Node), {})
    names = []
    f = ctx.obj(type('AnyField', (field.Field,), {}), 'field', open=True)
    name = ctx.str('name')
    interp.set_attr(f, 'name', name)
    interp.class_contracts['setattr', None] = lambda interp, o, n, v: names.append((o, n, v))
    interp.call(protofunctions.addField, [P, f])
    ctx.cover('added')
    ctx.check('one attribute of the prototype is set', len(names) == 1 and names[0][0] is P and names[0][1] is name and names[0][2] is f, repr(names))


def of_prototypes(ctx):
    """The scene and the address of a prototype: what is set is what is got, for the prototype it was set for"""
    from vrml import node, protofunctions
    from vrml.vrml97 import scenegraph
    interp = make_interp(ctx)
    what = ctx.choose(['SceneGraph', 'ExternalURL'])
    bases = (node.PrototypedNode, node.Node)
    P = type('Interface', bases, {})
    value = ctx.obj(scenegraph.SceneGraph, 'scene', open=True) if what == 'SceneGraph' else interp.make(['x.wrl', 'y.wrl'])
    interp.setattr_ok[id(P)] = P
    interp.call(getattr(protofunctions, 'set' + what), [P, value])
    r = interp.call(getattr(protofunctions, 'get' + what), [P])
    if what == 'SceneGraph':
        ctx.check('the scene given is found again', r is value, repr(r))
    else:
        ctx.check('the address given is found again', interp.truth(interp.eq(r, interp.make(['x.wrl', 'y.wrl']))) is True, repr(r))
    ctx.cover(what)


def mappings(ctx):
    """ismaps: every prototype has one table of its own, empty at first"""
    import weakref
    from vrml import node
    interp = make_interp(ctx)
    P, Q = [type('Interface', (node.PrototypedNode, node.Node), {}) for i in range(2)]
    tables = {}
    def setdefault(interp, args, kwargs):
        table, key = args[0], args[1]
        return tables.setdefault((id(table), id(key)), (args[2] if len(args) > 2 else kwargs.get('default'), key))[0]
    def get(interp, args, kwargs):
        return tables.get((id(args[0]), id(args[1])), (args[2] if len(args) > 2 else None, None))[0]
    def put(interp, args, kwargs):
        tables[id(args[0]), id(args[1])] = (args[2], args[1])
    def item(interp, args, kwargs):
        if (id(args[0]), id(args[1])) not in tables:
            interp.raise_(KeyError, 'no such key')
        return tables[id(args[0]), id(args[1])][0]
    W = weakref.WeakKeyDictionary
    for name, f in (('setdefault', setdefault), ('get', get), ('__setitem__', put), ('__getitem__', item), ('__contains__', lambda interp, args, kwargs: (id(args[0]), id(args[1])) in tables)):
        interp.contract(getattr(W, name), f, 'WeakKeyDictionary.%s' % name)
    a = interp.call(node.ismaps, [P])
    b = interp.call(node.ismaps, [Q])
    from pvc.values import SDict
    if not isinstance(a, (dict, SDict)):
        interp.unsupported('a table of another kind')
    ctx.check('a table, empty at first', interp.truth(interp.eq(interp.len_(a), 0)) is True, repr(a))
    ctx.check('every prototype has its own', a is not b, repr(b))
    ctx.check('and keeps it', interp.call(node.ismaps, [P]) is a)
    ctx.cover('tables')


def scripts(ctx):
    """Script(): an instance of a prototype of its own, made of the members given, holding the values given"""
    from vrml import node
    from vrml.vrml97 import script
    from pvc.values import Model
    interp = make_interp(ctx)
    protos, made = [], []
    members, r = ctx.any('members'), ctx.obj(node.Node, 'the script', open=True)
    values = {'url': ctx.any('url'), 'DEF': ctx.any('name')}
    def instance(interp, args, kwargs):
        made.append((list(args), dict(kwargs)))
        return r
    P = Model(instance, 'prototype of the script')
    def proto(interp, args, kwargs):
        protos.append(dict(zip(('name', 'fields', 'sceneGraph', 'externalURL', 'baseClasses'), args), **kwargs))
        return P
    interp.contract(node.prototype, proto, 'prototype()')
    got = interp.call(script.Script, [members], dict(values))
    ctx.cover('made')
    ctx.check('one prototype is made for it', len(protos) == 1 and protos[0].get('name') == 'Script' and protos[0].get('fields') is members and tuple(protos[0].get('baseClasses', ())) == (script._Script,), repr(protos))
    ctx.check('it is the instance made, with the values given', got is r and len(made) == 1 and made[0][0] == [] and made[0][1] == values, repr((got, made)))


def processor_made(ctx):
    """A new ParseProcessor has stacks of its own, with nothing on them, and the table of prototypes given (by default a copy of the built-in one)"""
    from vrml.vrml97 import parseprocessor, basenamespaces
    interp = make_interp(ctx)
    o = ctx.obj(parseprocessor.ParseProcessor, 'processor')
    given = ctx.choose(['nothing', 'none', 'table'])
    table = ctx.any('table') if given != 'table' else interp.make({})
    uri = ctx.str('address')
    interp.call(parseprocessor.ParseProcessor.__dict__['__init__'], [o] + {'nothing': [], 'none': [None, uri], 'table': [table, uri]}[given])
    ctx.cover(given)
    get = lambda n: interp.get_attr(o, n)
    stacks = [get(n) for n in ('sceneGraphStack', 'prototypeStack', 'nodeStack', 'fieldTypeStack')]
    ctx.check('every context is empty', all(type(s) is list and not s for s in stacks), repr(stacks))
    ctx.check('and its own', len({id(s) for s in stacks}) == 4 and all(id(s) in interp.fresh for s in stacks))
    protos = get('basePrototypes')
    if given == 'table':
        ctx.check('types are those of the table given', protos is table, repr(protos))
    else:
        ctx.check('types are the built-in ones', dict(protos) == dict(basenamespaces.basePrototypes) if isinstance(protos, dict) else interp.unsupported('a table of types'), repr(type(protos)))
        ctx.check('in a table of its own', protos is not basenamespaces.basePrototypes)
    if given != 'nothing':
        ctx.check('the address is the one given', get('baseURI') is uri, repr(get('baseURI')))
