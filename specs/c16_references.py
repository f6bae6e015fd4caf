PROPERTY = 'C16'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
SHARDS = 4
EXPLANATION = ('The handlers of parseprocessor.py which resolve and define names (USE, ROUTE, Node, Script, Attr, Field, SFNull, IS, rootItem, vrmlScene, Proto, ExternProto and the '
               'declarations) are executed symbolically on parse trees with any positions, texts and numbers of parts, on contexts of any depth and scenes with name tables of any content. '
               'Dispatching to the parts of a tree is by contract: it changes no context stack, may add to the tables, returns anything or raises; every handler is proved to keep this contract, '
               'so that by induction over the tree each statement of a file has the effect proved of its handler. The productions of the grammar in /repo are executed on statements with any '
               'names, in VRML97 and in X3D: the tree contains just these names, in these places. What a handler does with a name it has resolved is proved too: addRoute, newField, newEvent, addField, Script() and prototype() are executed on any names, types and nodes.')
BOUNDED = ['bounded: generated files with nested prototypes, scenes, DEF, USE, ROUTE, Script, IS and undefined names of every kind (names beginning with keywords, redefined, out of scope, forward), external prototypes included, every fifth one an X3D file, parsed '
           'by the real parser and compared node by node with an independent reading: quick about 2500, thorough 40000 files']
TRUSTED = ['simpleparse and its tag engine: meaning of the elements of the grammar as documented, trees of the matched productions with their positions; dispatch, dispatchList, getString and lines of '
           'simpleparse.dispatchprocessor', 'type() makes classes with the given name, bases and members']
ASSUMPTIONS = ['the first character of a statement is no line feed', 'IS occurs in prototypes only and names a declared interface (C18 checks its effect)']
# --- end of meta
from common import *

BLANK = ' \t\n,'


# ---------------------------------------------------------------- contexts
class Depth(object):
    """A stack of any depth: the items below are unknown, the lowest one is bottom"""
    def __init__(self, ctx, bottom, known):
        import z3
        self.ctx, self.bottom, self.items = ctx, bottom, list(known)
        self.start = list(known)
        self.below = ctx.int('depth').z
        ctx.assume(self.below >= 0)
        # with nothing below, the lowest known one is the bottom
        self.alone = ctx.branch(self.below == 0)
    def list_method(self, interp, target, name, args, kwargs):
        if name == 'append':
            self.items.append(args[0])
            return None
        if name == 'pop' and not args:
            if not self.items:
                self.ctx.check('nothing is taken from a stack but what was put there', False)
                interp.unsupported('pop of an unknown item')
            return self.items.pop()
        if name == '__len__':
            from pvc.values import SInt
            return SInt(self.below + len(self.items))
        if name == '__getitem__':
            i = args[0]
            if i == 0 and (not self.alone or not self.items):
                if self.alone:
                    interp.raise_(IndexError, 'list index out of range')
                return self.bottom
            if i == 0:
                return self.items[0]
            if isinstance(i, int) and i < 0 and len(self.items) >= -i:
                return self.items[i]
            if isinstance(i, int) and i < 0 and self.alone:
                interp.raise_(IndexError, 'list index out of range')
        interp.unsupported('stack.%s%r' % (name, tuple(args)))
    def intact(self):
        return len(self.items) == len(self.start) and all(a is b for a, b in zip(self.items, self.start))


STACKS = ['sceneGraphStack', 'prototypeStack', 'nodeStack', 'fieldTypeStack']


class World(object):
    """A parse processor in any context, a buffer and contracts"""
    def __init__(self, ctx, field_type=None, client=None, fresh=False):
        import z3
        from vrml import node, protofunctions, protonamespace
        from vrml.vrml97 import parseprocessor, scenegraph
        from pvc import models
        from pvc.values import Obj, SDict, SStr, SInt, Model
        from simpleparse import dispatchprocessor
        import c12_strings
        self.ctx = ctx
        self.interp = interp = make_interp(ctx)
        self.buffer, self.Slice = c12_strings.slices(interp, ctx)
        self.events = []
        self.lf = z3.Function('line feeds before', z3.IntSort(), z3.IntSort())
        self.is_lf = z3.Function('is line feed', z3.IntSort(), z3.BoolSort())
        self.Text = z3.Function('decimal', z3.IntSort(), z3.StringSort())
        P = self.P = models.new_instance(interp, parseprocessor.ParseProcessor)
        self.scene = self.make_scene('scene')
        self.outermost = self.make_scene('outermost scene')
        proto = self.proto = type('Interface', (node.PrototypedNode, node.Node), {})
        interp.setattr_ok[id(proto)] = proto
        if client is None:
            client = ctx.obj(type('Client', (node.Node,), {}), 'client', open=True)
        self.client = client
        top = {'sceneGraphStack': (self.outermost, [self.scene]), 'prototypeStack': (None, [proto]), 'nodeStack': (None, [client]), 'fieldTypeStack': (None, [field_type or 'SFNode'])}
        self.stacks = {}
        for s in STACKS:
            o = Obj(list, SDict(False, s), s, z3.Const(ctx.name(s), __import__('pvc.values', fromlist=['V']).V))
            o.payload = self.stacks[s] = Depth(ctx, *top[s]) if not (fresh and s == 'sceneGraphStack') else Depth(ctx, None, [])
            if fresh and s == 'sceneGraphStack':
                ctx.assume(o.payload.below == 0)
                o.payload.alone = True
            interp.set_attr(P, s, o)
        d = self.stacks['sceneGraphStack']
        self.bottom = self.scene if d.alone else self.outermost
        interp.set_attr(P, 'position', 0)
        interp.set_attr(P, 'baseURI', ctx.str('base'))
        self.made = []
        interp.set_attr(P, 'basePrototypes', interp.make({
            'Script': Model(self.new_script, 'Script'), 'ROUTE': Model(self.new_route, 'ROUTE'), 'sceneGraph': Model(self.new_scene, 'sceneGraph'), 'NULL': node.NULL}))
        interp.contract(dispatchprocessor.dispatch, self.dispatch, 'dispatch (by induction)')
        interp.contract(dispatchprocessor.dispatchList, self.dispatch_list, 'dispatchList (by induction)')
        interp.contract(dispatchprocessor.lines, self.lines, 'simpleparse lines')
        interp.class_contracts['text', None] = lambda interp, v: SStr(self.Text(v.z)) if isinstance(v, SInt) else __import__('pvc.models', fromlist=['x']).opaque_text(interp)
        interp.contract(parseprocessor.as_str, lambda interp, args, kwargs: args[0], 'as_str of a text')
        S = scenegraph.SceneGraph
        interp.contract(S.__dict__['regDefName'], lambda interp, args, kwargs: self.event('DEF', *args), 'SceneGraph.regDefName (C15)')
        interp.contract(S.__dict__['addProto'], lambda interp, args, kwargs: self.event('PROTO', *args), 'SceneGraph.addProto (C15)')
        interp.contract(S.__dict__['addRoute'], lambda interp, args, kwargs: self.event('ROUTE', *args), 'SceneGraph.addRoute')
        interp.contract(S.__dict__['getDEF'], self.get_def, 'SceneGraph.getDEF (C15)')
        interp.contract(S.__dict__['getProto'], self.get_proto, 'SceneGraph.getProto (C15)')
        interp.contract(protofunctions.root, lambda interp, args, kwargs: self.event('root', *args), 'root (C07)')
        self.defs, self.protos = [], []
        self.results = []
        self.failure = None
        ctx.trace[:] = []
    def make_scene(self, label):
        from vrml.vrml97 import scenegraph
        return self.ctx.obj(scenegraph.SceneGraph, label, open=True)
    def event(self, *args):
        self.events.append(args)
        return None
    def of(self, kind):
        return [e for e in self.events if e[0] == kind]
    # -- contracts
    def snapshot(self):
        return dict((s, list(d.items)) for s, d in self.stacks.items())
    def dispatch(self, interp, args, kwargs):
        source, table, buffer = args
        self.ctx.check('trees are dispatched with their own processor and text', source is self.P and buffer is self.buffer)
        return self.one(table)
    def one(self, table):
        self.events.append(('dispatch', table, self.snapshot()))
        if self.ctx.choose(['returns', 'raises']) == 'raises':
            self.failure = __import__('pvc.engine', fromlist=['x']).PyExc(NameError, NameError('a part'), ('a part',))
            raise self.failure
        given = self.giving(table) if hasattr(self, 'giving') else self.ctx.any('result of a part')
        self.results.append((table, given))
        return given
    def dispatch_list(self, interp, args, kwargs):
        from pvc.values import LazyList
        source, tables, buffer = args
        self.ctx.check('trees are dispatched with their own processor and text', source is self.P and buffer is self.buffer)
        c = tables
        if isinstance(c, LazyList):
            self.events.append(('dispatchList', c, self.snapshot()))
            if self.ctx.choose(['returns', 'raises']) == 'raises':
                self.failure = __import__('pvc.engine', fromlist=['x']).PyExc(NameError, NameError('a part'), ('a part',))
                raise self.failure
            import z3
            Result = z3.Function('result of part', z3.IntSort(), __import__('pvc.values', fromlist=['V']).V)
            from pvc.values import SAny
            r = LazyList(c.n, lambda j: SAny(Result(j)), 'results')
            self.results.append((c, r))
            return r
        if not isinstance(c, (list, tuple)):
            interp.unsupported('trees')
        if any(isinstance(x, Token) for x in c):
            self.events.append(('dispatchList', c, self.snapshot()))
            return self.ctx.any('results')
        return interp.make([self.one(x) for x in c])
    def lines(self, interp, args, kwargs):
        """Line feeds up to end, and one more for text behind the last of them"""
        import z3
        from pvc.values import SInt, integer
        kw = dict(zip(('start', 'end', 'buffer'), args))
        kw.update(kwargs)
        self.ctx.check('lines of the parsed text are counted', kw.get('buffer') is self.buffer)
        if kw.get('start') not in (None, 0) or kw.get('end') is None:
            interp.unsupported('lines from elsewhere')
        e = integer(kw['end'])
        if self.ctx.branch(e == 0):
            # the whole text
            return self.ctx.int('lines of the text')
        return SInt(self.lf(e) + z3.If(self.is_lf(e - 1), 0, 1))
    def line_of(self, position):
        """The number of the line with this position, which is no line feed"""
        import z3
        p = position.z
        self.ctx.assume(z3.And(p >= 0, z3.Not(self.is_lf(p)), self.lf(p + 1) == self.lf(p), self.lf(p) >= 0), check=False)
        return self.lf(p) + 1
    def get_def(self, interp, args, kwargs):
        scene, name = args
        for s, n, r in self.defs:
            if s is scene and interp.truth(interp.eq(n, name)):
                return r
        r = None
        if self.ctx.choose([True, False]):
            from vrml import node
            r = self.ctx.obj(type('Named', (node.Node,), {}), 'named node', open=True)
        self.defs.append((scene, name, r))
        self.events.append(('getDEF', scene, name, r))
        return r
    def get_proto(self, interp, args, kwargs):
        from pvc.values import Model
        scene, name = args
        if not has_symbol(name) and name == 'NULL':
            r = __import__('vrml.node', fromlist=['x']).NULL
        else:
            r = Model(self.new_node, 'prototype') if self.ctx.choose([True, False]) else None
        self.events.append(('getProto', scene, name, r))
        return r
    def new_node(self, interp, args, kwargs):
        from vrml import node
        self.ctx.check('nodes are made without values', not args and not kwargs)
        n = self.ctx.obj(type('Made', (node.Node,), {}), 'new node', open=True)
        self.made.append(n)
        self.events.append(('new', n))
        return n
    def new_script(self, interp, args, kwargs):
        from vrml import node
        n = self.ctx.obj(type('Script', (node.Node,), {}), 'new script', open=True)
        interp.setattr_ok[id(n.cls)] = n.cls
        self.made.append(n)
        self.events.append(('new', n))
        return n
    def new_route(self, interp, args, kwargs):
        keys = ('source', 'sourceField', 'destination', 'destinationField')
        kw = dict(zip(keys, args))
        kw.update(kwargs)
        r = self.ctx.any('route')
        self.events.append(('route', r, kw))
        return r
    def new_scene(self, interp, args, kwargs):
        kw = dict(zip(('root', 'protoTypes', 'routes', 'defNames', 'children'), args))
        kw.update(kwargs)
        s = self.make_scene('new scene')
        self.events.append(('scene', s, kw))
        return s
    # -- use
    def name_of(self, table):
        """The text of a part"""
        return self.interp.class_contracts['getitem', str](self.interp, self.buffer, slice(table[1], table[2]))
    def token(self, tag, children=None):
        a, b = self.ctx.int(tag + ' start'), self.ctx.int(tag + ' stop')
        return (tag, a, b, children)
    def run(self, handler, table):
        """(result, exception) of a handler; the stacks are as before unless a part failed"""
        from pvc.engine import PyExc
        try:
            r = self.interp.call(self.interp.get_attr(self.P, handler), [table, self.buffer])
        except PyExc as err:
            if self.failure is not None:
                self.ctx.check('what a part raises is raised', err is self.failure or err.value is self.failure.value, str(err))
                self.ctx.cover('a part raises')
                raise __import__('pvc.engine', fromlist=['PathEnd']).PathEnd('a part raised')
            return None, err
        self.ctx.check('what a part raises is raised', self.failure is None)
        for s, d in self.stacks.items():
            self.ctx.check('every part leaves the context as it was', d.intact(), '%s: %r' % (s, d.items))
        return r, None
    def same_text(self, a, b):
        import z3
        r = self.interp.eq(a, b)
        return r if isinstance(r, bool) else r.z
    def reported(self, err, cls, positions):
        """An error of the class, with the number of one of these lines"""
        import z3
        self.ctx.check('an unknown name raises %s' % cls.__name__, err is not None and issubclass(err.cls, cls), str(err))
        if err is None:
            return
        lines = [self.line_of(p) for p in positions]
        found = []
        for a in err.pyargs:
            z = getattr(a, 'z', None)
            if z is not None:
                walk_terms(z, lambda t: found.append(t.arg(0)) if z3.is_app(t) and t.decl().name() == 'decimal' else None)
        self.ctx.check('the message has a line number', len(found) > 0, repr(err.pyargs))
        if found:
            self.ctx.check('the line number is that of the statement', z3.Or(*[f == l for f in found for l in lines]), repr(err.pyargs))


class Token(object):
    def __init__(self, label):
        self.label = label
    def __repr__(self):
        return '<%s>' % self.label


def has_symbol(v):
    from pvc.values import has_sym
    return has_sym(v)


def walk_terms(z, f):
    f(z)
    for c in z.children():
        walk_terms(c, f)


def proofs(mode):
    import z3
    from vrml import node, field, protofunctions
    from vrml.vrml97 import parseprocessor
    from pvc.values import SStr, SInt, SAny, LazyList, Model, V, Obj
    from pvc.engine import PyExc, PathEnd
    from pvc import loops, models
    out = []

    # ------------------------------------------------------------ USE
    def use(ctx):
        w = World(ctx)
        t = w.token('USE')
        r, err = w.run('USE', t)
        asked = w.of('getDEF')
        ctx.check('the name used is looked up in the innermost scene', len(asked) == 1 and asked[0][1] is w.scene, repr(asked))
        if not asked:
            return
        ctx.check('the name looked up is the one given', w.same_text(asked[0][2], w.name_of(t)))
        if asked[0][3] is None:
            ctx.cover('undefined')
            w.reported(err, NameError, [t[1]])
        else:
            ctx.cover('defined')
            ctx.check('USE is the very node', err is None and r is asked[0][3], repr(r))
        ctx.check('USE changes nothing', not [e for e in w.events if e[0] != 'getDEF'] and not dict_writes(ctx))
    out.append(('USE', use, dict(covers=['defined', 'undefined'])))

    # ------------------------------------------------------------ ROUTE
    def route(ctx):
        w = World(ctx)
        parts = [w.token('name') for i in range(4)]
        t = w.token('ROUTE', w.interp.make(list(parts)))
        r, err = w.run('ROUTE', t)
        names = [w.name_of(p) for p in parts]
        def node_named(name):
            return w.get_def(w.interp, [w.scene, name], {})
        asked = w.of('getDEF')
        ctx.check('names of routes are looked up in the innermost scene', all(e[1] is w.scene for e in asked))
        if err is not None:
            ctx.cover('undefined')
            ctx.check('only undefined names fail', any(e[3] is None for e in asked), str(err))
            w.reported(err, NameError, [t[1]] + [p[1] for p in parts])
            ctx.check('a route that fails adds nothing', not w.of('ROUTE'))
            # an end that fails is one of those given
            for e in asked:
                if e[3] is None:
                    ctx.check('the undefined name is an end of the route', z3.Or(w.same_text(e[2], names[0]), w.same_text(e[2], names[2])))
            return
        s, d = node_named(names[0]), node_named(names[2])
        ctx.cover('route')
        made, added = w.of('route'), w.of('ROUTE')
        ctx.check('both ends are defined', s is not None and d is not None)
        ctx.check('one route is made and added to the innermost scene', len(made) == 1 and len(added) == 1 and added[0][1] is w.scene and added[0][2] is made[0][1], repr(w.events))
        if len(made) == 1:
            kw = made[0][2]
            ctx.check('the route leads from the node to the node named', kw.get('source') is s and kw.get('destination') is d, repr(kw))
            ctx.check('the fields are those named', z3.And(w.same_text(kw.get('sourceField'), names[1]), w.same_text(kw.get('destinationField'), names[3])), repr(kw))
        ctx.check('a ROUTE is no node of the scene', not is_node(ctx, r), repr(r))
    def is_node(ctx, r):
        return r is not None and not isinstance(r, (str, int, SStr, SInt))
    out.append(('ROUTE', route, dict(covers=['undefined', 'route'])))

    # ------------------------------------------------------------ Node
    def parts_of(ctx, w, heads):
        """The parts of a statement: those heads, and any others"""
        n = ctx.int('parts').z
        ctx.assume(n >= 0)
        A, B = [z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('part start', 'part stop')]
        Tag = z3.Function('part tag', z3.IntSort(), z3.StringSort())
        k = len(heads)
        def item(j):
            j = z3.simplify(j) if z3.is_expr(j) else z3.IntVal(j)
            if z3.is_int_value(j) and j.as_long() < k:
                return heads[j.as_long()]
            if not ctx.feasible(j < k):
                return (SStr(Tag(z3.simplify(j - k))), SInt(A(z3.simplify(j - k))), SInt(B(z3.simplify(j - k))), None)
            for i in range(k):
                if ctx.branch(j == i):
                    return heads[i]
            return (SStr(Tag(j - k)), SInt(A(j - k)), SInt(B(j - k)), None)
        for t in ('name', 'nodegi'):
            ctx.forall.append(lambda j, t=t: Tag(j) != z3.StringVal(t))
        lst = LazyList(z3.simplify(n + k), item, 'parts')
        lst.rest = (n, Tag, A, B)
        return lst
    def rest_dispatched(ctx, w, parts, k, events, expect):
        """All parts behind the first k, and these only, are dispatched in order, each in the expected context"""
        lists = [e for e in events if e[0] in ('dispatchList', 'dispatch')]
        n, Tag, A, B = parts.rest
        total = z3.IntVal(0)
        for e in lists:
            ok = e[0] == 'dispatchList' and isinstance(e[1], LazyList)
            if not ok:
                ctx.check('the parts are dispatched', False, repr(e))
                return
            j = ctx.int('j').z
            ctx.assume(z3.And(j >= 0, j < e[1].n))
            x = e[1].item(j)
            ctx.check('every part is dispatched in its place', isinstance(x, tuple) and isinstance(x[1], SInt) and ctx_equal(x[1].z, A(z3.simplify(j + total))), repr(x))
            total = z3.simplify(total + e[1].n)
            for s, want in expect.items():
                ctx.check('parts are read in the context of their node', [id(v) for v in e[2][s]] == [id(v) for v in want], '%s: %r' % (s, e[2][s]))
        ctx.check('all parts are dispatched', total == n)
    def ctx_equal(a, b):
        return z3.is_true(z3.simplify(a == b)) or (a == b)
    def node_handler(named):
        def run(ctx):
            w = World(ctx)
            heads = ([w.token('name')] if named else []) + [w.token('nodegi')]
            parts = parts_of(ctx, w, heads)
            t = w.token('Node', parts)
            if named:
                ctx.assume(z3.Length(w.name_of(heads[0]).z) > 0)
            r, err = w.run('Node', t)
            asked = w.of('getProto')
            ctx.check('the type is looked up in the innermost scene', len(asked) >= 1 and all(e[1] is w.scene for e in asked), repr(asked))
            if not asked:
                return
            ctx.check('the type looked up is the one given', z3.And(*[w.same_text(e[2], w.name_of(heads[-1])) for e in asked]))
            if asked[0][3] is None:
                ctx.cover('undefined')
                w.reported(err, NameError, [t[1]] + [h[1] for h in heads])
                ctx.check('nothing is made of an undeclared type', not w.made and not w.of('DEF'))
                return
            ctx.cover('node')
            ctx.check('one node of the type is made', err is None and len(w.made) == 1 and r is w.made[0], repr((r, err)))
            if len(w.made) != 1:
                return
            n = w.made[0]
            kinds = [e[0] for e in w.events]
            first = min([i for i, k in enumerate(kinds) if k.startswith('dispatch')] + [len(kinds)])
            regs = w.of('DEF')
            if named:
                ctx.check('the node gets its name in the innermost scene', len(regs) == 1 and regs[0][1] is w.scene and regs[0][3] is n and kinds.index('DEF') < first, repr(regs))
                if regs:
                    ctx.check('the name is the one given', w.same_text(regs[0][2], w.name_of(heads[0])))
            else:
                ctx.check('a node without a name gets none', not regs, repr(regs))
            roots = w.of('root')
            ctx.check('the root of the node is the outermost scene', len(roots) == 1 and roots[0][1] is n and roots[0][2] is w.bottom and kinds.index('root') < first, repr(roots))
            start = w.stacks
            rest_dispatched(ctx, w, parts, len(heads), w.events, {'nodeStack': start['nodeStack'].start + [n], 'sceneGraphStack': start['sceneGraphStack'].start, 'prototypeStack': start['prototypeStack'].start,
                                                                  'fieldTypeStack': start['fieldTypeStack'].start})
        return run
    out.append(('Node with DEF', node_handler(True), dict(covers=['undefined', 'node'])))
    out.append(('Node', node_handler(False), dict(covers=['undefined', 'node'])))

    # ------------------------------------------------------------ Script
    class Maps(object):
        """Interface name -> the (node, field) it drives"""
        def __init__(self, ctx, w):
            from pvc.values import SDict
            self.table = SDict(True, 'mappings')
            self.held = []
            w.interp.contract(node.ismaps, self.get, 'ismaps')
            self.w, self.asked = w, []
        def get(self, interp, args, kwargs):
            self.asked.append(args[0])
            return self.table
        def given(self, key, some):
            """What was mapped before to key"""
            from pvc.values import ABSENT
            old = [Token('earlier mappings')] if some else None
            self.table.base.append([key, self.w.interp.make(list(old)) if some else ABSENT])
            return old or []
        def now(self, key):
            from pvc.values import ABSENT
            v = self.w.interp.dict_lookup(self.table, key)
            return None if v is ABSENT else v

    def script(named):
        # which lists collect attributes and pairs of names (over all paths), and what is made of them
        collects = {'Attr': set(), 'pairs': set(), 'read': set(), 'mapped': set()}
        def agree(ctx):
            ctx.check('what is collected for later is used for what it is', not (collects['Attr'] & collects['mapped']) and not (collects['pairs'] & collects['read']), repr(collects))
        def run(ctx):
            w = World(ctx)
            heads = [w.token('name')] if named else []
            parts = parts_of(ctx, w, heads)
            n, Tag, A, B = parts.rest
            DECLS = ('ScriptEventDecl', 'ScriptFieldDecl')
            ctx.assume(z3.And(Tag(0) != z3.StringVal('name'), Tag(0) != z3.StringVal('nodegi')))
            t = w.token('Script', parts)
            if named:
                ctx.assume(z3.Length(w.name_of(heads[0]).z) > 0)
            maps = Maps(ctx, w)
            interp = w.interp
            Mapped = z3.Function('interface', z3.IntSort(), z3.StringSort())
            MapField = z3.Function('mapped field', z3.IntSort(), z3.StringSort())
            state = {}
            def giving(table):
                tag = state.get('tag')
                if tag in DECLS:
                    f = ctx.obj(field.Field, 'declared', open=True, name='declared')
                    name = ctx.str('interface name') if ctx.choose([True, False]) else None
                    state['given'] = (f, name)
                    return (f, name)
                return ctx.any('result of a part')
            w.giving = giving
            def rule(interp, stmt, fr, items):
                if isinstance(items, LazyList) and (items is parts or getattr(items, 'part', (None,))[0] is parts):
                    return over_parts(interp, stmt, fr, items)
                if isinstance(items, LazyList) and hasattr(items, 'collected'):
                    collects['mapped'].add(items.collected)
                    state.setdefault('consumed', set()).add(items.collected)
                    agree(ctx)
                    return over_maps(interp, stmt, fr, items)
                return NotImplemented
            def over_parts(interp, stmt, fr, items):
                acc = {}
                used = {x.id for s in stmt.body for x in __import__('ast').walk(s) if isinstance(x, __import__('ast').Name)}
                def establish():
                    acc.update({k: v for k, v in fr.locals.items() if type(v) is list and not v and k in used})
                    state['before'] = len(w.events)
                def havoc(k):
                    for tag in DECLS + ('Attr', 'other'):
                        state['tag'] = tag
                    state['tag'] = tag = ctx.choose(list(DECLS) + ['Attr', 'other'])
                    if tag == 'other':
                        ctx.assume(z3.And(*[Tag(k) != z3.StringVal(x) for x in DECLS + ('Attr', 'name', 'nodegi')]), check=False)
                    else:
                        ctx.assume(Tag(k) == z3.StringVal(tag), check=False)
                    for name, v in acc.items():
                        del v[:]
                        v.append(Token(name))
                    state['before'] = len(w.events)
                    for c in list(vars(w.made[0].cls)):
                        if c == 'declared':
                            delattr(w.made[0].cls, c)
                    state.pop('given', None)
                def preserved(k):
                    new = w.events[state['before']:]
                    tag = state['tag']
                    done = [e for e in new if e[0].startswith('dispatch')]
                    added = dict((name, v[1:]) for name, v in acc.items())
                    ctx.check('what was collected is kept', all(len(v) >= 1 and isinstance(v[0], Token) for v in acc.values()))
                    mine = lambda x: isinstance(x, tuple) and isinstance(x[1], SInt) and ctx_equal(x[1].z, A(k))
                    if tag == 'Attr':
                        ctx.cover('attribute')
                        direct = len(done) == 1 and not any(added.values())
                        later = not done and [v for v in added.values() if v] and sum(len(v) for v in added.values()) == 1
                        ctx.check('an attribute is read once', bool(direct or later), repr((done, added)))
                        x = done[0][1] if direct else [v[0] for v in added.values() if v][0] if later else None
                        ctx.check('an attribute is read in its place', mine(x), repr(x))
                        if later:
                            collects['Attr'].update(name for name, v in added.items() if v)
                            agree(ctx)
                        if direct:
                            ctx.check('attributes are those of the script', done[0][2]['nodeStack'][-1] is w.made[0])
                        return
                    ctx.check('every part is read once', len(done) == 1 and mine(done[0][1]), repr(done))
                    if tag in DECLS and 'given' in state:
                        ctx.cover('declaration')
                        f, name = state['given']
                        ctx.check('what is declared is a member of the type of the script', vars(w.made[0].cls).get('declared') is f, repr(vars(w.made[0].cls)))
                        rest = [x for v in added.values() for x in v]
                        if name is not None:
                            ok = len(rest) == 1 and isinstance(rest[0], tuple) and len(rest[0]) == 2 and rest[0][0] is name and rest[0][1] == 'declared'
                            direct = False
                            if not rest and maps.asked:
                                v = maps.now(name)
                                direct = isinstance(v, list) and len(v) >= 1 and isinstance(v[-1], tuple) and v[-1][0] is w.made[0] and v[-1][1] == 'declared'
                            ctx.check('the interface a declaration refers to is mapped to it', ok or direct, repr(rest))
                            if ok:
                                ctx.cover('mapping')
                                collects['pairs'].update(m for m, v in added.items() if v)
                                agree(ctx)
                        else:
                            ctx.check('declarations without IS map nothing', not rest or not [x for x in rest if isinstance(x, tuple)], repr(rest))
                    else:
                        ctx.cover('statement')
                r = loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
                for name, v in acc.items():
                    m = ctx.int('collected').z
                    ctx.assume(m >= 0)
                    L = LazyList(m, lambda j: (SStr(Mapped(j)), SStr(MapField(j))), 'collected ' + name)
                    L.collected = name
                    state.setdefault('collected', {})[name] = L
                    fr.locals[name] = L
                return r
            def over_maps(interp, stmt, fr, L):
                got = {}
                def havoc(k):
                    got['some'] = ctx.choose([True, False])
                    got['old'] = maps.given(SStr(Mapped(k)), got['some'])
                def preserved(k):
                    ctx.cover('mapped')
                    v = maps.now(SStr(Mapped(k)))
                    ok = isinstance(v, list) and len(v) == len(got['old']) + 1 and isinstance(v[-1], tuple) and v[-1][0] is w.made[0] and isinstance(v[-1][1], SStr) and z3.eq(v[-1][1].z, MapField(k))
                    ctx.check('the interface drives the field of this node, besides those it drove', ok, repr(v))
                    ctx.check('mappings are those of the innermost prototype', all(a is w.proto for a in maps.asked) and maps.asked)
                return loops.by_invariant(interp, stmt, fr, L, lambda: None, havoc, preserved)
            interp.loop_specs.insert(0, rule)
            old_any = interp.call_any
            r, err = w.run('Script', t)
            if not w.made:
                ctx.check('a script is made', False)
                return
            ctx.cover('script')
            s = w.made[0]
            ctx.check('one script is made', err is None and len(w.made) == 1 and r is s, repr((r, err)))
            kinds = [e[0] for e in w.events]
            first = min([i for i, k in enumerate(kinds) if k.startswith('dispatch')] + [len(kinds)])
            regs = w.of('DEF')
            if named:
                ctx.check('the script gets its name in the innermost scene', len(regs) == 1 and regs[0][1] is w.scene and regs[0][3] is s and kinds.index('DEF') < first, repr(regs))
                if regs:
                    ctx.check('the name is the one given', w.same_text(regs[0][2], w.name_of(heads[0])))
            else:
                ctx.check('a script without a name gets none', not regs, repr(regs))
            roots = w.of('root')
            ctx.check('the root of the script is the outermost scene', len(roots) == 1 and roots[0][1] is s and roots[0][2] is w.bottom and kinds.index('root') < first, repr(roots))
            # what was collected for later is read then, all of it, as attributes of the script
            for e in w.of('dispatchList'):
                ok = hasattr(e[1], 'collected')
                ctx.check('the attributes are read in the context of the script', ok and len(e[2]['nodeStack']) == 2 and e[2]['nodeStack'][-1] is s, repr(e))
                if ok:
                    state.setdefault('consumed', set()).add(e[1].collected)
                    collects['read'].add(e[1].collected)
                    agree(ctx)
            for name, L in state.get('collected', {}).items():
                if name not in state.get('consumed', ()):
                    ctx.check('all that is collected is used', L.n == 0, name)
        return run
    out.append(('Script with DEF', script(True), dict(covers=['script', 'attribute', 'declaration', 'statement', 'mapping', 'mapped'])))
    out.append(('Script', script(False), dict(covers=['script', 'attribute', 'declaration', 'statement', 'mapping', 'mapped'])))

    # ------------------------------------------------------------ attributes
    class AnyField(field.Field):
        """A field of any type"""
        def fset(self, client, value, notify=1):
            raise NotImplementedError
        def typeName(self):
            raise NotImplementedError
    def attribute(prototyped, is_map):
        def run(ctx):
            cls = type('Client', (node.PrototypedNode, node.Node) if prototyped else (node.Node,), {})
            client = ctx.obj(cls, 'client', open=True)
            w = World(ctx, client=client)
            interp = w.interp
            maps = Maps(ctx, w)
            type_name = ctx.str('type name')
            written = []
            def fset(interp, args, kwargs):
                kw = dict(zip(('self', 'client', 'value', 'notify'), args))
                kw.update(kwargs)
                written.append(kw)
                w.events.append(('set', kw))
                return kw.get('value')
            interp.contract(AnyField.fset, fset, 'Field.fset (C01)')
            interp.contract(AnyField.typeName, lambda interp, args, kwargs: type_name, 'typeName')
            kind = ctx.choose(['field', 'event', 'other', 'unknown'])
            f = {'field': ctx.obj(AnyField, 'field', open=True), 'event': ctx.obj(field.Event, 'event', open=True), 'other': ctx.any('member', type(len)), 'unknown': None}[kind]
            asked = []
            def get_field(interp, args, kwargs):
                asked.append(args)
                if kind == 'unknown':
                    interp.raise_(AttributeError, 'no such field')
                return f
            interp.contract(protofunctions.getField, get_field, 'getField (C20)')
            interp.contract(protofunctions.protoName, lambda interp, args, kwargs: ctx.str('type'), 'protoName')
            name = w.token('name')
            map_name = ctx.str('interface')
            value = w.token('IS' if is_map else 'Field')
            if is_map:
                w.giving = lambda table: map_name
                w.one_only_raises = False
                some = ctx.choose([True, False])
                old = maps.given(map_name, some)
            t = w.token('Attr', (name, value))
            r, err = w.run('Attr', t)
            ctx.check('the attribute is looked up in the innermost node', len(asked) >= 1 and all(a[0] is client for a in asked), repr(asked))
            if asked:
                ctx.check('the name looked up is the one given', w.same_text(asked[0][1], w.name_of(name)))
            if kind in ('unknown', 'other') or (kind == 'event' and not is_map):
                ctx.cover('undefined')
                w.reported(err, AttributeError, [t[1], name[1]])
                ctx.check('nothing is written for an unknown name', not written and not maps.asked)
                return
            ctx.check('what is defined does not fail', err is None, str(err))
            if is_map:
                ctx.cover('IS')
                v = maps.now(map_name)
                ok = isinstance(v, list) and len(v) == len(old) + 1 and isinstance(v[-1], tuple) and v[-1][0] is client
                ctx.check('the interface drives the attribute of this node, besides those it drove', ok, repr(v))
                if ok:
                    ctx.check('the attribute driven is the one given', w.same_text(v[-1][1], w.name_of(name)))
                ctx.check('the mapping is one of the innermost prototype', maps.asked and all(a is w.proto for a in maps.asked))
                ctx.check('nothing is written yet', not written)
                return
            ctx.cover('value')
            ctx.check('the value is read once', len(w.results) == 1 and w.results[0][0] is value, repr(w.results))
            if len(w.results) != 1:
                return
            reads = w.of('dispatch')
            stack = reads[0][2]['fieldTypeStack']
            before = w.stacks['fieldTypeStack'].start
            ctx.check('the value is read as one of the type of the field', len(stack) == len(before) + 1 and stack[-1] is type_name, repr(stack))
            ctx.check('the value goes to the field named, of this node, once', len(written) == 1 and written[0]['self'] is f and written[0]['client'] is client and written[0]['value'] is w.results[0][1], repr(written))
            if prototyped and written:
                ctx.check('what drives parts of a prototype is announced', bool(written[0].get('notify', 1)))
        return run
    for prototyped in (False, True):
        for is_map in (False, True):
            out.append(('Attr %s%s' % ('IS ' if is_map else '', 'of a prototyped node' if prototyped else 'of a node'), attribute(prototyped, is_map), dict(covers=['undefined', 'IS' if is_map else 'value'])))

    # ------------------------------------------------------------ values
    def value(ctx):
        kind = ctx.choose(['SFNode', 'MFNode', 'WeakSFNode', 'RootScenegraphNode'][:2])
        w = World(ctx, field_type=kind)
        first = ctx.choose(['none', 'USE', 'Script', 'Node', 'SFNull'])
        if first == 'none':
            if kind == 'SFNode':
                raise PathEnd('no value')
            parts = ctx.choose([None, w.interp.make([])])
        else:
            parts = parts_of(ctx, w, [w.token(first)])
        t = w.token('Field', parts)
        r, err = w.run('Field', t)
        ctx.check('values are read', err is None, str(err))
        if first == 'none':
            ctx.cover('empty')
            ctx.check('an empty list of nodes is read', isinstance(r, list) and not r, repr(r))
        elif kind == 'SFNode':
            ctx.cover('node')
            ctx.check('the value is the node written', len(w.results) == 1 and w.results[0][0] is parts.item(z3.IntVal(0)) and r is w.results[0][1], repr((r, w.results)))
        else:
            ctx.cover('nodes')
            lists = w.of('dispatchList')
            ok = len(lists) == 1 and isinstance(lists[0][1], LazyList) and r is w.results[0][1]
            ctx.check('the value is the nodes written, in order', ok, repr((r, w.events)))
            if ok:
                ctx.check('all of them', lists[0][1] is parts or (lists[0][1].n == parts.n and getattr(lists[0][1], 'part', (None, None))[0] is parts))
    out.append(('Field of nodes', value, dict(covers=['empty', 'node', 'nodes'])))

    def null(ctx):
        w = World(ctx)
        r, err = w.run('SFNull', w.token('SFNull'))
        ctx.check('NULL is NULL', err is None and r is node.NULL, repr(r))
    out.append(('SFNull', null, dict(covers=[])))

    def is_(ctx):
        w = World(ctx)
        name = w.token('name')
        r, err = w.run('IS', w.token('IS', w.interp.make([name])))
        ctx.check('IS gives the name written', err is None)
        ctx.check('the name of IS', w.same_text(r, w.name_of(name)))
        ctx.check('IS changes nothing', not w.events)
    out.append(('IS', is_, dict(covers=[])))

    # ------------------------------------------------------------ scenes
    def root_item(ctx):
        w = World(ctx)
        from vrml import olist
        kind = ctx.choose(['node', 'nothing', 'null'])
        n = ctx.obj(type('Child', (node.Node,), {}), 'child', open=True)
        given = {'node': n, 'nothing': None, 'null': None}[kind]
        w.giving = lambda table: given
        children = ctx.slist('children')
        before = children.seq
        from vrml.vrml97 import scenegraph
        asked = []
        def get_children(interp, o):
            asked.append(o)
            return children
        w.interp.class_contracts['attr', scenegraph.SceneGraph, 'children'] = get_children
        part = w.token('Node')
        r, err = w.run('rootItem', w.token('rootItem', w.interp.make([part])))
        ctx.check('items are read', err is None, str(err))
        ctx.check('each item is read once', [x[0] for x in w.results] == [part])
        ctx.check('items are those of the innermost scene', all(o is w.scene for o in asked))
        want = z3.Concat(before, z3.Unit(w.interp.to_v(n))) if kind == 'node' else before
        ctx.cover(kind)
        ctx.check('a node of a scene is one more child of it, others are none', children.seq == want)
    out.append(('rootItem', root_item, dict(covers=['node', 'nothing'])))

    def scene(nested):
        def run(ctx):
            w = World(ctx, fresh=not nested)
            parts = parts_of(ctx, w, [])
            base = w.interp.get_attr(w.P, 'basePrototypes')
            base['Group'] = ctx.any('Group', type)
            held = dict(base)
            r, err = w.run('vrmlScene', w.token('vrmlScene', parts))
            made = w.of('scene')
            ctx.cover('scene')
            ctx.check('one scene is made', err is None and len(made) == 1 and r is made[0][1], repr((r, err)))
            if len(made) != 1:
                return
            kw = made[0][2]
            if nested:
                ctx.check('scenes of prototypes are enclosed in the scene around them', kw.get('root') is w.scene, repr(kw))
                p = kw.get('protoTypes')
                ctx.check('scenes of prototypes have prototypes of their own', p is None, repr(p))
            else:
                ctx.check('the scene of the file is enclosed in none', kw.get('root') is None, repr(kw))
                p = kw.get('protoTypes')
                ctx.check('the scene of the file knows the types given', isinstance(p, dict) and len(p) == len(held) and all(p.get(k) is v for k, v in held.items()), repr(p))
                ctx.check('the types given are not changed by the file', p is not base)
            start = w.stacks
            rest_dispatched(ctx, w, parts, 0, w.events, {'sceneGraphStack': start['sceneGraphStack'].start + [r], 'nodeStack': start['nodeStack'].start, 'prototypeStack': start['prototypeStack'].start})
        return run
    out.append(('scene of a file', scene(False), dict(covers=['scene'])))
    out.append(('scene of a prototype', scene(True), dict(covers=['scene'])))

    # ------------------------------------------------------------ prototypes
    def proto(external):
        def run(ctx):
            w = World(ctx)
            from vrml import protofunctions
            made = []
            class Proto(node.PrototypedNode, node.Node):
                pass
            def prototype(interp, args, kwargs):
                made.append((args, kwargs))
                return Proto
            w.interp.contract(node.prototype, prototype, 'prototype()')
            w.interp.contract(protofunctions.setSceneGraph, lambda interp, args, kwargs: w.event('body', *args), 'setSceneGraph')
            w.interp.contract(protofunctions.setExternalURL, lambda interp, args, kwargs: w.event('url', *args), 'setExternalURL')
            name, body = w.token('nodegi'), w.token('vrmlScene' if not external else 'ExtProtoURL')
            m = ctx.int('declarations').z
            ctx.assume(m >= 0)
            A = z3.Function('declaration start', z3.IntSort(), z3.IntSort())
            def item(j):
                j = z3.simplify(j) if z3.is_expr(j) else z3.IntVal(j)
                if ctx.branch(j == 0):
                    return name
                if ctx.branch(j == m + 1):
                    return body
                return ('fieldDecl', SInt(A(j)), ctx.int('stop'), None)
            parts = LazyList(m + 2, item, 'parts')
            t = w.token('ExternProto' if external else 'Proto', parts)
            r, err = w.run(t[0], t)
            ctx.cover('prototype')
            ctx.check('declaring a prototype does not fail', err is None, str(err))
            ctx.check('one prototype is made', len(made) == 1)
            if len(made) != 1:
                return
            ctx.check('the prototype has the name given', w.same_text(made[0][0][0], w.name_of(name)))
            added = w.of('PROTO')
            ctx.check('the prototype is declared in the innermost scene', len(added) == 1 and added[0][1] is w.scene and added[0][2] is Proto, repr(added))
            kind = 'url' if external else 'body'
            bodies = w.of(kind)
            read = [x for x in w.results if x[0] is body]
            ctx.check('the body is read once and is that of the prototype', len(read) == 1 and len(bodies) == 1 and bodies[0][1] is Proto and bodies[0][2] is read[0][1], repr(bodies))
            kinds = [e[0] for e in w.events]
            dispatched = [i for i, e in enumerate(w.events) if e[0].startswith('dispatch')]
            if not external and added:
                ctx.check('a prototype is not in scope in its own body', kinds.index('PROTO') > max(dispatched))
            for i in dispatched:
                e = w.events[i]
                s = w.stacks['prototypeStack'].start + [Proto]
                ctx.check('what is declared is that of the prototype', [id(x) for x in e[2]['prototypeStack']] == [id(x) for x in s], repr(e[2]))
            lists = [e for e in w.events if e[0] == 'dispatchList']
            total = z3.IntVal(0)
            for e in lists:
                ok = isinstance(e[1], LazyList)
                ctx.check('declarations are read', ok)
                if not ok:
                    return
                j = ctx.int('j').z
                ctx.assume(z3.And(j >= 0, j < e[1].n))
                x = e[1].item(j)
                ctx.check('every declaration is read in its place', x is not name and x is not body and ctx_equal(x[1].z, A(z3.simplify(j + 1 + total))), repr(x))
                total = z3.simplify(total + e[1].n)
            ctx.check('all declarations are read', total == m)
            if lists:
                ctx.check('declarations are read in front of the body', kinds.index('dispatchList') < kinds.index('dispatch'))
            ctx.check('a prototype is no node of the scene', not isinstance(r, Obj))
        return run
    out.append(('Proto', proto(False), dict(covers=['prototype'])))
    out.append(('ExternProto', proto(True), dict(covers=['prototype'])))

    import declared
    out.append(('addRoute', declared.routes, dict(covers=['route', 'four', 'three'])))
    out.append(('newField', declared.members(False), dict(covers=['made'])))
    out.append(('newEvent', declared.members(True), dict(covers=['made'])))
    out.append(('names of types', declared.table_of_types, dict(covers=['types'])))
    out.append(('prototype()', declared.prototypes, dict(covers=['member', 'no member', 'PROTO'])))
    out.append(('addField', declared.added, dict(covers=['added'])))
    out.append(('mappings of prototypes', declared.mappings, dict(covers=['tables'])))
    out.append(('scenes and addresses of prototypes', declared.of_prototypes, dict(covers=['SceneGraph', 'ExternalURL'])))
    out.append(('Script()', declared.scripts, dict(covers=['made'])))
    out.append(('a new processor', declared.processor_made, dict(covers=['nothing', 'none', 'table'])))

    # ------------------------------------------------------------ declarations
    def declaration(handler):
        def run(ctx):
            w = World(ctx)
            script = handler.startswith('Script')
            event = 'event' in handler.lower()
            first, dtype, name = w.token('eventDirection' if event else 'fieldExposure'), w.token('dataType'), w.token('name')
            parts = [first, dtype, name]
            mapped = False
            v = None
            if handler in ('fieldDecl', 'ScriptFieldDecl'):
                mapped = script and ctx.choose([True, False])
                if mapped:
                    v = w.token('IS', w.interp.make([w.token('name')]))
                else:
                    v = w.token('Field')
                parts.append(v)
            elif handler == 'ScriptEventDecl' and ctx.choose([True, False]):
                mapped = True
                v = w.token('IS', w.interp.make([w.token('name')]))
                parts.append(v)
            if mapped:
                interface = w.name_of(v[3][0])
                w.giving = lambda table: interface
            made = []
            def maker(kind):
                keys = ('name', 'dataType', 'exposure', 'default') if kind == 'field' else ('name', 'dataType', 'direction')
                def make(interp, args, kwargs):
                    kw = dict(zip(keys, args))
                    kw.update(kwargs)
                    f = ctx.obj(field.Field if kind == 'field' else field.Event, 'new ' + kind, open=True)
                    made.append((kind, kw, f))
                    return f
                return make
            w.interp.contract(field.newField, maker('field'), 'newField')
            w.interp.contract(field.newEvent, maker('event'), 'newEvent')
            w.interp.contract(protofunctions.addField, lambda interp, args, kwargs: w.event('add', *args), 'addField')
            t = w.token(handler, w.interp.make(parts) if len(parts) > 4 or ctx.choose([True, False]) else tuple(parts))
            r, err = w.run(handler, t)
            ctx.cover('declared')
            ctx.check('declarations do not fail', err is None, str(err))
            ctx.check('one member is made', len(made) == 1 and made[0][0] == ('event' if event else 'field'), repr(made))
            if len(made) != 1:
                return
            kind, kw, f = made[0]
            ctx.check('it has the name and type given', z3.And(w.same_text(kw['name'], w.name_of(name)), w.same_text(kw['dataType'], w.name_of(dtype))), repr(kw))
            words = ('eventOut', 'outputOnly') if event else ('exposedField', 'inputOutput')
            flag = kw.get('direction' if event else 'exposure', 1)
            want = z3.Or(*[w.same_text(w.name_of(first), word) for word in words])
            got = flag.z if hasattr(flag, 'z') else z3.BoolVal(bool(flag))
            ctx.check('it is what the keyword says', (got if z3.is_bool(got) else got != 0) == want, repr(flag))
            reads = [e for e in w.events if e[0] == 'dispatch']
            if v is not None and not mapped:
                ctx.cover('value')
                ctx.check('the default is the value written', len(w.results) == 1 and w.results[0][0] is v and kw.get('default') is w.results[0][1], repr(kw))
                stack = w.of('dispatch')[0][2]['fieldTypeStack'] if reads else []
                before = w.stacks['fieldTypeStack'].start
                ctx.check('the default is read as a value of the type', len(stack) == len(before) + 1 and w.same_text(stack[-1], w.name_of(dtype)), repr(stack))
            else:
                ctx.check('nothing else is a default', 'default' not in kw, repr(kw))
            if script:
                ctx.check('the member and what is mapped to it are handed back', isinstance(r, tuple) and len(r) == 2 and r[0] is f and (r[1] is None) == (not mapped), repr(r))
                if mapped and isinstance(r, tuple):
                    ctx.cover('mapped')
                    ctx.check('the name mapped is the one given', w.same_text(r[1], interface))
            else:
                added = w.of('add')
                ctx.check('it is a member of the innermost prototype', len(added) == 1 and added[0][1] is w.proto and added[0][2] is f, repr(added))
        return run
    for handler, covers in (('fieldDecl', ['value']), ('extFieldDecl', []), ('eventDecl', []), ('ScriptFieldDecl', ['value', 'mapped']), ('ScriptEventDecl', ['mapped'])):
        out.append((handler, declaration(handler), dict(covers=['declared'] + covers)))

    # ------------------------------------------------------------ statements of the language
    import grammar as g
    class Names(object):
        """Words by the names the test gives them"""
        def __init__(self):
            self.words = {}
        def word(self, label):
            self.words[label] = g.Word()
            return self.words[label]
    def text_of(ctx, names, source):
        """A statement: words of the source are literal, %x is any name, _ some blank, ~ any blanks"""
        import re
        segs = []
        for p in re.findall(r'(?s)%\w|_|~|.', source):
            if p[0] == '%' and len(p) == 2:
                segs.append(names.word(p[1]))
            elif p == '_':
                segs += [g.Char(BLANK), g.Run(BLANK)]
            elif p == '~':
                segs.append(g.Run(BLANK))
            else:
                segs += g.lit(p)
        return segs
    def shape(text, names, n):
        """The tree with names for the words"""
        a, b = text.ahead(n.start), n.stop
        mine = None
        for label, w in names.words.items():
            if text.ahead(w) is a and text.resolve(w.next) is text.resolve(b):
                mine = label
        if mine is not None and n.tag in ('name', 'nodegi', 'USE', 'IS', 'dataType'):
            return '%s=%s' % (n.tag, mine)
        kids = [shape(text, names, c) for c in n.children]
        if not kids:
            known = text.string(n.start, n.stop) if n.tag not in ('rootItem', 'vrmlScene', 'Field') else ''
            return '%s=%r' % (n.tag, known) if known else n.tag
        return '%s(%s)' % (n.tag, ' '.join(kids))
    def statement(production, source, want, follow):
        def run(ctx):
            names = Names()
            end = g.Char(follow)
            text = g.Text(ctx, text_of(ctx, names, source) + [end])
            try:
                r = g.Peg(ctx, text).production(production, text.start)
            except g.Refused as err:
                ctx.check('the statement is no syntax error', False, '%s: %s' % (source, err))
                return
            except g.Unknown as err:
                ctx.interp = None
                raise __import__('pvc.engine', fromlist=['x']).Unsupported('grammar: %s' % err)
            ctx.cover('read')
            ctx.check('the statement is read', r is not None, source)
            if r is None:
                return
            ctx.check('the statement is read up to its end', text.ahead(r[0]) is text.ahead(end), source)
            got = shape(text, names, r[1])
            ctx.check('the tree has the names written, in their places', got == want, '%s for %s' % (got, source))
        return run
    item = lambda x: 'rootItem(%s)' % x
    for label, production, source, want in [
            ('DEF', 'rootItem', 'DEF_%a_%b~{~}', item('Node(name=a nodegi=b)')),
            ('node', 'rootItem', '%b~{~}', item('Node(nodegi=b)')),
            ('DEF Script', 'rootItem', 'DEF_%a_Script~{~}', item('Script(name=a)')),
            ('Script', 'rootItem', 'Script{}', item("Script='Script{}'")),
            ('USE', 'rootItem', 'USE_%a_', item('USE=a')),
            ('ROUTE', 'rootItem', 'ROUTE_%a.%b_TO_%c.%d_', item('ROUTE(name=a name=b name=c name=d)')),
            ('node as value', 'Field', '%b~{~}\n', 'Field(Node(nodegi=b))'),
            ('DEF as value', 'Field', 'DEF_%a_%b~{~}\n', 'Field(Node(name=a nodegi=b))'),
            ('DEF Script as value', 'Field', 'DEF_%a_Script~{~}\n', 'Field(Script(name=a))'),
            ('USE as value', 'Field', 'USE_%a\n', 'Field(USE=a)'),
            ('NULL as value', 'Field', 'NULL\n', "Field(SFNull='NULL\\n')"),
            ('list of nodes', 'Field', '[%a{}_%b{}]', 'Field(Node(nodegi=a) Node(nodegi=b))'),
            ('list of uses', 'Field', '[~USE_%a_USE_%b_]', 'Field(USE=a USE=b)'),
            ('attribute', 'Node', 'Box~{~%a_USE_%b_}', "Node(nodegi(name='Box') Attr(name=a Field(USE=b)))"),
            ('attribute with IS', 'Node', 'Box~{~%a_IS_%b_}', "Node(nodegi(name='Box') Attr(name=a IS=b))"),
            ('attribute with a node', 'Node', 'Box{%a_%b{}}', "Node(nodegi(name='Box') Attr(name=a Field(Node(nodegi=b))))"),
            ('attributes', 'Node', 'Box{%a 0 %b NULL }', "Node(nodegi(name='Box') Attr(name=a Field(SFNumber='0')) Attr(name=b Field(SFNull='NULL ')))"),
            ('ROUTE in a node', 'Node', 'Box~{~ROUTE_%a.%b_TO_%c.%d_}', "Node(nodegi(name='Box') ROUTE(name=a name=b name=c name=d))"),
            ('PROTO', 'rootItem', 'PROTO_%a~[~]~{~}', item('Proto(nodegi=a vrmlScene)')),
            ('PROTO with a field', 'rootItem', 'PROTO_%a~[~field_SFBool_%b_TRUE_]~{~}', item("Proto(nodegi=a fieldDecl(fieldExposure='field' dataType(name='Bool') name=b Field(SFBool='TRUE')) vrmlScene)")),
            ('PROTO with an exposedField', 'rootItem', 'PROTO_%a~[~exposedField_SFBool_%b_TRUE_]~{~}', item("Proto(nodegi=a fieldDecl(fieldExposure='exposedField' dataType(name='Bool') name=b Field(SFBool='TRUE')) vrmlScene)")),
            ('PROTO with an eventIn', 'rootItem', 'PROTO_%a~[~eventIn_SFBool_%b_]~{~}', item("Proto(nodegi=a eventDecl(eventDirection='eventIn' dataType(name='Bool') name=b) vrmlScene)")),
            ('PROTO with an eventOut', 'rootItem', 'PROTO_%a~[~eventOut_SFBool_%b_]~{~}', item("Proto(nodegi=a eventDecl(eventDirection='eventOut' dataType(name='Bool') name=b) vrmlScene)")),
            ('PROTO with a node', 'rootItem', 'PROTO_%a[]{%b{}}', item('Proto(nodegi=a vrmlScene(rootItem(Node(nodegi=b))))')),
            ('EXTERNPROTO', 'rootItem', 'EXTERNPROTO_%a~[~field_SFBool_%b_]~[~"u"~]', item("ExternProto(nodegi=a extFieldDecl(fieldExposure='field' dataType(name='Bool') name=b) ExtProtoURL(SFString(CHARNODBLQUOTE='u')))")),
            ('Script with a field', 'Script', 'Script~{~field_SFBool_%a_TRUE_}', "Script(ScriptFieldDecl(fieldExposure='field' dataType(name='Bool') name=a Field(SFBool='TRUE')))"),
            ('Script with IS', 'Script', 'Script~{~field_SFBool_%a_IS_%b_}', "Script(ScriptFieldDecl(fieldExposure='field' dataType(name='Bool') name=a IS=b))"),
            ('Script with an event', 'Script', 'Script~{~eventIn_SFBool_%a_}', "Script(ScriptEventDecl(eventDirection='eventIn' dataType(name='Bool') name=a))"),
            ('Script with an event with IS', 'Script', 'Script~{~eventOut_SFBool_%a_IS_%b_}', "Script(ScriptEventDecl(eventDirection='eventOut' dataType(name='Bool') name=a IS=b))"),
            ('Script with an attribute', 'Script', 'Script~{~%a_"u"_}', 'Script(Attr(name=a Field(SFString(CHARNODBLQUOTE=%r))))' % 'u'),
    ]:
        out.append(('language: ' + label, statement(production, source, want, '}'), dict(covers=['read'], max_paths=20000)))
        x3d = [source, want]
        for old, new in (('exposedField', 'inputOutput'), ("'field", "'initializeOnly"), ('_field_', '_initializeOnly_'), ('~field_', '~initializeOnly_'), ('eventIn', 'inputOnly'), ('eventOut', 'outputOnly')):
            x3d = [x.replace(old, new) for x in x3d]
        for s, t in [(source, want)] + [tuple(x3d)][:x3d != [source, want]]:
            out.append(('language, X3D: %s%s' % (label, '' if s is source else ' of X3D'), g.of_language('vrml200x', statement(production, s, t, '}')), dict(covers=['read'], max_paths=20000)))
    return out


# ---------------------------------------------------------------- whole files
NAMES = ['A', 'B', 'C', 'a', 'DEFx', 'DEF1', 'USEful', 'USE_', 'TRUEish', 'FALSEx', 'NULLs', 'ScriptX', 'ROUTEr', 'PROTOs', 'EXTERNPROTOx', 'ISx', 'TOx', 'TO', 'fields', 'eventInn', 'SFNode', 'MFx', 'Group', 'children', '_', 'caf\u00e9',
         'x-y', 'n:1', 'a+b', '<x>', 'sceneGraph']
TYPES = ['P', 'Q', 'R', 'DEFp', 'USEp', 'ScriptP', 'TRUEp', 'NULLp', 'ROUTEp', 'PROTOp', 'ISp', 'Group', 'Box', 'Script1', 'p', 'ROUTE_', 'fieldp', 'EXTERNPROTOp', 'sceneGraph', 'MFp']
MEMBERS = ['m', 'n', 'ISm', 'TRUEm', 'USEm', 'DEFm', 'ROUTEm', 'PROTOm', 'Scriptm', 'NULLm', 'fieldm', 'eventInm', 'size1', 'k']
BUILTIN = {
    'Group': {'children': 'MFNode'}, 'Transform': {'children': 'MFNode', 'translation': 'SFVec3f', 'scale': 'SFVec3f'}, 'Switch': {'choice': 'MFNode', 'whichChoice': 'SFInt32'},
    'Shape': {'geometry': 'SFNode', 'appearance': 'SFNode'}, 'Box': {'size': 'SFVec3f'}, 'Sphere': {'radius': 'SFFloat'}, 'TimeSensor': {'cycleInterval': 'SFTime', 'loop': 'SFBool'},
    'Text': {'string': 'MFString', 'length': 'MFFloat'}, 'WorldInfo': {'title': 'SFString', 'info': 'MFString'}, 'Anchor': {'url': 'MFString', 'children': 'MFNode', 'description': 'SFString'},
    'PositionInterpolator': {'key': 'MFFloat', 'keyValue': 'MFVec3f'}, 'Material': {'diffuseColor': 'SFColor', 'shininess': 'SFFloat'}, 'Appearance': {'material': 'SFNode'},
    'IndexedFaceSet': {'coord': 'SFNode', 'coordIndex': 'MFInt32', 'solid': 'SFBool'}, 'Coordinate': {'point': 'MFVec3f'},
}


class Expected(object):
    """A node written in a file"""
    def __init__(self, type_, name=''):
        self.type, self.name, self.values, self.script = type_, name, {}, None
    def __repr__(self):
        return '<%s %s>' % (self.type if isinstance(self.type, str) else self.type.name, self.name)


# the value of a field declared without one
UNKNOWN = ('unknown',)


class ExpectedProto(object):
    def __init__(self, name):
        self.name, self.fields, self.events, self.body, self.maps = name, {}, {}, None, {}
        self.url = None


class ExpectedScene(object):
    def __init__(self, outer=None):
        self.outer, self.children, self.routes, self.defs, self.protos = outer, [], [], {}, {}
    def proto(self, name):
        s = self
        while s is not None:
            if name in s.protos:
                return s.protos[name]
            s = s.outer
        return name if name in BUILTIN else None
    def types(self):
        out = dict((n, n) for n in BUILTIN)
        chain = []
        s = self
        while s is not None:
            chain.append(s)
            s = s.outer
        for s in reversed(chain):
            out.update(s.protos)
        return out


class Writer(object):
    """Writes a file at random and keeps what it means"""
    def __init__(self, rnd, bad):
        self.rnd, self.out, self.size = rnd, [], 0
        self.bad = bad              # how many references until one is broken (None: never)
        self.error = None           # (exception class, offsets) of the broken one
        self.budget = rnd.choice([4, 10, 25, 50])
        self.open = []              # nodes being written: as sources of routes they would pass on what is still to come
    def put(self, text):
        self.out.append(text)
        self.size += len(text)
    def blank(self, needed=True):
        r = self.rnd
        if not needed and r.random() < .5:
            return
        self.put(r.choice([' ', ' ', ' ', '\n', '\t', '  ', '\n\n', ',', ' # USE Z "\n', '#\n', ' \n\t', ', ', '\n# DEF X Y {\n', '\r\n'][:14 if needed else 11]))
    def word(self, text):
        at = self.size
        self.put(text)
        return at
    def breaks(self):
        """Is this the reference that is broken?"""
        if self.bad is None or self.error is not None:
            return False
        self.bad -= 1
        return self.bad < 0
    # -- statements
    def scene(self, scene, proto, depth):
        for i in range(self.rnd.choice([0, 1, 2, 3, 5] if depth else [1, 3, 5, 8])):
            self.blank(False)
            self.statement(scene, proto, depth, scene.children)
    def statement(self, scene, proto, depth, children):
        r = self.rnd
        self.budget -= 1
        kind = r.choice(['node', 'node', 'node', 'use', 'route', 'proto', 'script']) if self.budget > 0 else 'use'
        if kind == 'use':
            n = self.use(scene)
            if n is not None:
                children.append(n)
            self.blank()
        elif kind == 'route':
            self.route(scene)
        elif kind == 'proto' and depth < 3:
            self.proto(scene, depth)
        elif kind == 'script':
            n = self.script(scene, proto, depth)
            children.append(n)
        else:
            children.append(self.node(scene, proto, depth))
        self.blank(False)
    def use(self, scene):
        r = self.rnd
        if self.breaks():
            self.error = (NameError, [self.word('USE')])
            self.blank()
            self.error[1].append(self.word(self.missing(scene)[0]))
            return None
        if not scene.defs:
            return None
        self.put('USE')
        self.blank()
        name = r.choice(sorted(scene.defs))
        self.put(name)
        return scene.defs[name]
    def missing(self, scene):
        """A name the scene does not define (often one of another scene), the node it is elsewhere"""
        r = self.rnd
        others, s = {}, scene.outer
        while s is not None:
            for k in s.defs:
                others.setdefault(k, s.defs[k])
            for p in s.protos.values():
                for k in p.body.defs:
                    others.setdefault(k, p.body.defs[k])
            s = s.outer
        for p in scene.protos.values():
            for k in p.body.defs:
                others.setdefault(k, p.body.defs[k])
        others = dict((k, n) for k, n in others.items() if k not in scene.defs)
        if others and r.random() < .7:
            k = r.choice(sorted(others))
            return k, others[k]
        return r.choice([n for n in NAMES if n not in scene.defs]), None
    def route(self, scene):
        r = self.rnd
        broken = self.breaks()
        sources = [k for k in sorted(scene.defs) if scene.defs[k] not in self.open]
        if not (scene.defs and sources) and not broken:
            return
        ends = []
        at = self.word('ROUTE')
        which = r.choice([0, 1])
        for i in (0, 1):
            self.blank()
            if broken and (i == which or not (scene.defs if i else sources)):
                name, n = self.missing(scene)
                self.error = (NameError, [at, self.size])
                fields = (self.members(n) if n is not None else None) or ['x']
            else:
                name = r.choice(sorted(scene.defs) if i else sources)
                fields = self.members(scene.defs[name]) or ['nosuch']
            f = r.choice(fields)
            self.put(name + '.' + f)
            ends += [scene.defs.get(name), f]
            if i == 0:
                self.blank()
                self.put('TO')
        self.blank()
        if not broken:
            scene.routes.append(tuple(ends))
    def members(self, n):
        if n.script is not None:
            return sorted(n.script)
        if isinstance(n.type, str):
            return sorted(BUILTIN[n.type])
        return sorted(n.type.fields) + sorted(n.type.events)
    def interfaces(self, proto, t):
        """What a field of that type may be mapped to"""
        if proto is None:
            return []
        return sorted(k for m in (proto.fields, proto.events) for k in m if m[k][0] == t)
    def proto(self, scene, depth):
        r = self.rnd
        external = r.random() < .2
        self.put('EXTERNPROTO' if external else 'PROTO')
        self.blank()
        p = ExpectedProto(r.choice(TYPES))
        self.put(p.name)
        self.blank(False)
        self.put('[')
        used = set()
        for i in range(r.choice([0, 1, 2, 4])):
            m = r.choice(MEMBERS)
            if m in used:
                continue
            used.add(m)
            self.blank()
            self.declaration(scene, None, depth, m, p.fields, p.events, external=external)
        self.blank()
        self.put(']')
        self.blank(False)
        if external:
            p.body = ExpectedScene(scene)
            p.url = self.value(scene, None, depth, 'MFString')
            scene.protos[p.name] = p
            return
        self.put('{')
        self.blank(False)
        body = ExpectedScene(scene)
        p.body = body
        self.scene(body, p, depth + 1)
        self.blank(False)
        self.put('}')
        scene.protos[p.name] = p
    def declaration(self, scene, proto, depth, m, fields, events, script=None, external=False):
        r = self.rnd
        t = r.choice(['SFNode', 'MFNode', 'SFInt32', 'SFFloat', 'SFString', 'MFString', 'SFBool', 'SFVec3f', 'MFFloat'])
        kind = r.choice(['field', 'exposedField', 'eventIn', 'eventOut'])
        self.put(X3D_WORDS[kind] if self.x3d and r.random() < .8 else kind)
        self.blank()
        self.put(t)
        self.blank()
        self.put(m)
        self.blank()
        targets = self.interfaces(proto, t) if script is not None else None
        if targets and r.random() < .4:
            target = r.choice(targets)
            self.put('IS')
            self.blank()
            self.put(target)
            self.blank()
            proto.maps.setdefault(target, []).append((script, m))
            (events if kind.startswith('event') else fields)[m] = (t, kind, None)
        elif kind.startswith('event'):
            events[m] = (t, kind, None)
        elif external:
            fields[m] = (t, kind, UNKNOWN)
        else:
            fields[m] = (t, kind, self.value(scene, proto, depth, t))
            self.blank()
    def script(self, scene, proto, depth):
        r = self.rnd
        n = Expected('Script')
        n.script = {}
        if r.random() < .5:
            self.put('DEF')
            self.blank()
            n.name = r.choice(NAMES)
            self.put(n.name)
            self.blank()
            scene.defs[n.name] = n
        self.put('Script')
        self.blank(False)
        self.put('{')
        self.blank()
        self.open.append(n)
        fields, events = {}, {}
        for m in sorted(set(r.choice(MEMBERS) for i in range(r.choice([0, 1, 3])))):
            self.declaration(scene, proto, depth + 1, m, fields, events, n)
            self.blank()
        if r.random() < .4 and self.error is None:
            if self.breaks():
                self.error = (AttributeError, [self.word('nosuch')])
                self.put(' "x"')
            else:
                self.put('url')
                self.blank()
                n.values['url'] = self.value(scene, proto, depth + 1, 'MFString')
            self.blank()
        n.script.update(fields)
        n.script.update(events)
        n.fields = fields
        self.open.pop()
        self.put('}')
        return n
    def node(self, scene, proto, depth, wanted=None):
        r = self.rnd
        self.budget -= 1
        at = self.size
        name = ''
        positions = [at]
        if r.random() < .45:
            self.put('DEF')
            self.blank()
            name = r.choice(NAMES)
            self.put(name)
            self.blank()
        types = scene.types()
        positions.append(self.size)
        if self.breaks():
            # not declared, or not yet, or elsewhere only
            missing = [t for t in TYPES + ['Nosuch', 'groups', 'Tran', 'Script2'] if t not in types and t != 'sceneGraph']
            self.error = (NameError, positions)
            t = r.choice(missing)
            n = Expected('Group', name)
            self.put(t)
        else:
            own = [t for t in types if not isinstance(types[t], str)]
            t = r.choice(sorted(own)) if own and r.random() < .5 else r.choice(sorted(types))
            n = Expected(types[t], name)
            self.put(t)
        if name:
            scene.defs[name] = n
        self.open.append(n)
        self.blank(False)
        self.put('{')
        self.blank()
        fields = BUILTIN[n.type] if isinstance(n.type, str) else dict((k, v[0]) for k, v in n.type.fields.items())
        maps = dict(fields) if isinstance(n.type, str) else dict(fields, **dict((k, v[0]) for k, v in n.type.events.items()))
        given = r.sample(sorted(maps), min(len(maps), r.choice([0, 1, 2, 3])))
        if self.error is not None and self.error[1] is positions:
            given = []
        for f in given:
            if depth < 6 and r.random() < .1:
                self.route(scene)
                self.blank()
            if depth < 3 and r.random() < .08:
                self.proto(scene, depth)
                self.blank()
            if self.breaks():
                wrong = ['nosuch', 'Children', 'TRUE1', 'copy', 'IS1', 'DEFs', 'USEs', 'toString', 'PROTO1', '__init__', 'routes', 'protoTypes', 'bboxCentre', 'ROUTE1']
                self.error = (AttributeError, [self.word(r.choice(wrong))])
                self.put(' 1 ')
                continue
            targets = self.interfaces(proto, maps[f])
            if targets and r.random() < .6:
                self.put(f)
                self.blank()
                target = r.choice(targets)
                self.put('IS')
                self.blank()
                self.put(target)
                self.blank()
                proto.maps.setdefault(target, []).append((n, f))
                continue
            if f not in fields:
                continue
            self.put(f)
            self.blank()
            n.values[f] = self.value(scene, proto, depth + 1, fields[f])
            self.blank()
        self.open.pop()
        self.put('}')
        return n
    def value(self, scene, proto, depth, t):
        r = self.rnd
        if t == 'SFNode':
            k = r.random()
            if k < .25 or depth > 6 or self.budget <= 0:
                self.put('NULL')
                return None
            if k < .5 and (scene.defs or self.bad == 0):
                n = self.use(scene)
                return n
            if k < .6:
                return self.script(scene, proto, depth)
            return self.node(scene, proto, depth)
        if t == 'MFNode':
            out = []
            one = r.random() < .2 and depth < 6
            if one:
                out.append(self.node(scene, proto, depth))
                return out
            self.put('[')
            self.blank()
            for i in range(r.choice([0, 1, 2, 3]) if depth < 6 and self.budget > 0 else 0):
                k = r.random()
                n = self.use(scene) if k < .3 else self.script(scene, proto, depth) if k < .4 else self.node(scene, proto, depth)
                if n is not None:
                    out.append(n)
                self.blank()
            self.put(']')
            return out
        num = lambda: r.choice(['0', '1', '-1', '.5', '2.25', '1e3', '-0.125', '17'])
        if t == 'SFInt32':
            x = r.choice(['0', '-5', '17', '0x1F'])
            self.put(x)
            return int(x, 0)
        if t in ('SFFloat', 'SFTime'):
            x = num()
            self.put(x)
            return float(x)
        if t == 'SFBool':
            x = r.choice(['TRUE', 'FALSE'])
            self.put(x)
            return x == 'TRUE'
        if t in ('SFVec3f', 'SFColor'):
            x = [r.choice(['0', '1', '.5', '.25']) for i in range(3)]
            self.put(' '.join(x))
            return [float(y) for y in x]
        if t in ('MFFloat', 'MFInt32', 'MFVec3f'):
            n = r.choice([0, 1, 4]) * (3 if t == 'MFVec3f' else 1)
            x = [r.choice(['0', '1', '2', '7']) for i in range(n)]
            self.put('[' + ' '.join(x) + ']')
            return [float(y) for y in x]
        if t == 'SFString':
            x = r.choice(['', 'a', 'USE A', 'DEF B Group {', '} ROUTE a.b TO c.d', '# x'])
            self.put('"%s"' % x)
            return x
        if t == 'MFString':
            x = [r.choice(['', 'b', 'PROTO P [ ] {', ']', 'NULL']) for i in range(r.choice([1, 1, 2, 0]))]
            self.put('[ ' + ' '.join('"%s"' % y for y in x) + ' ]' if len(x) != 1 or r.random() < .5 else '"%s"' % x[0])
            return x
        raise ValueError(t)


X3D_WORDS = {'field': 'initializeOnly', 'exposedField': 'inputOutput', 'eventIn': 'inputOnly', 'eventOut': 'outputOnly'}


def written(case):
    import random
    w = Writer(random.Random(case['seed']), case['bad'])
    s = ExpectedScene()
    w.x3d = bool(case.get('x3d'))
    w.put(('#X3D V3.0 utf8' if w.x3d else '#VRML V2.0 utf8') + w.rnd.choice(['', ' x', ' DEF A Group {']) + '\n')
    if w.x3d:
        w.put('PROFILE Immersive\n')
    w.scene(s, None, 0)
    w.put(' \n')
    return w, s, ''.join(w.out)


def cases(rnd, tier, mode):
    yield {'kind': 'cyclic'}
    for i in range(2500 if tier == 'quick' else 40000):
        yield {'kind': 'file', 'seed': rnd.randrange(1 << 48), 'bad': rnd.choice([None, rnd.randrange(4), rnd.randrange(30)]), 'x3d': i % 5 == 4}


class Differs(Exception):
    pass


class Compare(object):
    """Is what was parsed what was written?"""
    def __init__(self):
        self.nodes, self.protos, self.back = {}, {}, {}
    def fail(self, *what):
        raise Differs(' '.join(str(w) for w in what))
    def scene(self, want, got, outer):
        from vrml.vrml97 import scenegraph
        if not isinstance(got, scenegraph.SceneGraph):
            self.fail('no scene:', got)
        self.types(want, got)
        self.listed('children of the scene', want.children, list(got.children))
        have = dict((k, v) for k, v in got.defNames.items() if k)
        if set(have) != set(want.defs):
            self.fail('names', sorted(have), 'for', sorted(want.defs))
        for k, n in want.defs.items():
            self.node(n, have[k])
        routes = [(r.source, r.sourceField, r.destination, r.destinationField) for r in got.routes]
        if len(routes) != len(want.routes):
            self.fail(len(routes), 'routes for', len(want.routes))
        for (a, f, b, g), (a2, f2, b2, g2) in zip(want.routes, routes):
            if f != f2 or g != g2:
                self.fail('route', f2, g2, 'for', f, g)
            self.node(a, a2)
            self.node(b, b2)
    def types(self, want, got):
        own = dict((k, v) for k, v in got.protoTypes.items() if k not in self.base)
        for k in want.protos:
            self.proto(want.protos[k], got.protoTypes.get(k))
    def proto(self, want, got):
        if self.protos.setdefault(id(want), got) is not got or self.back.setdefault(id(got), want) is not want:
            self.fail('another prototype', got, 'for', want.name)
        from vrml import node, protofunctions, field
        if (id(want), 'done') in self.protos:
            return
        self.protos[id(want), 'done'] = True
        if got is None or protofunctions.protoName(got) != want.name:
            self.fail('no prototype', want.name, ':', got)
        for m, (t, kind, value) in want.fields.items():
            f = vars(got).get(m)
            if not isinstance(f, field.Field) or f.typeName() != t:
                self.fail('no field', m, ':', f)
            if bool(f.exposure) != (kind == 'exposedField'):
                self.fail('exposure of', m, ':', f.exposure)
            if value is not UNKNOWN:
                self.value(t, value, f.getDefault(), 'default of ' + m)
        for m, (t, kind, value) in want.events.items():
            f = vars(got).get(m)
            if not isinstance(f, field.Event) or bool(f.direction) != (kind == 'eventOut'):
                self.fail('no', kind, m, ':', f)
        url = list(protofunctions.getExternalURL(got))
        if url != (want.url or []):
            self.fail('URL of', want.name, ':', url, 'for', want.url)
        if want.url is not None:
            return
        sg = protofunctions.getSceneGraph(got)
        self.scene(want.body, sg, None)
        have = dict((k, v) for k, v in node.ismaps(got).items() if v)
        if set(have) != set(want.maps):
            self.fail('interfaces', sorted(have), 'for', sorted(want.maps))
        for k, pairs in want.maps.items():
            if sorted(f for n, f in pairs) != sorted(f for n, f in have[k]):
                self.fail('mappings', have[k], 'for', pairs)
            for n, f in pairs:
                if not any(f == f2 and self.nodes.get(id(n), n2) is n2 for n2, f2 in have[k]):
                    self.fail('mapping of', f, 'to', n)
    def listed(self, what, want, got):
        if len(want) != len(got):
            self.fail(what, ':', got, 'for', want)
        for a, b in zip(want, got):
            self.node(a, b)
    def node(self, want, got):
        from vrml import node, protofunctions
        if id(want) in self.nodes:
            if self.nodes[id(want)] is not got:
                self.fail('another node', got, 'for', want)
            return
        if id(got) in self.back:
            self.fail('one node', got, 'for', want, 'and', self.back[id(got)])
        if not isinstance(got, node.Node) or got is node.NULL:
            self.fail('no node', got, 'for', want)
        self.nodes[id(want)] = got
        self.back[id(got)] = want
        if got.DEF != want.name:
            self.fail('name', got.DEF, 'for', want)
        if want.script is not None:
            if protofunctions.protoName(got) != 'Script':
                self.fail('no script:', got)
            for m, (t, kind, value) in want.script.items():
                f = vars(type(got)).get(m)
                if f is None:
                    self.fail('no member', m, 'of', got)
                if m in want.fields and value is not None:
                    self.value(t, value, getattr(got, m), m)
        elif isinstance(want.type, str):
            if protofunctions.protoName(got) != want.type or type(got) is not self.base.get(want.type):
                self.fail('type', type(got), 'for', want.type)
        else:
            self.proto(want.type, type(got))
        fields = BUILTIN.get(want.type) if isinstance(want.type, str) else dict((k, v[0]) for k, v in want.type.fields.items())
        for f, t in (fields or {'url': 'MFString'}).items():
            if f in want.values:
                self.value(t, want.values[f], getattr(got, f), '%s of %r' % (f, want))
            elif isinstance(want.type, str) and not same(getattr(got, f), getattr(type(got)(), f)):
                self.fail('value of', f, 'of', want, 'without one being given:', getattr(got, f))
    def value(self, t, want, got, what):
        from vrml import node
        if t == 'SFNode':
            if want is None:
                if got is not node.NULL and got is not None:
                    self.fail(what, got, 'for NULL')
            else:
                self.node(want, got)
        elif t == 'MFNode':
            self.listed(what, want, list(got))
        elif t in ('SFString', 'SFInt32', 'SFFloat', 'SFTime', 'SFBool'):
            if got != want:
                self.fail(what, repr(got), 'for', repr(want))
        elif t == 'MFString':
            if list(got) != want:
                self.fail(what, repr(got), 'for', repr(want))
        else:
            import numpy
            if [float(x) for x in numpy.ravel(got)] != want:
                self.fail(what, repr(got), 'for', repr(want))


def itself():
    """A node which contains itself, also as default of a prototype"""
    from vrml.vrml97.parser import buildParser
    text = '#VRML V2.0 utf8\nDEF S Script { field SFNode me USE S field MFNode us [ USE S ] } PROTO P [ field SFNode x USE S ] { Group { } } DEF N P { } USE S'
    try:
        ok, result, n = buildParser().parse(text)
    except Exception as err:
        return '%s: %s\n%s' % (type(err).__name__, err, text)
    scene = result[1]
    first, instance, last = scene.children
    if first is not scene.getDEF('S') or last is not first or first.me is not first or list(first.us) != [first] or first.us[0] is not first or instance is not scene.getDEF('N'):
        return 'other nodes\n%s' % text
    return None


def check_case(case):
    import io, contextlib, re
    from vrml.vrml97 import basenamespaces
    if case.get('x3d'):
        from vrml.vrml200x.parser import buildParser
    else:
        from vrml.vrml97.parser import buildParser
    all_modules()
    if case['kind'] == 'cyclic':
        return itself()
    w, scene, text = written(case)
    before = dict(basenamespaces.basePrototypes)
    # (what prototypes' bodies pass on may not fit its destination: reported on stderr)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            ok, result, n = buildParser().parse(text)
        except Exception as err:
            if w.error is None:
                return '%s: %s\n%s' % (type(err).__name__, err, text)
            cls, positions = w.error
            lines = [text.count('\n', 0, p) + 1 for p in positions]
            if not isinstance(err, cls):
                return '%s instead of %s: %s\n%s' % (type(err).__name__, cls.__name__, err, text)
            numbers = [int(x) for x in re.findall(r'on line (\d+)', str(err))]
            if not any(l in numbers for l in lines):
                return 'line %r for %r: %s\n%s' % (numbers, lines, err, text)
            return None
    if w.error is not None:
        return 'no %s for an undefined name\n%s' % (w.error[0].__name__, text)
    if n != len(text):
        return 'read %d of %d\n%s' % (n, len(text), text)
    c = Compare()
    c.base = before
    if dict(basenamespaces.basePrototypes) != before:
        return 'parsing changed the built-in types\n' + text
    try:
        c.scene(scene, result[1], None)
    except Differs as err:
        return '%s\n%s' % (err, text)
    return None
