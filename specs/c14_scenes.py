PROPERTY = 'C14'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
SHARDS = 6
EXPLANATION = ('Every method of Lineariser that writes a part of a scene is executed on any node, field, route or scene, the methods it calls standing for their postconditions; the text it writes is taken as '
               'segments (known characters, names, separators, any number of items), and the productions of the grammar in /repo are executed on that text in every context in which it can stand: what is '
               'read is proved to be what was given. _canUse, _Node, _Script: one node with its name, its type, its declarations and all attributes written, or a reference to a named node which was written '
               'before, and the node is registered. _attrDict: every public field is written once with its name and value unless safeCompare finds it equal to the default, which is proved to be so only for '
               'equal values. _fieldDict, _eventDict (with fieldVrmlstr, eventVrmlstr): every public field or event of a script is declared with its kind, type, name and value. _mfnode: a list of nodes is read '
               'as that many nodes in order. _sffield, _linear and the vrmlstr methods of node fields choose the right one of these. _preroute gives a name to every node of a route that has none, one which '
               'no node of the scene has, _usedNames being proved (seen from any two nodes, one in a field of the other, over all states its loops can reach) to give the names of all of them; _route is read as a route between the named nodes and fields. linear and _sceneGraph: all routes are prepared first, then all children are written in order, then all routes; '
               'the whole is read as one file of that many nodes and routes, to its end.')
BOUNDED = ['bounded: random acyclic scenes of up to 25 nodes of all built-in types with names, shared nodes, scripts and routes, written by both styles, parsed and compared node by node, field by field and bit for bit '
           '(also covers that parsing such a tree builds the scene, C16)']
TRUSTED = ['list.sort and sorted permute the fields', 'StringIO keeps what is written to it, in order',
           'simpleparse: meaning of the elements of the grammar as documented', 'numpy: == and all on arrays of one shape']
ASSUMPTIONS = ['the scene is acyclic, no list of nodes holds NULL, prototypes are those built in', 'names are VRML97 names and no keywords, distinct nodes have distinct names',
               'the separators the lineariser is configured with are blanks, line feeds, tabs and commas, the one between elements has a line feed', 'fget, coerce, getFields and the text of simple values: C01, C02, C04, C12, C13, C20',
               'a value and the default it is compared with are of the same field']
# --- end of meta
from common import *


# ================================================================== what is written, and how it is read
BLANK = ' \t\n,'
VALUE = '"-+.0123456789TF'
KINDS = ['use', 'null', 'node', 'named node', 'script', 'named script', 'again']


class Buffer(object):
    """What StringIO does, as far as it is used"""
    def write(self, text):
        raise NotImplementedError
    def tell(self):
        raise NotImplementedError
    def getvalue(self):
        raise NotImplementedError
    def close(self):
        raise NotImplementedError


def any_fields(ctx, f, label, there=True):
    """A list of fields of any number, of which one is looked at (f, any of them, unless it was left out)"""
    import z3
    from pvc.values import LazyList
    n = ctx.int('fields').z
    ctx.assume(n >= (1 if there else 0), check=False)
    class Fields(LazyList):
        def list_method(self, interp, target, name, args, kwargs):
            if name in ('sort', 'sorted', '__iter__', 'copy'):
                return None if name == 'sort' else self
            from pvc import models
            return models.lazy_method(interp, target, self, name, args, kwargs)
        def comprehend(self, interp, e, inner, g, kind):
            if kind not in ('list', 'gen') or g.is_async:
                interp.unsupported('a %s of fields' % kind)
            if not self.there:
                return any_fields(ctx, None, self.label, False)
            interp.assign(g.target, f, inner)
            for c in g.ifs:
                if not interp.truth(interp.ev(c, inner)):
                    return any_fields(ctx, None, self.label, False)
            got = interp.ev(e.elt, inner)
            if got is not f:
                interp.unsupported('something made of the fields')
            return any_fields(ctx, f, self.label, True)
    r = Fields(n, lambda j: f, label)
    r.there = there
    return r


class Writing(object):
    """A lineariser in any state, and what it writes"""
    def __init__(self, ctx, comments=None):
        import z3
        from pvc import models
        from pvc.values import Model, SInt, SDict, string
        from vrml import protofunctions
        from vrml.vrml97 import linearise
        from grammar import Run, Char, Word
        from texts import Texts
        self.ctx, self.interp = ctx, make_interp(ctx)
        interp = self.interp
        self.T = Texts(ctx, interp)
        self.words, self.things = {}, {}
        self.L = models.new_instance(interp, linearise.Lineariser)
        self.position = ctx.int('position').z
        ctx.assume(self.position >= 0, check=False)
        self.buffers = []
        self.buffer = self.new_buffer()
        self.log = self.buffers[0][1]
        def write(interp, args, kwargs):
            self.log_of(args[0]).append(args[1])
        def tell(interp, args, kwargs):
            log = self.log_of(args[0])
            return SInt(z3.simplify(z3.Sum([self.position if log is self.log else z3.IntVal(0), z3.IntVal(0)] + [z3.Length(string(w)) for w in log])))
        def getvalue(interp, args, kwargs):
            log = self.log_of(args[0])
            return models.SStr(z3.Concat(*[z3.StringVal('')] + [string(w) for w in log])) if len(log) > 1 else (log[0] if log else '')
        for name, h in [('write', write), ('tell', tell), ('getvalue', getvalue), ('close', lambda interp, args, kwargs: None)]:
            interp.contract(Buffer.__dict__[name], h, 'StringIO.' + name)
        interp.class_contracts['repeat', None] = lambda interp, a, n: self.run(' \t', 'indentation')
        values = {}
        for key, chars in [('subelspacer', BLANK), ('courtesyspace', ' '), ('curindent', ' \t'), ('indent', ' \t'), ('numsep', BLANK), ('mffieldsep', BLANK)]:
            values[key] = self.run(chars, key)
        sep = ctx.str('separator')
        self.T.known(sep.z, lambda: [Run(BLANK), Char('\n'), Run(BLANK)])
        values['full_element_separator'] = sep
        if ctx.choose([True, False]) if comments is None else comments:
            values['EndComments'] = ctx.int('EndComments')
        self.done = SDict(True, 'alreadydone')
        for k, v in dict(buffer=self.buffer, linvalues=interp.make(values), alreadydone=self.done, curproto=interp.make([]), cursceneGraph=interp.make([]),
                         indentationlevel=ctx.int('level'), protoalreadydone=SDict(True, 'protoalreadydone'), skipUnusedProtos=None).items():
            interp.set_attr(self.L, k, v)
        interp.set_attr(self.L, 'typecache', interp.make({'Script': interp.get_attr(self.L, '_Script'), 'NULL': interp.get_attr(self.L, '_nullNode'), 'sceneGraph': interp.get_attr(self.L, '_sceneGraph')}))
        self.names, self.types = {}, {}
        def name_of(interp, args, kwargs):
            if len(args) != 1 or kwargs:
                interp.unsupported('renaming')
            return self.def_name(args[0])
        for f in set([protofunctions.defName]):
            interp.contract(f, name_of, 'defName (the DEF field, C02)')
        ctx.trace[:] = []
    def new_buffer(self):
        b = self.ctx.obj(Buffer, 'buffer')
        self.buffers.append((b, []))
        return b
    def log_of(self, b):
        for x, log in self.buffers:
            if x is b:
                return log
        self.interp.unsupported('buffer %r' % (b,))
    def def_name(self, node):
        if id(node) not in self.names:
            self.interp.unsupported('name of %r' % (node,))
        return self.names[id(node)][0]
    def run(self, chars, label):
        from grammar import Run
        s = self.ctx.str(label)
        self.T.known(s.z, lambda: [Run(chars)])
        return s
    def word(self, label):
        """A name (no keyword)"""
        import z3
        from grammar import Word
        s = self.ctx.str(label)
        self.ctx.assume(z3.Length(s.z) > 0, check=False)
        def segments():
            w = Word()
            self.words[id(w)] = (s, w)
            return [w]
        self.T.known(s.z, segments)
        return s
    def thing(self, segments, label, data):
        """A text known by its segments, standing for data"""
        import z3
        s = self.ctx.str(label)
        self.ctx.assume(z3.Length(s.z) > 0, check=False)
        self.T.known(s.z, segments)
        self.things[s.z.get_id()] = (data, s)
        return s
    def write(self, text):
        self.log.append(text)
        return None
    def name(self, node, some=None):
        """The node has any name, or none"""
        if some is None:
            some = self.ctx.choose([True, False])
        self.names[id(node)] = (self.word('DEF') if some else '', node)
        return self.names[id(node)][0]
    def method(self, name, handler, label):
        from vrml.vrml97 import linearise
        self.interp.contract(linearise.Lineariser.__dict__[name], handler, label)
    def call(self, name, *args):
        return self.interp.call(self.interp.get_attr(self.L, name), list(args))
    def segments(self, since=0):
        return [s for w in self.log[since:] for s in self.T.segments(w)]
    # -------------------------------------------------------- nodes within what is written
    def phrase(self, kind, data, label='node'):
        """What is written for a node (the postcondition of _linear): its name, type and the rest of it, or a reference"""
        from grammar import lit, Run, Char, Word, Rest
        def word():
            w = Word()
            self.words[id(w)] = (label, w)
            return [w]
        def segments():
            if kind == 'use':
                return lit('USE ') + word()
            if kind == 'null':
                return lit('NULL')
            if kind == 'node':
                return word() + lit(' {') + [Rest('Node')]
            if kind == 'named node':
                return lit('DEF ') + word() + lit(' ') + word() + lit(' {') + [Rest('Node')]
            if kind == 'again':
                return lit('#') + [Run(__import__('grammar').CharSet('\n', True))] + lit('\n') + word() + lit(' {') + [Rest('Node')]
            if kind == 'script':
                return lit(' Script {') + [Rest('Script')]
            if kind == 'named script':
                return lit('DEF ') + word() + lit('  Script {') + [Rest('Script')]
        return self.thing(segments, label, data)
    def value(self, kind, data):
        """What is written for a value"""
        from grammar import lit, Run, Atom, Rest
        if kind == 'simple':
            return self.thing(lambda: [Atom('Field', VALUE)], 'value', data)
        if kind == 'list':
            return self.thing(lambda: [Run(BLANK)] + lit('[') + [Rest('Field')], 'list', data)
        if kind == 'empty list':
            return self.thing(lambda: lit(' [') + [Run(BLANK)] + lit(']'), 'list', data)
        return self.phrase(kind, data)
    def read(self, production, segments, after, what, last=None):
        """The part of the tree which the production makes of the segments, which are followed by others"""
        import grammar as g
        from pvc.engine import Unsupported
        end = after[-1] if isinstance(after[-1], g.Final) else None
        first = None
        text = g.Text(self.ctx, segments + after)
        peg = g.Peg(self.ctx, text, on_item=self.item)
        self.items = []
        try:
            r = peg.production(production, text.start)
            if r is not None:
                # (where the next statement begins)
                here = text.ahead(r[0])
        except g.Refused as err:
            self.ctx.check('%s is no syntax error' % what, False, '%s: %r' % (err, segments))
            return None
        except g.Unknown as err:
            raise Unsupported('grammar: %s in %r, then %r' % (err, segments, after))
        self.ctx.check('%s is read' % what, r is not None, repr(segments))
        if r is None:
            return None
        self.text = text
        for s in after:
            if last is not None:
                if isinstance(s, g.Char) and s.set.within(g.CharSet(last)):
                    last = None
                continue
            if not (isinstance(s, g.Run) or isinstance(s, g.Char) and s.set.within(g.CharSet(BLANK))):
                first = s
                break
        self.ctx.check('%s is read up to what follows it' % what, here is text.ahead(first), '%r for %r in %r' % (here, first, segments))
        return r[1]
    def item(self, text, star, nodes):
        self.ctx.check('every one of the %s is one element' % star.label, len(nodes) == 1 and self.item_ok(text, star, nodes[0]), repr(nodes))
    def item_ok(self, text, star, node):
        return True
    def part(self, node):
        """The text which a part of the tree was written for"""
        text = self.text
        a, b = text.ahead(node.start), text.resolve(node.stop)
        for s, w in self.words.values():
            if text.ahead(w) is a and text.resolve(w.next) is b:
                return s
        return text.string(node.start, node.stop)
    def shape(self, n):
        return (n.tag,) + tuple(self.shape(c) if hasattr(c, 'tag') else 'many' for c in n.children)


def same_text(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and a == b
    return a is b or hasattr(a, 'z') and hasattr(b, 'z') and a.z.eq(b.z)


def all_values():
    """The texts a value may have (postcondition of _sffield), by kind"""
    return ['simple', 'list', 'empty list'] + KINDS


def separator():
    import grammar as g
    return [g.Run(BLANK), g.Char('\n'), g.Run(BLANK)]


def in_context(ctx, w, segments, what):
    """What is read of a node where it is a statement, the value of an attribute, or one of a list"""
    import grammar as g
    context = ctx.choose(['statement', 'value, then the end', 'value, then an attribute', 'in a list'])
    if context == 'statement':
        n = w.read('rootItem', segments, separator() + [ctx.choose([g.Char(g.CharSet(BLANK + '#\x0b\x0c\r', True)), g.Final()])], what + ' as a statement')
        return n and n.children
    if context == 'in a list':
        # (what comes next in the list is no matter, as one element reads one node)
        n = w.read('Field', g.lit('[ ') + segments, separator() + g.lit(']\n}x'), what + ' in a list', last=']')
        return n and n.children
    after = g.lit('}') if context == 'value, then the end' else [g.Word(), g.Char('\t'), g.Char(g.CharSet('{#\x0b\x0c\r' + BLANK, True))]
    n = w.read('Attr', [g.Char('x'), g.Char('\t')] + segments, separator() + after, what + ' as a value')
    if n is None:
        return None
    ctx.check('it is the value', [c.tag for c in n.children] == ['name', 'Field'], repr(n))
    return n.children[-1].children


def node_probe():
    from vrml import node
    return type('Probe', (node.Node,), {'__module__': 'vrml.node'})


def node_state(ctx, w, client):
    """Whether the node was written before"""
    state = ctx.choose(['new', 'written'])
    from pvc.values import ABSENT
    key = w.interp.call(id, [client])
    w.done.base.append([key, ABSENT if state == 'new' else (ctx.int('from'), ctx.int('to'))])
    return state, key


def node_registered(ctx, w, key, state, since=0):
    writes = [t for t in ctx.trace[since:] if t[0] == 'w' and t[1] is w.done]
    return writes


def new_lineariser(ctx):
    """linearise(): a Lineariser of its own, on which nothing is registered as written, with the separators given; these and the defaults are not changed"""
    from vrml.vrml97 import linearise
    interp = make_interp(ctx)
    value, text = ctx.any('value'), ctx.str('text')
    own = {'numsep': ctx.str('numbers'), 'indent': ctx.str('indent')}
    given = interp.make(dict(own)) if ctx.choose([True, False]) else None
    extra = {'numsep': ctx.str('other numbers')} if ctx.choose([True, False]) else {}
    seen = []
    def linear(interp, args, kwargs):
        seen.append((args[0], args[1:], kwargs))
        return text
    interp.contract(linearise.Lineariser.__dict__['linear'], linear, 'Lineariser.linear')
    how = ctx.choose(['nothing', 'name']) if given is None else ctx.choose(['place', 'name'])
    args, kw = [value], dict(extra)
    if how == 'place':
        args.append(given)
    elif how == 'name':
        kw['linvalues'] = given
    r = interp.call(linearise.linearise, args, kw)
    ctx.cover('given' if given is not None else 'defaults')
    ctx.check('the value is written, once, and its text returned', r is text and len(seen) == 1 and seen[0][1] == [value] and not seen[0][2], repr(seen))
    o = seen[0][0]
    values, done = interp.get_attr(o, 'linvalues'), interp.get_attr(o, 'alreadydone')
    from pvc.values import SDict, ABSENT
    def content(d):
        if type(d) is dict:
            return dict(d)
        if not isinstance(d, SDict) or d.open or d.base:
            interp.unsupported('separators in %r' % (d,))
        return {k: v for k, v in d.over if v is not ABSENT}
    new = done is not linearise.defaults and (id(done) in interp.fresh or isinstance(done, SDict))
    done, values = content(done), content(values)
    want = dict(own if given is not None else linearise.defaults)
    ctx.check('nothing is registered as written', not done and new, repr(done))
    for k in set(want) | set(values):
        ctx.check('the separators are those given', values.get(k) is extra.get(k, want.get(k)) or values.get(k) == extra.get(k, want.get(k)), '%s: %r' % (k, values.get(k)))
    if given is not None:
        ctx.check('those given are not changed', content(given) == own, repr(given))


def can_use(ctx):
    w = Writing(ctx)
    client = ctx.obj(node_probe(), 'node', open=True)
    named = w.name(client)
    state, key = node_state(ctx, w, client)
    ctx.trace[:] = []
    position = w.interp.call(w.interp.get_attr(w.buffer, 'tell'), [])
    r = w.call('_canUse', client)
    ctx.cover('%s, %s' % (state, 'named' if named else 'no name'))
    now = w.interp.dict_lookup(w.done, key)
    writes = node_registered(ctx, w, key, state)
    if state == 'written' and named:
        parts = w.T.parts(r)
        ctx.check('a named node which was written is referred to', len(parts) == 2 and parts[0] == 'USE ' and same_text(w.T.parts(named)[0] if not isinstance(named, str) else named, parts[1]) or
                  len(parts) == 2 and parts[0] == 'USE ' and parts[1].eq(named.z), repr(parts))
        ctx.check('nothing is written', not w.log)
        ctx.check('it stays registered', isinstance(now, tuple))
        return
    from pvc.values import SInt
    ctx.check('the node is to be written', isinstance(r, (int, SInt)) and not isinstance(r, bool), repr(r))
    ctx.check('and registered as being written', isinstance(now, (int, SInt)) and not isinstance(now, bool), repr(now))
    ctx.check('no other node is', all(t[2] is key or w.ctx.approx is None or t[2].z.eq(key.z) for t in writes) and len(writes) >= 1, repr(writes))
    if state == 'new':
        ctx.check('nothing is written', not w.log, repr(w.log))
    else:
        import grammar
        from grammar import Text, Peg, Char
        if w.log:
            segs = w.segments()
            e = Char('x')
            t = Text(ctx, segs + [e])
            try:
                r = Peg(ctx, t).production('ts', t.start)
            except grammar.Unknown:
                # (what comes next is read as part of it)
                r = None
            ctx.check('nothing but a comment is written', r is not None and t.ahead(r[0]) is t.ahead(e), repr(segs))


def attributes(ctx, w, label):
    """What _attrDict writes (shown for it): any number of attributes, or nothing"""
    import grammar as g
    def make(star):
        return [(one() + separator(), None)]
    def one():
        return [g.Word(), g.Char('\t'), g.Atom('Field', VALUE)]
    def handler(interp, args, kwargs):
        w.attributed.append(args[-1])
        if ctx.choose([True, False]):
            star = g.Star(make, None, 'attributes')
            w.write(w.thing(lambda: separator() + [star] + one(), 'attributes', star))
            ctx.cover('attributes')
        else:
            ctx.cover('no attributes')
        return None
    w.attributed = []
    w.method('_attrDict', handler, '_attrDict')


def write_node(ctx):
    import z3
    from vrml import protofunctions
    w = Writing(ctx)
    client = ctx.obj(node_probe(), 'node', open=True)
    named = w.name(client)
    type_name = w.word('type')
    w.interp.contract(protofunctions.protoName, lambda interp, args, kwargs: type_name, 'protoName')
    w.interp.contract(protofunctions.name, lambda interp, args, kwargs: w.def_name(args[0]), 'name')
    state, key = node_state(ctx, w, client)
    attributes(ctx, w, 'attributes')
    ctx.trace[:] = []
    w.call('_Node', client)
    r = in_context(ctx, w, w.segments(), 'a node')
    now = w.interp.dict_lookup(w.done, key)
    ctx.check('the node is registered as written', isinstance(now, tuple), repr(now))
    if r is None:
        return
    ctx.check('one thing is read', len(r) == 1, repr(r))
    n = r[0]
    if state == 'written' and named:
        ctx.cover('reference')
        ctx.check('a named node written before is referred to by its name', n.tag == 'USE' and same_text(w.part(n), named), repr(n))
        ctx.check('and not written again', not w.attributed)
        return
    ctx.cover('named' if named else 'without name')
    ctx.check('a node is read', n.tag == 'Node', repr(n))
    if n.tag != 'Node':
        return
    ctx.check('its attributes are written once', len(w.attributed) == 1 and w.attributed[0] is client, repr(w.attributed))
    kids = list(n.children)
    if named:
        ctx.check('with its name', bool(kids) and kids[0].tag == 'name' and same_text(w.part(kids[0]), named), repr(kids))
        kids = kids[1:]
    ctx.check('and its type', bool(kids) and hasattr(kids[0], 'tag') and kids[0].tag == 'nodegi' and same_text(w.part(kids[0]), type_name), repr(kids))
    stars = [d for d, s in w.things.values() if type(d).__name__ == 'Star']
    ctx.check('and its attributes', [getattr(k, 'star', None) for k in kids[1:]] == (stars + [None] if stars else []) and all(k.tag == 'Attr' for k in kids[2:]), repr(kids))


def any_field(ctx, w, names):
    from vrml import field
    f = ctx.obj(ANY_FIELD, 'field', open=True)
    name = ctx.choose(names)
    if name == 'any':
        import z3
        name = w.word('field name')
        for other in SCRIPT_FIELDS:
            ctx.assume(name.z != z3.StringVal(other), check=False)
        ctx.assume(z3.Not(z3.PrefixOf(z3.StringVal(' '), name.z)), check=False)
    w.interp.set_attr(f, 'name', name)
    return f, name


SCRIPT_FIELDS = ('url', 'mustEvaluate', 'directOutput')
ANY_FIELD = None


def over_fields(ctx, w, label, step):
    """The loop over the fields: what it does with the one looked at"""
    from pvc import loops
    def rule(interp, stmt, fr, items):
        if getattr(items, 'label', None) != label:
            return NotImplemented
        w.loops += 1
        there = items.there
        mark = []
        def havoc(k):
            mark.append(len(w.log))
        def preserved(k):
            step(w.log[mark[0]:])
        if not there:
            # (others only: they are handled as this one is elsewhere)
            from pvc.interp import Poison
            for name in loops.assigned(stmt.body) | loops.target_names(stmt.target):
                fr.locals[name] = Poison('value of %s carried around a loop' % name)
            step(None)
            return
        return loops.by_invariant(interp, stmt, fr, items, lambda: None, havoc, preserved)
    w.interp.loop_specs.insert(0, rule)
    w.loops = 0


def attr_dict(ctx):
    from vrml import protofunctions, node, arrays, field
    from grammar import Char, CharSet, Word, lit
    w = Writing(ctx, comments=False)
    interp = w.interp
    script = ctx.choose([False, True])
    client = ctx.obj(node_probe(), 'node', open=True)
    interp.contract(protofunctions.protoName, lambda interp, args, kwargs: 'Script' if script else 'Probe', 'protoName')
    f, name = any_field(ctx, w, ['any', ' private', ''] + list(SCRIPT_FIELDS))
    fields = any_fields(ctx, f, 'fields')
    def of(interp, args, kwargs):
        ctx.check('the fields of the node are written', args[0] is client and len(args) == 1 and not kwargs.get('events'), repr(args))
        return fields
    interp.contract(protofunctions.getFields, of, 'getFields (C20)')
    value, default = ctx.any('value'), ctx.choose([None, ctx.any('default')])
    def fget(interp, args, kwargs):
        ctx.check('the value of the node', args[0] is f and args[1] is client)
        return value
    interp.contract(ANY_FIELD.__dict__['fget'], fget, 'fget (C01, C02)')
    interp.contract(ANY_FIELD.__dict__['getDefault'], lambda interp, args, kwargs: default, 'getDefault (C02)')
    compared = []
    def compare(interp, args, kwargs):
        r = ctx.choose([True, False])
        compared.append((args, r))
        return r
    interp.contract(arrays.safeCompare, compare, 'safeCompare')
    values = []
    def sffield(interp, args, kwargs):
        ctx.check('the value is written as one of the field', args[1] is value and args[2] is f, repr(args))
        kind = ctx.choose(all_values())
        values.append(kind)
        ctx.cover(kind)
        w.write(w.value(kind, value))
    w.method('_sffield', sffield, '_sffield')
    public = name in SCRIPT_FIELDS or (not isinstance(name, str) and not script)
    def step(log):
        if not log:
            same = [1 for args, r in compared if r and (args[0] is default and args[1] is value or args[1] is default and args[0] is value)]
            if public:
                ctx.cover('left out')
            ctx.check('an attribute is left out only when its value is the default', not public or bool(same), repr((name, compared)))
            return
        ctx.cover('written')
        ctx.check('no private field is written', name != '' and name != ' private', repr(name))
        ctx.check('nor fields which are declared by the script', not script or public)
        ctx.check('one value is written', len(values) == 1, repr(values))
        if len(values) != 1:
            return
        segs = [s for x in log for s in w.T.segments(x)]
        after = ctx.choose([lit('}'), [Word(), Char('\t'), Char(CharSet('{#\x0b\x0c\r' + BLANK, True))]])
        n = w.read('Attr', strip(ctx, w, segs), separator() + after, 'an attribute')
        if n is None:
            return
        ctx.check('an attribute of that name', len(n.children) == 2 and n.children[0].tag == 'name' and same_text(w.part(n.children[0]), name), repr(n))
        if len(n.children) == 2:
            ctx.check('with the value', n.children[1].tag == 'Field' and value_read(n.children[1], values[0]), repr((n, values)))
    over_fields(ctx, w, 'fields', step)
    w.call('_attrDict', client)
    if w.loops != 1:
        interp.unsupported('%d loops over the fields' % w.loops)
    ctx.check('nothing else is written', not w.log, repr(w.log))


def strip(ctx, w, segs):
    """The segments without the blanks in front, one of which ends the line"""
    from grammar import Run, Char, CharSet
    i, line = 0, False
    while i < len(segs) and (isinstance(segs[i], (Run, Char)) and segs[i].set.within(CharSet(BLANK))):
        line = line or isinstance(segs[i], Char) and segs[i].set.within(CharSet('\n'))
        i += 1
    ctx.check('it begins on a line of its own', line, repr(segs))
    return segs[i:]


def value_read(n, kind):
    kids = [c.tag for c in n.children]
    return kids == {'simple': [], 'list': [], 'empty list': [], 'use': ['USE'], 'null': ['SFNull'], 'node': ['Node'], 'named node': ['Node'], 'again': ['Node'], 'script': ['Script'], 'named script': ['Script']}[kind]


def named_probe(name, base=None):
    from vrml import node
    return type(name, (base or node.Node,), {'__module__': 'vrml.node', 'PROTO': name})


def dispatch(ctx):
    """_sffield and _linear: what a value is written by"""
    import numpy
    from vrml import node, fieldtypes
    from vrml.vrml97 import script
    from pvc.values import LazyList
    w = Writing(ctx, comments=False)
    interp = w.interp
    what = ctx.choose(['null', 'node', 'script', 'nodes', 'texts', 'number', 'text', 'array', 'truth'])
    through = ctx.choose(['_sffield', '_linear', 'vrmlstr'] if what in ('null', 'node', 'script') else ['_sffield', 'vrmlstr'] if what == 'nodes' else ['_sffield'])
    ctx.cover('%s by %s' % (what, through))
    calls = []
    for name in ('_Node', '_Script', '_mfnode', '_sceneGraph', '_proto'):
        def handler(interp, args, kwargs, name=name):
            calls.append((name, args[1]))
        w.method(name, handler, name)
    f = ctx.obj(named_probe('SF', node.SFNode if what in ('null', 'node', 'script') else node.MFNode if what == 'nodes' else fieldtypes.MFString if what == 'texts' else
                            fieldtypes.SFFloat if what == 'number' else fieldtypes.SFString if what == 'text' else fieldtypes.SFBool if what == 'truth' else fieldtypes.SFVec3f), 'field', open=True)
    written = []
    def vrmlstr(interp, args, kwargs):
        ctx.check('the value is written by the field', (len(args) == 2 or args[0] is f) and args[-2] is value and args[-1] is w.L, repr(args))
        r = w.thing(lambda: [], 'text of the value', value)
        written.append(r)
        return r
    if what not in ('null', 'node', 'script', 'nodes'):
        interp.contract(resolved(f.cls, 'vrmlstr'), vrmlstr, 'vrmlstr (C12, C13)')
    if what == 'null':
        value = node.NULL
    elif what in ('node', 'script'):
        cls = named_probe('Probe') if what == 'node' else named_probe('Script', script._Script)
        value = ctx.obj(cls, 'node', open=True)
    elif what == 'nodes':
        value = LazyList(ctx.int('n').z, lambda j: None, 'nodes')
    elif what == 'texts':
        value = interp.make([ctx.str('text'), ctx.str('text')])
    else:
        value = {'number': 1.5, 'text': ctx.str('text'), 'array': numpy.zeros((3,)), 'truth': True}[what]
    if through == 'vrmlstr':
        interp.call(interp.get_attr(f, 'vrmlstr'), [value, w.L])
    elif through == '_sffield':
        w.call('_sffield', value, f)
    else:
        w.call('_linear', value)
    if what == 'null':
        ctx.check('NULL is written', w.T.parts(w.log[0]) == ['NULL'] and len(w.log) == 1 and not calls, repr((w.log, calls)))
    elif what in ('node', 'script', 'nodes'):
        want = {'node': '_Node', 'script': '_Script', 'nodes': '_mfnode'}[what]
        ctx.check('by %s' % want, len(calls) == 1 and calls[0][0] == want and calls[0][1] is value, repr(calls))
        ctx.check('and nothing else', not w.log and not written, repr(w.log))
    else:
        ctx.check('the text of the value is written', len(written) == 1 and len(w.log) == 1 and same_text(w.log[0], written[0]) and not calls, repr((w.log, written, calls)))


def over_list(ctx, w, items, step, make, label):
    """A loop which writes the items of a list of any length: step checks what is written for one; afterwards so many of them are in what is written"""
    from pvc import loops
    import grammar as g
    def rule(interp, stmt, fr, got):
        if got is not items:
            return NotImplemented
        mark = []
        def havoc(k):
            mark.append(len(w.log))
        def preserved(k):
            step(k, w.log[mark[0]:])
        r = loops.by_invariant(interp, stmt, fr, got, lambda: None, havoc, preserved)
        w.loops.append(label)
        star = g.Star(make, None, label)
        w.log.append(w.thing(lambda: [star], label, star))
        return r
    w.interp.loop_specs.insert(0, rule)
    if not isinstance(getattr(w, 'loops', None), list):
        w.loops = []


def node_kind(ctx, w, linear):
    """_linear writes a node, by its contract"""
    def handler(interp, args, kwargs):
        kind = ctx.choose([k for k in KINDS if k != 'null'])
        linear.append((args[1], kind))
        ctx.cover(kind)
        w.write(w.phrase(kind, args[1]))
    w.method('_linear', handler, '_linear')


def node_list(ctx):
    import z3
    import grammar as g
    from pvc.values import LazyList
    from pvc.engine import PathEnd
    w = Writing(ctx, comments=False)
    n = ctx.int('length').z
    ctx.assume(n >= 0, check=False)
    nodes = [ctx.obj(node_probe(), 'node', open=True)]
    items = LazyList(n, lambda j: nodes[0], 'nodes')
    linear = []
    node_kind(ctx, w, linear)
    def phrases():
        return [strip_blank(w.T.segments(w.phrase(k, None))) for k in KINDS if k not in ('null', 'again')]
    def step(k, log):
        ctx.cover('step')
        ctx.check('every node is written once', len(linear) == 1 and linear[0][0] is nodes[0], repr(linear))
        segs = [s for x in log for s in w.T.segments(x)]
        body = strip(ctx, w, segs)
        want = strip_blank(w.T.segments(log[-1]))
        ok = len(body) == len(want) and [repr(x) for x in body] == [repr(x) for x in want]
        ctx.check('and nothing else but a separator', ok, repr((body, want)))
    # (blanks and comments are read with what they follow)
    def make(star):
        return [(p + s, None) for p in phrases() for s in (separator(), separator() + comment())]
    over_list(ctx, w, items, step, make, 'nodes')
    w.call('_mfnode', items)
    if not w.loops:
        ctx.cover('empty')
        ctx.check('the list is empty', n == 0)
        r = w.read('Field', strip_blank(w.segments()), separator() + g.lit('}'), 'an empty list')
        ctx.check('an empty list is read', r is not None and not r.children, repr(r))
        return
    ctx.cover('nodes')
    star = [d for d, s in w.things.values() if isinstance(d, g.Star)][0]
    segs = w.segments()
    at = [i for i, s in enumerate(segs) if s is star][0]
    # (the separator of an item read before it: one in front of the items, one behind each of them)
    tail = segs[at + 1:]
    rest = strip(ctx, w, tail)
    w.item_ok = lambda text, star, node: node.tag in ('Node', 'USE', 'Script')
    r = w.read('Field', strip_blank(segs[:at]) + separator() + ctx.choose([[], comment()]) + [star] + rest, separator() + g.lit('}'), 'a list of nodes')
    if r is not None:
        ctx.check('the nodes are read', len(r.children) == 1 and getattr(r.children[0], 'star', None) is star, repr(r))


def comment():
    import grammar as g
    return g.lit('#') + [g.Run(g.CharSet('\n', True)), g.Char('\n')]


def strip_blank(segs):
    from grammar import Run, Char, CharSet
    i = 0
    while i < len(segs) and (isinstance(segs[i], (Run, Char)) and segs[i].set.within(CharSet(BLANK))):
        i += 1
    return segs[i:]


def write_route(ctx):
    import grammar as g
    from vrml import route
    w = Writing(ctx, comments=False)
    r = ctx.obj(route.ROUTE, 'route', open=True)
    ends = [ctx.obj(node_probe(), x, open=True) for x in ('source', 'destination')]
    same = ctx.choose([True, False])
    if same:
        ends[1] = ends[0]
    names = [w.name(e, True) if id(e) not in w.names else w.names[id(e)][0] for e in ends]
    fields = [w.word('source field'), w.word('destination field')]
    for cls in (route.ROUTE,):
        def fget(interp, args, kwargs):
            return table[args[0].name if hasattr(args[0], 'name') else None]
        for x, v in [('source', ends[0]), ('destination', ends[1]), ('sourceField', fields[0]), ('destinationField', fields[1])]:
            w.interp.class_contracts['attr', cls, x] = lambda interp, o, v=v: v
    w.call('_route', r)
    after = ctx.choose([separator() + [g.Char(g.CharSet(BLANK + '#\x0b\x0c\r', True))], [g.Final()], separator() + [g.Final()]])
    n = w.read('rootItem', strip(ctx, w, w.segments()), after, 'a route')
    if n is None:
        return
    ctx.cover('read')
    ok = len(n.children) == 1 and n.children[0].tag == 'ROUTE' and [c.tag for c in n.children[0].children] == ['name'] * 4
    ctx.check('one route is read', ok, repr(n))
    if ok:
        got = [w.part(c) for c in n.children[0].children]
        ctx.check('between the nodes and fields of the route', all(same_text(a, b) for a, b in zip(got, [names[0], fields[0], names[1], fields[1]])), repr(got))


# ------------------------------------------------------------------ scripts
def type_text():
    """The name of a type (shown of all of them by 'names of the types')"""
    import grammar as g
    return [g.Char('SM'), g.Char('F'), g.Char(g.NAMESTART), g.Run(g.NAMECHARS)]


def type_names(ctx):
    from vrml import field
    all_modules()
    import grammar as g
    for kind in ('baseFieldTypes', 'baseEventTypes'):
        table = getattr(field, kind, {})
        for name in sorted(table):
            t = field.typeName(table[name])
            ctx.check('the name of a type begins with SF or MF and goes on as a name', t[:1] in 'SM' and t[1:2] == 'F' and len(t) > 2 and g.CharSet(t[2]).within(g.NAMESTART) and
                      all(g.CharSet(c).within(g.NAMECHARS) for c in t[3:]) or name in ('WeakSFNode', 'RootScenegraphNode'), repr((name, t)))
    ctx.cover('names')


def names_of_nodes(ctx):
    """getPrototype and protoName: the type of a node, and its name; defName: the DEF field of a node"""
    from vrml import node, protofunctions
    interp = make_interp(ctx)
    given = ctx.choose(['named', 'no name', 'list'])
    named = ctx.str('PROTO')
    if given == 'named':
        ctx.assume(named.z != '')
    else:
        named = ''
    cls = type('Probe', (list,) if given == 'list' else (node.Node,), {'__module__': 'vrml.node', 'PROTO': named})
    x = ctx.choose(['type', 'node'])
    thing = cls if x == 'type' else ctx.obj(cls, 'node', open=True)
    ctx.cover(given)
    ctx.cover(x)
    r = interp.call(protofunctions.getPrototype, [thing])
    ctx.check('the prototype of a node is its type', r is cls, repr(r))
    r = interp.call(protofunctions.protoName, [thing])
    want = {'named': named, 'no name': 'Probe', 'list': '__MFNode__'}[given]
    ctx.check('the name of its type', interp.truth(interp.eq(r, want)) is True, repr(r))
    if x == 'node' and given != 'list':
        read = []
        word = ctx.str('DEF')
        def fget(interp, args, kwargs):
            read.append((args, kwargs))
            return word
        getter = type(node.Node.DEF).fget
        interp.contract(getter, fget, 'fget (C02)')
        r = interp.call(protofunctions.defName, [thing])
        ctx.check('its name is read from its DEF field', r is word and len(read) == 1 and list(read[0][0]) == [node.Node.DEF, thing], repr((r, read)))
        ctx.cover('DEF')


def of_type(ctx, w, label='type'):
    return w.thing(type_text, label, label)


def declaration(events):
    """What is written for a field or an event of a script"""
    import grammar as g
    def of(*keywords):
        return [g.lit(k + ' ') + type_text() + g.lit(' ') + [g.Word()] for k in keywords]
    if events:
        return of('eventIn', 'eventOut')
    return [d + g.lit(' ') + [g.Atom('Field', VALUE)] for d in of('field', 'exposedField')]


def written_items(w, name, items, tag):
    """A method that writes any number of items, on lines of their own: a separator in front of each"""
    import grammar as g
    ctx = w.ctx
    def make(star):
        return [(one + separator(), None) for one in items()]
    def handler(interp, args, kwargs):
        w.called.append((name, args[1:], kwargs))
        ctx.cover(tag)
        star = g.Star(make, None, tag)
        w.stars.append(star)
        w.write(w.thing(lambda: [g.Run(BLANK), star], tag, star))
    w.method(name, handler, name)


def regrouped(w):
    """What is written, the separator in front of each item being taken for one behind the item before it"""
    import grammar as g
    out, star = [], False
    for i, x in enumerate(w.log):
        segs = w.T.segments(x)
        if star:
            if not any(isinstance(s, g.Star) for s in segs):
                rest = strip_blank(segs)
                if not any(isinstance(s, g.Char) and s.set.within(g.CharSet('\n')) for s in segs[:len(segs) - len(rest)]):
                    w.interp.unsupported('no separator behind the items: %r' % (segs,))
                segs, star = rest, False
            else:
                segs = strip_blank(segs)
        star = star or any(isinstance(s, g.Star) for s in segs)
        out += segs
    if star:
        w.interp.unsupported('items at the end')
    return out


def write_script(ctx):
    import z3, grammar as g
    from vrml import protofunctions
    from vrml.vrml97 import script
    w = Writing(ctx)
    proto = named_probe('Script', script._Script)
    client = ctx.obj(proto, 'script', open=True)
    named = w.name(client)
    w.interp.contract(protofunctions.protoName, lambda interp, args, kwargs: 'Script', 'protoName')
    w.interp.contract(protofunctions.name, lambda interp, args, kwargs: w.def_name(args[0]), 'name')
    state, key = node_state(ctx, w, client)
    w.called, w.stars = [], []
    written_items(w, '_eventDict', lambda: declaration(True), 'events')
    written_items(w, '_fieldDict', lambda: declaration(False), 'fields')
    written_items(w, '_attrDict', lambda: [[g.Word(), g.Char('\t'), g.Atom('Field', VALUE)]], 'attributes')
    ctx.trace[:] = []
    w.call('_Script', client)
    r = in_context(ctx, w, regrouped(w), 'a script')
    now = w.interp.dict_lookup(w.done, key)
    ctx.check('the script is registered as written', isinstance(now, tuple), repr(now))
    if r is None:
        return
    ctx.check('one thing is read', len(r) == 1, repr(r))
    n = r[0]
    if state == 'written' and named:
        ctx.cover('reference')
        ctx.check('a named script written before is referred to by its name', n.tag == 'USE' and same_text(w.part(n), named), repr(n))
        ctx.check('and not written again', not w.called)
        return
    ctx.cover('named' if named else 'without name')
    ctx.check('a script is read', n.tag == 'Script', repr(n))
    if n.tag != 'Script':
        return
    ctx.check('events, fields and attributes are written once', sorted(c[0] for c in w.called) == ['_attrDict', '_eventDict', '_fieldDict'], repr(w.called))
    for name, args, kwargs in w.called:
        node = kwargs.get('clientNode', args[0] if args else None)
        if name == '_attrDict':
            ctx.check('the attributes are those of the script', args[0] is client, repr(args))
            continue
        ctx.check('declared by the prototype or the script', args[0] is proto or args[0] is client, repr(args))
        if name == '_fieldDict':
            f = dict(zip(('requireDefault', 'skipFields', 'instance'), args[1:]), **kwargs)
            skip = f.get('skipFields', ('DEF',))
            known = isinstance(skip, (tuple, list)) and all(isinstance(x, str) for x in skip)
            ctx.check('the fields every script has are not declared', known and set(SCRIPT_FIELDS) <= set(skip), repr(skip))
            ctx.check('and all of the others are', known and all(x in SCRIPT_FIELDS or x[:1] == ' ' or x == 'DEF' for x in skip), repr(skip))
            ctx.check('with the values of the script', f.get('instance') is client, repr(f))
    kids = list(n.children)
    if named:
        ctx.check('with its name', bool(kids) and kids[0].tag == 'name' and same_text(w.part(kids[0]), named), repr(kids))
        kids = kids[1:]
    got = [k.star for k in kids if hasattr(k, 'star')]
    ctx.check('all that was declared is read', got == w.stars, repr((got, w.stars)))
    rest = [k.tag for k in kids if not hasattr(k, 'star')]
    ctx.check('and nothing else', not rest, repr(rest))


def declared(ctx, events):
    """_eventDict and _fieldDict, with eventVrmlstr and fieldVrmlstr"""
    import grammar as g
    from vrml import protofunctions, field
    w = Writing(ctx, comments=False)
    interp = w.interp
    proto, client = node_probe(), ctx.obj(node_probe(), 'script', open=True)
    if events:
        f = ctx.obj(ANY_EVENT, 'event', open=True)
        flag = 'direction'
    else:
        f = ctx.obj(ANY_FIELD, 'field', open=True)
        flag = 'exposure'
    name = ctx.choose(['any', ' private', ''] + ([] if events else list(SCRIPT_FIELDS)))
    public = name == 'any'
    if public:
        import z3
        name = w.word('field name')
        for other in SCRIPT_FIELDS:
            ctx.assume(name.z != z3.StringVal(other), check=False)
        ctx.assume(z3.Not(z3.PrefixOf(z3.StringVal(' '), name.z)), check=False)
    on = ctx.choose([0, 1])
    interp.set_attr(f, 'name', name)
    interp.set_attr(f, flag, on)
    fields = any_fields(ctx, f, 'fields')
    def of(interp, args, kwargs):
        ctx.check('those of the script', args[0] is proto and bool(dict(zip(('events',), args[1:]), **kwargs).get('events')) == events, repr((args, kwargs)))
        return fields
    interp.contract(protofunctions.getFields, of, 'getFields (C20)')
    kind = of_type(ctx, w)
    interp.contract(f.cls.__dict__['typeName'], lambda interp, args, kwargs: kind, 'typeName')
    value, stored = ctx.any('value'), ctx.any('coerced')
    written = []
    if not events:
        def fget(interp, args, kwargs):
            ctx.check('the value of the script', args[0] is f and args[1] is client, repr(args))
            return value
        def coerce(interp, args, kwargs):
            ctx.check('the value is coerced', args[1] is value or args[1] is stored, repr(args))
            return stored
        def vrmlstr(interp, args, kwargs):
            ctx.check('the value is written', (args[1] is value or args[1] is stored) and args[2] is w.L, repr(args))
            k = ctx.choose(all_values())
            ctx.cover(k)
            written.append(k)
            text = w.value(k, value)
            if k in ('simple', 'list'):
                return text
            w.write(text)
            return None
        interp.contract(ANY_FIELD.__dict__['fget'], fget, 'fget (C01, C02)')
        interp.contract(ANY_FIELD.__dict__['coerce'], coerce, 'coerce (C04)')
        default = ctx.any('default')
        interp.contract(ANY_FIELD.__dict__['getDefault'], lambda interp, args, kwargs: default, 'getDefault (C02)')
        interp.contract(ANY_FIELD.__dict__['vrmlstr'], vrmlstr, 'vrmlstr (C12, C13, _linear, _mfnode)')
    def step(log):
        if not log:
            ctx.cover('left out')
            ctx.check('whatever has a name is declared', not public, repr(name))
            return
        ctx.cover('written')
        ctx.check('nothing else is declared', public, repr(name))
        segs = [s for x in log for s in w.T.segments(x)]
        tag = 'ScriptEventDecl' if events else 'ScriptFieldDecl'
        after = ctx.choose([g.lit('}'), g.lit('field S'), g.lit('exposedField S'), g.lit('eventIn S'), g.lit('eventOut S'), [g.Word(), g.Char('\t'), g.Char(g.CharSet('{#\x0b\x0c\r' + BLANK, True))]])
        n = w.read(tag, strip(ctx, w, segs), separator() + after, 'a declaration')
        if n is None:
            return
        want = ['eventDirection', 'dataType', 'name'] if events else ['fieldExposure', 'dataType', 'name', 'Field']
        ok = [c.tag for c in n.children] == want
        ctx.check('with direction, type, name and value', ok, repr(n))
        if not ok:
            return
        word = (['eventIn', 'eventOut'] if events else ['field', 'exposedField'])[on]
        ctx.check('its kind', w.text.string(n.children[0].start, n.children[0].stop) == word, repr(n.children[0]))
        ctx.check('its name', same_text(w.part(n.children[2]), name))
        ctx.check('its type', type_part(w, n.children[1]), repr(w.text.between(n.children[1].start, n.children[1].stop)))
        if not events:
            ctx.check('one value is written', len(written) == 1, repr(written))
            ctx.check('its value', bool(written) and value_read(n.children[3], written[0]), repr((n, written)))
    over_fields(ctx, w, 'fields', step)
    if events:
        w.call('_eventDict', proto)
    else:
        w.interp.call(w.interp.get_attr(w.L, '_fieldDict'), [proto], dict(requireDefault=1, skipFields=interp.make((' DEF',) + SCRIPT_FIELDS), instance=client))
    if w.loops != 1:
        interp.unsupported('%d loops over the fields' % w.loops)
    ctx.check('nothing else is written', not w.log, repr(w.log))


def type_part(w, node):
    """The text of the type, as a whole"""
    text = w.text
    a, b = text.ahead(node.start), text.resolve(node.stop)
    segs = text.between(a, b)
    after = text.ahead(b)
    import grammar as g
    return len(segs) >= 3 and g.CharSet('SM').chars >= segs[0].set.chars and not segs[0].set.negative and isinstance(after, g.Char) and after.set.within(g.CharSet(' '))


# ------------------------------------------------------------------ whole scenes
class Used(object):
    """The names of the nodes of a scene"""
    def __contains__(self, name):
        raise NotImplementedError


def preroute(ctx):
    import ast, z3
    import grammar as g
    from pvc import loops, models
    from pvc.interp import Break, Continue, Poison
    from pvc.engine import PathEnd
    from pvc.values import SInt, SStr, string
    from vrml import route, protofunctions
    from vrml.vrml97 import scenegraph, linearise
    w = Writing(ctx, comments=False)
    interp = w.interp
    scene = ctx.obj(scenegraph.SceneGraph, 'scene', open=True)
    r = ctx.obj(route.ROUTE, 'route', open=True)
    ends = [ctx.obj(node_probe(), x, open=True) for x in ('source', 'destination')]
    if ctx.choose([True, False]):
        ends[1] = ends[0]
    for e in ends:
        if id(e) not in w.names:
            w.name(e)
    before = {id(e): w.names[id(e)][0] for e in ends}
    for x, v in [('source', ends[0]), ('destination', ends[1])]:
        interp.class_contracts['attr', route.ROUTE, x] = lambda interp, o, v=v: v
    types = {id(e): w.word('type') for e in ends}
    interp.contract(protofunctions.protoName, lambda interp, args, kwargs: types[id(args[0])], 'protoName')
    asked, given = [], []
    def answer(kind):
        def handler(interp, args, kwargs):
            there = ctx.choose([False, True])
            asked.append((kind, args[1], there))
            if kind == 'used':
                return there
            return ctx.obj(node_probe(), 'another', open=True) if there else None
        return handler
    interp.contract(Used.__contains__, answer('used'), 'in the names used')
    used = ctx.obj(Used, 'used')
    def names_used(interp, args, kwargs):
        ctx.check('the names of the scene', args[1] is scene)
        return used
    w.method('_usedNames', names_used, '_usedNames')
    interp.contract(scenegraph.SceneGraph.__dict__['getDEF'], answer('registered'), 'getDEF')
    def register(interp, args, kwargs):
        name, node = args[1], args[2]
        ctx.check('in the scene', args[0] is scene)
        ctx.check('only nodes without a name get one', id(node) in w.names and not w.names[id(node)][0], repr(args))
        ctx.check('of which no node is registered by', any(k == 'registered' and same_text(x, name) and not there for k, x, there in asked), repr(asked))
        ctx.check('and which no node of the scene has', any(k == 'used' and same_text(x, name) and not there for k, x, there in asked), repr(asked))
        segs = w.T.segments(name)
        text = g.Text(ctx, segs + g.lit(' '))
        n = g.Peg(ctx, text).production('name', text.start)
        ctx.check('it is read as a name', n is not None and isinstance(text.ahead(n[0]), g.Char) and text.ahead(n[0]).set.within(g.CharSet(' ')), repr(segs))
        ctx.cover('name')
        given.append(node)
        w.names[id(node)] = (w.word('given'), node)
        return None
    interp.contract(scenegraph.SceneGraph.__dict__['regDefName'], register, 'regDefName')
    interp.class_contracts['text', None] = digits(w)
    def rule(interp, stmt, fr, items):
        if items is not None or not isinstance(stmt, ast.While):
            return NotImplemented
        counters, texts = {}, {}
        names = loops.assigned(stmt.body)
        for x in names:
            v = fr.locals.get(x)
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                k = ctx.int(x)
                ctx.assume(k.z >= 0, check=False)
                counters[x] = (v, k)
        for x in names:
            if x in counters:
                fr.locals[x] = counters[x][1]
                continue
            # a text which ends in one of the counters is taken to do so at every step
            v = fr.locals.get(x)
            parts = w.T.parts(v) if isinstance(v, (str, SStr)) else []
            fr.locals[x] = Poison('value of %s carried around a loop' % x)
            for c, (first, k) in counters.items():
                if parts and isinstance(first, int) and isinstance(parts[-1], str) and parts[-1].endswith(str(first)):
                    head = parts[:-1] + [parts[-1][:-len(str(first))]]
                    def text(n, head=head):
                        tail = string(models.text_of(interp, n)) if not isinstance(n, int) else z3.StringVal(str(n))
                        all_ = [z3.StringVal(h) if isinstance(h, str) else h for h in head if not (isinstance(h, str) and h == '')] + [tail]
                        return SStr(z3.Concat(*all_) if len(all_) > 1 else all_[0])
                    texts[x] = (c, text)
                    fr.locals[x] = text(k)
        if interp.truth(interp.ev(stmt.test, fr)):
            n = len(given)
            try:
                interp.block(stmt.body, fr)
            except Break:
                return None
            except Continue:
                pass
            ctx.check('nothing is registered before going on', len(given) == n)
            for x, (c, text) in texts.items():
                if [repr(p) for p in w.T.parts(fr.locals[x])] != [repr(p) for p in w.T.parts(text(fr.locals[c]))]:
                    interp.unsupported('%s not made of the counter' % x)
            raise PathEnd('step of the loop')
        return None
    interp.loop_specs.insert(0, rule)
    w.call('_preroute', scene, r)
    for e in ends:
        ctx.check('every node of a route has a name', not isinstance(w.names[id(e)][0], str), repr(w.names[id(e)]))
        if not isinstance(before[id(e)], str):
            ctx.cover('named before')
            ctx.check('a node which had a name keeps it', w.names[id(e)][0] is before[id(e)])
    ctx.check('nothing is written', not w.log, repr(w.log))


def digits(w):
    """The text of a whole number which is not negative"""
    import z3
    import grammar as g
    from pvc.values import SInt, SStr
    table = {}
    def handler(interp, v):
        if not isinstance(v, SInt):
            return NotImplemented
        if w.ctx.feasible(v.z < 0):
            interp.unsupported('the text of a number which may be negative')
        key = v.z.get_id()
        if key not in table:
            s = w.ctx.str('digits')
            w.ctx.assume(z3.Length(s.z) > 0, check=False)
            w.T.known(s.z, lambda: [g.Char('0123456789'), g.Run('0123456789')])
            table[key] = (s, v)
        return table[key][0]
    return handler


def route_text():
    import grammar as g
    return g.lit('ROUTE ') + [g.Word()] + g.lit('.') + [g.Word()] + g.lit(' TO ') + [g.Word()] + g.lit('.') + [g.Word()]


def whole(ctx):
    """linear and _sceneGraph"""
    import z3
    import grammar as g
    from pvc import loops, models
    from pvc.engine import PathEnd
    from pvc.values import LazyList, SDict
    from vrml import protofunctions
    from vrml.vrml97 import linearise, scenegraph
    w = Writing(ctx, comments=False)
    interp = w.interp
    w.position = z3.IntVal(0)
    interp.contract(resolved(type(linearise.StringIO), '__call__') if False else linearise.StringIO, lambda interp, args, kwargs: w.new_buffer(), 'StringIO')
    scene = ctx.obj(scenegraph.SceneGraph, 'scene', open=True)
    w.names[id(scene)] = ('', scene)
    child, r = ctx.obj(node_probe(), 'child', open=True), ctx.obj(__import__('vrml.route').route.ROUTE, 'route', open=True)
    def protoname(interp, args, kwargs):
        if args[0] is scene or args[0] is scenegraph.SceneGraph:
            return 'sceneGraph'
        interp.unsupported('type of %r' % (args[0],))
    interp.contract(protofunctions.protoName, protoname, 'protoName')
    done = []
    counts = dict(children=ctx.int('children').z, routes=ctx.int('routes').z)
    for n in counts.values():
        ctx.assume(n >= 0, check=False)
    class Items(LazyList):
        def list_method(self, interp, target, name, args, kwargs):
            if name in ('__iter__', 'copy'):
                return self
            return models.lazy_method(interp, target, self, name, args, kwargs)
    class Routes(Items):
        def comprehend(self, interp, e, inner, gen, kind):
            if kind not in ('list', 'set', 'gen') or gen.ifs:
                interp.unsupported('a %s of the routes' % kind)
            n = len(w.log)
            before = list(done)
            interp.assign(gen.target, r, inner)
            v = interp.ev(e.elt, inner)
            one_prerouted(w.log[n:])
            return LazyList(counts['routes'], lambda j: v, 'results')
    children = Items(counts['children'], lambda j: child, 'children')
    routes = Routes(counts['routes'], lambda j: r, 'routes')
    cc = interp.class_contracts
    cc['attr', scenegraph.SceneGraph, 'children'] = lambda interp, o: children
    cc['attr', scenegraph.SceneGraph, 'routes'] = lambda interp, o: routes
    cc['attr', scenegraph.SceneGraph, 'protoTypes'] = lambda interp, o: interp.make({})
    state = {'stage': 'before', 'calls': []}
    def one_prerouted(log):
        calls = state['calls']
        ctx.check('every route is gone through first', state['stage'] == 'before' and calls == [('preroute', r)] and not log, repr((state, log)))
        state['stage'] = 'prerouted'
        calls[:] = []
    def buffer_log():
        b = interp.get_attr(w.L, 'buffer')
        return w.log_of(b)
    def write(x):
        buffer_log().append(x)
    def _preroute(interp, args, kwargs):
        ctx.check('in this scene', args[1] is scene, repr(args))
        state['calls'].append(('preroute', args[2]))
    w.method('_preroute', _preroute, '_preroute')
    linear = linearise.Lineariser.__dict__['_linear']
    def _linear(interp, args, kwargs):
        if args[1] is scene:
            return interp.call_live(linear, list(args), dict(kwargs))
        state['calls'].append(('child', args[1]))
        kind = ctx.choose([k for k in KINDS if k != 'null'])
        ctx.cover(kind)
        write(w.phrase(kind, args[1]))
    def fresh(d):
        key = interp.call(id, [scene])
        if isinstance(d, SDict):
            from pvc.values import ABSENT
            return not d.open and all(e[1] is ABSENT or e[0] is key or hasattr(e[0], 'z') and z3.is_true(z3.simplify(e[0].z == key.z)) for e in d.base + d.over)
        return isinstance(d, dict) and not d
    w.method('_linear', _linear, '_linear')
    def _route(interp, args, kwargs):
        state['calls'].append(('route', args[1]))
        write(w.thing(lambda: separator() + route_text(), 'route', args[1]))
    w.method('_route', _route, '_route')
    def _proto(interp, args, kwargs):
        interp.unsupported('a prototype')
    w.method('_proto', _proto, '_proto')
    def phrases():
        return [strip_blank(w.T.segments(w.phrase(k, None))) for k in KINDS if k not in ('null', 'again')]
    stars = []
    def rule(interp, stmt, fr, got):
        if got is not children and got is not routes:
            return NotImplemented
        log = buffer_log()
        stage = state['stage']
        if got is routes and stage == 'before':
            what = 'preroute'
        elif got is children:
            ctx.check('all routes were gone through before', stage == 'prerouted', stage)
            what = 'children'
        else:
            ctx.check('the nodes are written before the routes', stage == 'children', stage)
            what = 'routes'
        mark, seen = [], []
        if what == 'children':
            d = interp.get_attr(w.L, 'alreadydone')
            ctx.check('no node has been written', fresh(d), repr(d))
            if not isinstance(d, SDict):
                interp.unsupported('alreadydone is %r' % (d,))
            # (later on, any nodes were)
            d.open = True
            d.base[:] = []
            d.over[:] = []
        def havoc(k):
            mark.append(len(log))
            state['calls'][:] = []
        def preserved(k):
            new, calls = log[mark[0]:], state['calls']
            if what == 'preroute':
                return one_prerouted(new)
            ctx.cover('step of the %s' % what)
            ctx.check('every one is written once', calls == [(what == 'children' and 'child' or 'route', child if what == 'children' else r)], repr(calls))
            segs = [s for x in new for s in w.T.segments(x)]
            body = strip_blank(segs)
            want = strip_blank([s for x in new if x.z.get_id() in w.things for s in w.T.segments(x)]) if all(hasattr(x, 'z') for x in new) else None
            tail = body[len(want):] if want is not None else None
            ok = want is not None and [repr(x) for x in body[:len(want)]] == [repr(x) for x in want] and all(isinstance(s, (g.Run, g.Char)) and s.set.within(g.CharSet(BLANK)) for s in tail)
            ctx.check('and nothing else but separators', ok, repr((body, want)))
            # (each on its own lines: comments end there)
            if what == 'children':
                ctx.check('each ends its line', ok and any(isinstance(s, g.Char) and s.set.within(g.CharSet('\n')) for s in tail), repr(tail))
            else:
                ctx.check('each begins a line', segs[:1] != body[:1], repr(segs))
        loops.by_invariant(interp, stmt, fr, got, lambda: None, havoc, preserved)
        state['stage'] = {'preroute': 'prerouted', 'children': 'children', 'routes': 'routes'}[what]
        if what == 'children':
            star = g.Star(lambda star: [(p + separator() + c, None) for p in phrases() for c in ([], comment() + [g.Run(BLANK)])], None, 'nodes')
            # (blanks in front of a node or route are among those behind what comes before it, and a comment in front of a node is read with what comes before it; here also behind the last node)
            first = ctx.choose([[], comment() + [g.Run(BLANK)]])
            stars.append(star)
            log.append(w.thing(lambda: [g.Run(BLANK)] + first + [star], 'children', star))
        elif what == 'routes':
            if ctx.choose([True, False]):
                ctx.cover('routes')
                star = g.Star(lambda star: [(route_text() + separator(), None)], None, 'routes')
                stars.append(star)
                log.append(w.thing(lambda: [star] + route_text(), 'routes', star))
            else:
                ctx.cover('no routes')
        return None
    interp.loop_specs.insert(0, rule)
    result = w.call('linear', scene)
    if state['stage'] != 'routes':
        interp.unsupported('nodes and routes written otherwise: %r' % (state,))
    segs = w.T.segments(result)
    ctx.check('the header comes first', g.Text(ctx, segs).string(segs[0], segs[15]) == '#VRML V2.0 utf8' and segs[15].set.within(g.CharSet('\n')), repr(segs[:20]))
    w.item_ok = lambda text, star, node: node.tag == 'rootItem' and [c.tag for c in node.children] in ([['Node'], ['USE'], ['Script']] if star.label == 'nodes' else [['ROUTE']])
    n = w.read('vrmlFile', segs, [g.Final()], 'the file')
    if n is None:
        return
    ctx.cover('read')
    ok = len(n.children) >= 1 and n.children[-1].tag == 'vrmlScene'
    ctx.check('a scene is read', ok, repr(n))
    if ok:
        kids = n.children[-1].children
        ctx.check('all of the nodes and routes are read, in order', [k.star for k in kids if hasattr(k, 'star')] == stars, repr(kids))
        ctx.check('and nothing else', [[c.tag for c in k.children] for k in kids if not hasattr(k, 'star')] == [['ROUTE']] * (len(stars) - 1), repr(kids))


# ------------------------------------------------------------------ comparing values
def compare(ctx):
    """safeCompare: only equal values are"""
    import z3, numpy
    from vrml import arrays
    interp = make_interp(ctx)
    kinds = ['none', 'number', 'text', 'array', 'list', 'node']
    class LIST(list):
        __hash__ = None
    def value(kind, label):
        if kind == 'none':
            return None
        if kind == 'number':
            return ctx.int(label)
        if kind == 'text':
            return ctx.str(label)
        if kind == 'array':
            return ctx.obj(numpy.ndarray, label)
        if kind == 'list':
            return ctx.obj(LIST, label)
        return ctx.obj(node_probe_class, label, open=True)
    node_probe_class = node_probe()
    ka, kb = ctx.choose(kinds), ctx.choose(kinds)
    if {ka, kb} & {'number', 'text'} and {ka, kb} & {'array', 'list', 'node'}:
        # (values of one field are not compared with such)
        return
    a = value(ka, 'first')
    # (numbers are finite)
    b = a if ka == kb and ctx.choose([True, False]) else value(kb, 'second')
    shapes = a is b or ka != 'array' or ctx.choose([True, False])
    items = a is b or ctx.choose([True, False])
    ctx.cover('%s and %s' % (ka, kb))
    class_contracts = interp.class_contracts
    class_contracts['attr', numpy.ndarray, 'shape'] = lambda interp, o: (3,) if o is a or shapes else (4,)
    truth = ctx.any('which components are equal')
    def compared(interp, args, kwargs):
        x, y = args
        if ka == kb == 'array' and {id(x), id(y)} == {id(a), id(b)}:
            # (where the shapes differ, one may be repeated to the shape of the other)
            return truth
        if ka == kb == 'list' and {id(x), id(y)} == {id(a), id(b)}:
            return items
        return NotImplemented
    interp.contract(numpy.ndarray.__dict__['__eq__'], compared, 'ndarray ==')
    interp.contract(list.__dict__['__eq__'], compared, 'list ==')
    def every(interp, args, kwargs):
        if len(args) == 1 and args[0] is truth:
            return items
        if len(args) == 1 and args[0] is True and a is b:
            return True
        interp.unsupported('all of %r' % (args,))
    interp.contract(numpy.all, every, 'numpy.all')
    r = interp.call(arrays.safeCompare, [a, b])
    if not interp.truth(r):
        ctx.cover('different')
        return
    ctx.cover('equal')
    ctx.check('values which are equal are of one kind', ka == kb or {ka, kb} <= {'number', 'text'}, '%s and %s' % (ka, kb))
    if ka != kb:
        return
    if ka in ('array', 'list'):
        ctx.check('equal in shape and every component', shapes and items)
    elif ka == 'node':
        ctx.check('the same node', a is b)
    elif ka in ('number', 'text'):
        ctx.check('the same value', a.z == b.z)


def proofs(mode):
    global ANY_FIELD, ANY_EVENT
    from vrml import field
    ANY_EVENT = type('AnyEvent', (field.Event,), {'__module__': 'vrml.field', 'typeName': lambda self: None})
    ANY_FIELD = type('AnyField', (field.Field,), {'__module__': 'vrml.field', 'fget': lambda self, client: None, 'getDefault': lambda self, client=None: None,
                                                  'coerce': lambda self, value: None, 'vrmlstr': lambda self, value, lineariser: None, 'typeName': lambda self: None})
    out = []
    out.append(('linearise()', new_lineariser, dict(covers=['given', 'defaults'])))
    out.append(('_canUse', can_use, dict(covers=['new, named', 'new, no name', 'written, named', 'written, no name'])))
    out.append(('_Node', write_node, dict(covers=['reference', 'named', 'without name', 'attributes', 'no attributes'])))
    out.append(('_attrDict', attr_dict, dict(covers=['left out', 'written'] + all_values())))
    out.append(('_sffield and _linear', dispatch, dict(covers=['null by _sffield', 'node by _sffield', 'script by _sffield', 'null by _linear', 'node by _linear', 'script by _linear', 'null by vrmlstr', 'node by vrmlstr', 'script by vrmlstr', 'nodes by vrmlstr', 'nodes by _sffield',
                                                              'texts by _sffield', 'number by _sffield', 'text by _sffield', 'array by _sffield', 'truth by _sffield'])))
    out.append(('_mfnode', node_list, dict(covers=['empty', 'nodes', 'step'] + [k for k in KINDS if k != 'null'], wall=200)))
    out.append(('_Script', write_script, dict(covers=['reference', 'named', 'without name', 'events', 'fields', 'attributes'], wall=200, max_paths=6000)))
    out.append(('_eventDict', lambda ctx: declared(ctx, True), dict(covers=['left out', 'written'])))
    out.append(('_fieldDict', lambda ctx: declared(ctx, False), dict(covers=['left out', 'written'] + all_values(), wall=200)))
    out.append(('safeCompare', compare, dict(covers=['equal', 'different', 'array and array', 'list and list', 'node and node', 'number and number', 'text and text', 'none and none'])))
    out.append(('names of the types', type_names, dict(covers=['names'])))
    out.append(('names of nodes', names_of_nodes, dict(covers=['named', 'no name', 'list', 'type', 'node', 'DEF'])))
    out.append(('_preroute', preroute, dict(covers=['name', 'named before'])))
    from scene_names import public_fields
    out.append(('_usedNames', lambda ctx, known={}: public_fields(ctx, ANY_FIELD, known), dict(covers=['name', 'node in a node'], wall=200, max_paths=20000)))
    out.append(('linear and _sceneGraph', whole, dict(covers=['read', 'routes', 'no routes', 'step of the children', 'step of the routes'] + [k for k in KINDS if k != 'null'], wall=200)))
    out.append(('_route', write_route, dict(covers=['read'])))
    return out


# ================================================================== bounded: real scenes written and parsed
NAMES = ['A', 'B', 'Box', 'Box_0', 'Group_0', 'Transform_0', 'Transform_1', 'Shape_0', 'USEful', 'DEFx', 'TRUEish', 'NULL1', 'Scripty', 'ROUTE1', 'PROTO_', 'ISx', 'TOx', 'x-y', 'n:1', 'a+b', '<x>', 'caf\u00e9', '_',
         'sceneGraph', 'Group', 'Script', 'TO', 'children', 'x\u4e2d', '%s', '%(indent)s', '$', '~', 'a/b', 'x=1', '(', '!', '*', '@', '|', '&amp;', '^', '`', '?', ';']
TYPES = ['SFNode', 'MFNode', 'SFVec3f', 'MFFloat', 'MFString', 'SFColor', 'SFFloat', 'MFVec3f', 'SFString', 'MFInt32', 'SFRotation', 'SFBool', 'SFTime', 'SFInt32', 'MFRotation', 'SFVec2f', 'MFColor', 'SFImage']


def builtin_types():
    from vrml.vrml97 import basenamespaces
    from vrml import node
    return sorted(k for k, v in basenamespaces.basePrototypes.items() if isinstance(v, type) and issubclass(v, node.Node) and k not in ('sceneGraph', 'ROUTE', 'IS', 'NULL', 'Script'))


def a_number(r):
    k = r.random()
    if k < .3:
        return r.choice([0., 1., -1., .5, 2., 10., 1e10, 1e-10, -0.25, 3., 100.])
    if k < .6:
        return r.uniform(-10, 10)
    return r.gauss(0, 1) * 10 ** r.randrange(-8, 9)


def a_text(r):
    return ''.join(r.choice(['a', 'b', ' ', '"', '\\', '\n', '#', '{', '}', '[', ']', ',', 'USE', 'caf\u00e9', "'", '\t', 'DEF x', '%s']) for i in range(r.choice([0, 1, 2, 5, 12])))


def close(r, x):
    """A number close to that one (of its type)"""
    import numpy
    k = r.random()
    if k < .3:
        return numpy.nextafter(x, type(x)(r.choice([-1e30, 1e30])))
    if k < .9:
        return x + type(x)(r.choice([-1, 1]) * 10. ** -r.randrange(1, 17)) * (abs(x) or type(x)(1))
    return -x


def some_value(r, f, make, default=None):
    """A random value of a field, now and then close to the default"""
    import re, numpy
    t = f.typeName()
    if t == 'SFNode':
        return make(f)
    if t == 'MFNode':
        return [make(f) for i in range(r.choice([0, 1, 1, 2, 3]))]
    if default is not None and r.random() < .4:
        # the default with some part changed
        if isinstance(default, numpy.ndarray) and default.size:
            v = numpy.array(default)
            i = r.randrange(v.size)
            v.flat[i] = (close(r, v.flat[i]) if r.random() < .5 else a_number(r)) if v.dtype.kind == 'f' else r.randrange(100)
            return v
        if isinstance(default, numpy.ndarray) or isinstance(default, list):
            return default
        if isinstance(default, str):
            return default + 'x'
        if t in ('SFFloat', 'SFTime') and r.random() < .7:
            return close(r, float(default))
        if isinstance(default, (int, float)):
            return default + 1 if t != 'SFBool' else not default
    if t == 'SFString':
        return a_text(r)
    if t == 'MFString':
        return [a_text(r) for i in range(r.choice([0, 1, 2, 3]))]
    if t == 'SFInt32':
        return r.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, r.randrange(1000)])
    if t == 'SFUInt32':
        return r.randrange(1 << 32)
    if t == 'SFBool':
        return r.choice([True, False])
    if t in ('SFFloat', 'SFTime'):
        return a_number(r)
    m = re.match('[SM]F(Vec|Color|Rotation|Matrix)([234]?)', t)
    n = {'Color': 3, 'Rotation': 4}.get(m.group(1)) or (int(m.group(2)) ** (2 if m.group(1) == 'Matrix' else 1)) if m else 1
    number = a_number
    if m and m.group(1) == 'Color':
        number = lambda r: r.choice([0., 1., r.random()])
    if t == 'SFImage':
        w, h, k = r.choice([(0, 0, 0), (1, 2, 1), (2, 2, 3)])
        return [w, h, k] + [r.randrange(256 ** max(k, 1)) for i in range(w * h)]
    if t.startswith('SF') and not t.startswith('SFArray'):
        return [number(r) for i in range(n)]
    if 'UInt' in t:
        number = lambda r: r.randrange(1 << 32)
    elif 'Int' in t:
        number = lambda r: r.choice([-1, 0, 1, 2 ** 31 - 1, r.randrange(99)])
    return [number(r) for i in range(n * r.choice([0, 1, 2, 3, 9]))]


class Builder(object):
    """Acyclic scenes of built-in nodes"""
    def __init__(self, rnd, size, scripts=True, unnamed=True):
        from vrml.vrml97 import basenamespaces
        self.rnd, self.size, self.scripts = rnd, size, scripts
        self.types = basenamespaces.basePrototypes
        self.names = list(NAMES)
        rnd.shuffle(self.names)
        self.nodes, self.unnamed = [], unnamed
    def pick(self, f):
        from vrml import node
        r = self.rnd
        if self.nodes and r.random() < .35 or len(self.nodes) >= self.size and self.nodes:
            n = r.choice(self.nodes)
            if self.unnamed or n.DEF:
                return n
        if len(self.nodes) >= self.size or isinstance(f, node.SFNode) and r.random() < .05:
            return None
        return self.node()
    def child(self, f):
        """A node for a field, or None"""
        for i in range(5):
            n = self.pick(f)
            if n is None:
                from vrml import node
                return node.NULL
            try:
                f.coerce(n if f.typeName() == 'SFNode' else [n])
                return n
            except ValueError:
                pass
        from vrml import node
        return node.NULL
    def node(self):
        from vrml import protofunctions, field, node
        from vrml.vrml97.script import Script
        r = self.rnd
        self.size -= 1
        if self.scripts and r.random() < .1:
            n = self.script()
        else:
            names = builtin_types()
            n = self.types[r.choice(names) if r.random() < .5 else r.choice(['Group', 'Transform', 'Switch', 'Shape', 'IndexedFaceSet', 'Coordinate', 'Material', 'LOD', 'Anchor'])]()
        if r.random() < .5 and self.names:
            n.DEF = self.names.pop()
        fields = self.fields(n)
        for f in r.sample(fields, min(len(fields), r.choice([0, 1, 2, 4, 8]))):
            self.set(n, f)
        self.nodes.append(n)
        return n
    def set(self, n, f):
        from vrml import node
        r = self.rnd
        k = r.random()
        if k < .1:
            f.fget(n)
        else:
            v = some_value(r, f, self.child, f.getDefault())
            if f.typeName() == 'MFNode':
                v = [x for x in v if x is not node.NULL]
            f.fset(n, v)
            if k < .2:
                f.fdel(n)
            elif k < .3 and f.typeName() == 'MFNode':
                x = self.child(f)
                if x is not node.NULL:
                    f.fget(n).append(x)
    def fields(self, n):
        from vrml import protofunctions, field, node
        return sorted((f for f in protofunctions.getFields(n) if f.name[:1] != ' ' and not isinstance(f, field.WeakField)), key=lambda f: f.name)
    def script(self):
        from vrml import field
        from vrml.vrml97.script import Script
        r = self.rnd
        out = []
        for i in range(r.choice([0, 1, 2, 3])):
            t = r.choice(TYPES)
            name = '%s%d' % (t.lower(), i)
            f = field.newField(name, t, 1)
            v = some_value(r, f, self.child)
            if t == 'MFNode':
                v = [x for x in v if x]
            out.append(field.newField(name, t, r.choice([0, 1]), f.coerce(v) if r.random() < .5 else v))
        for i in range(r.choice([0, 0, 1, 2])):
            out.append(field.newEvent('event%d' % i, r.choice(TYPES), r.choice([0, 1])))
        return Script(out)
    def scene(self):
        from vrml import route, protofunctions, field, node
        from vrml.vrml97 import scenegraph
        r = self.rnd
        top = [self.node() for i in range(r.choice([0, 1, 2, 4]))]
        top += [r.choice(self.nodes) for i in range(r.choice([0, 0, 1])) if top]
        if r.random() < .7:
            sg = scenegraph.SceneGraph(children=top)
        else:
            sg = scenegraph.SceneGraph()
            for x in top:
                sg.children.append(x)
        # (what is made but not put in the scene)
        inside = reachable(sg)[1:]
        for i in range(r.choice([0, 0, 1, 2, 4])):
            if not inside:
                break
            ends = [r.choice(inside) for j in (0, 1)]
            names = []
            for n, events in zip(ends, (1, 0)):
                fs = [f.name for f in self.fields(n)] + [e.name for e in protofunctions.getFields(n, 1) if e.name[:1] != ' ']
                name = r.choice(sorted(set(fs)) or ['x'])
                names.append(name)
            if 'x' in names:
                continue
            sg.addRoute(route.ROUTE(source=ends[0], sourceField=names[0], destination=ends[1], destinationField=names[1]))
        return sg


def reachable(top):
    from vrml import node, protofunctions, field
    out, seen, todo = [], set(), [top]
    while todo:
        n = todo.pop()
        if id(n) in seen or not n:
            continue
        seen.add(id(n))
        out.append(n)
        for f in sorted(protofunctions.getFields(n), key=lambda f: f.name):
            if f.nodes and f.name[:1] != ' ' and not isinstance(f, field.WeakField) and f.name != 'routes':
                v = f.fget(n)
                todo += v if isinstance(v, list) else [v]
    return out


class Differs(Exception):
    pass


class Compare(object):
    def __init__(self):
        self.there, self.back = {}, {}
    def fail(self, *what):
        raise Differs(' '.join(str(x) for x in what))
    def nodes(self, a, b, where):
        from vrml import node, protofunctions, field
        if not a or not b:
            if bool(a) != bool(b):
                self.fail(where, 'is', b, 'for', a)
            return
        script = protofunctions.protoName(a) == 'Script'
        if type(a) is not type(b) if not script else protofunctions.protoName(b) != 'Script':
            self.fail(where, 'is', b, 'for', a)
        if (a.DEF or '') != (b.DEF or ''):
            self.fail(where, 'is named', repr(b.DEF), 'for', repr(a.DEF))
        known = self.there.get(id(a))
        if known is not None and known[1] is b:
            return
        if a.DEF and known is not None:
            self.fail(where, 'is another node named', a.DEF)
        if self.back.get(id(b), (a,))[0] is not a:
            self.fail(where, 'is the node for', self.back[id(b)][0], 'too')
        self.there[id(a)] = (a, b)
        self.back[id(b)] = (a, b)
        fs = [{f.name: f for f in protofunctions.getFields(x) if f.name[:1] != ' ' and not isinstance(f, field.WeakField)} for x in (a, b)]
        if set(fs[0]) != set(fs[1]):
            self.fail(where, 'has the fields', sorted(fs[1]), 'for', sorted(fs[0]))
        if script:
            es = [sorted((e.name, e.typeName(), e.direction) for e in protofunctions.getFields(x, 1)) for x in (a, b)]
            if es[0] != es[1]:
                self.fail(where, 'has the events', es[1], 'for', es[0])
        for name in sorted(fs[0]):
            f, g = fs[0][name], fs[1][name]
            if (f.typeName(), bool(f.exposure)) != (g.typeName(), bool(g.exposure)):
                self.fail(where, 'field', name, 'is', g)
            self.values(f.fget(a), g.fget(b), f, '%s.%s' % (where, name))
    def values(self, x, y, f, where):
        import numpy
        t = f.typeName()
        if t == 'SFNode':
            return self.nodes(x, y, where)
        if t == 'MFNode':
            if len(x) != len(y):
                self.fail(where, 'has', len(y), 'nodes for', len(x))
            for i, (p, q) in enumerate(zip(x, y)):
                self.nodes(p, q, '%s[%d]' % (where, i))
            return
        if isinstance(x, numpy.ndarray) or isinstance(y, numpy.ndarray):
            x, y = f.coerce(x), f.coerce(y)
            same = isinstance(x, numpy.ndarray) and isinstance(y, numpy.ndarray) and x.shape == y.shape and x.dtype == y.dtype and bool((x == y).all())
        else:
            same = x == y
        if not same:
            self.fail(where, 'is', repr(y), 'for', repr(x))
    def scenes(self, a, b):
        if len(a.children) != len(b.children):
            self.fail('the scene has', len(b.children), 'children for', len(a.children))
        for i, (p, q) in enumerate(zip(a.children, b.children)):
            self.nodes(p, q, 'children[%d]' % i)
        if len(a.routes) != len(b.routes):
            self.fail('the scene has', len(b.routes), 'routes for', len(a.routes))
        for p, q in zip(a.routes, b.routes):
            for end in ('source', 'destination'):
                n, m = getattr(p, end), getattr(q, end)
                if self.there.get(id(n), (0, 0))[1] is not m:
                    self.fail('the', end, 'of', q, 'is', m, 'for', n)
                if getattr(p, end + 'Field') != getattr(q, end + 'Field'):
                    self.fail('a route has the', end, getattr(q, end + 'Field'), 'for', getattr(p, end + 'Field'))
        for n, m in self.there.values():
            if n.DEF and b.getDEF(n.DEF) is not m:
                self.fail('the name', n.DEF, 'is that of', b.getDEF(n.DEF))


def quiet(f, *args):
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*args)


def cases(rnd, tier, mode):
    n = 1500 if tier == 'quick' else 30000
    for i in range(n):
        yield {'kind': 'scene', 'seed': rnd.randrange(1 << 48)}


def check_case(case):
    return quiet(case_scene, case)


def case_scene(case):
    import random
    from vrml.vrml97 import linearise
    from vrml.vrml97.parser import buildParser
    all_modules()
    r = random.Random(case['seed'])
    b = Builder(r, r.choice([1, 3, 6, 12, 25]), unnamed=r.random() < .5, scripts=r.random() < .5)
    scene = b.scene()
    text = linearise.linearise(scene, r.choice([linearise.defaults, linearise.defaults, linearise.minimal1]))
    again = linearise.linearise(scene)
    try:
        ok, result, n = buildParser().parse(text)
    except Exception as err:
        return 'what is written is not read: %s: %s: %r' % (type(err).__name__, str(err)[:200], text[:1500])
    if not ok or n != len(text):
        return 'read up to %s of %s: %r' % (n, len(text), text[:1500])
    try:
        Compare().scenes(scene, result[1])
    except Differs as err:
        return '%s: %r' % (err, text[:1500])
    return None
