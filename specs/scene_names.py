"""Lineariser._usedNames: the names of all nodes of a scene

Two nodes of the scene are looked at, P and Q, of which Q is a value (or in the list which is the value) of a
public node field F of P; nothing is known of the others.  What sets and lists made by the function hold
is seen from P and Q only: whether either of them, its identity or its name is in them.  From the few states of
that kind in which the loop can be (all of them are found by executing its body on every one of them
until no other comes up) those in which it ends are proved to be such that P, once it was to be looked
at, has its name among the names and Q was to be looked at, too.  By induction on the way from the root,
every node of the scene then has its name among those returned.
"""
from common import *


def public_fields(ctx, Field, known):
    import z3
    from pvc.loops import assigned, target_names, sub_explore
    from pvc.interp import Break, Continue, Poison
    from pvc.engine import PathEnd
    from pvc.values import LazyList, SAny, SInt, SStr, Model
    from vrml import protofunctions
    from vrml.vrml97 import linearise, scenegraph
    from pvc import models
    interp = make_interp(ctx)
    L = models.new_instance(interp, linearise.Lineariser)
    P, Q = ctx.any('P'), ctx.any('Q')
    from pvc.values import Truthy, V
    ctx.assume(z3.And(Truthy(P.z), Truthy(Q.z), P.z != Q.z), check=False)
    NAME, ID = z3.Function('name_of', V, z3.StringSort()), z3.Function('id', V, z3.IntSort())
    tracked = [('node', P), ('node', Q)]
    which = {'P': P, 'Q': Q}
    bags, sets, ever = [], [], {'P': False, 'Q': False}

    def node_label(v):
        if not isinstance(v, SAny):
            interp.unsupported('%r for a node' % (v,))
        for k, x in which.items():
            if z3.eq(v.z, x.z):
                return k
        return None
    def token(v):
        """What of P or Q it is, or None for something of another node"""
        if isinstance(v, SInt):
            for k, x in which.items():
                if z3.eq(v.z, ID(x.z)):
                    return 'id ' + k
            if not (z3.is_app(v.z) and v.z.decl().name() == 'id'):
                interp.unsupported('%r in a set' % (v,))
            return None
        if isinstance(v, SStr):
            for k, x in which.items():
                if z3.eq(v.z, NAME(x.z)):
                    return 'name ' + k
            if not (z3.is_app(v.z) and v.z.decl().name() == 'name_of'):
                interp.unsupported('%r in a set' % (v,))
            return None
        k = node_label(v)
        return k and 'node ' + k
    def other():
        x = ctx.any('another')
        ctx.assume(z3.And(x.z != P.z, x.z != Q.z), check=False)
        return x
    def met(k):
        if k:
            ever[k] = True

    class Tokens(LazyList):
        """A set"""
        cls = set
        def __init__(self, label='set'):
            self.has, self.label = set(), label
            sets.append(self)
        n = property(lambda self: interp.unsupported('the size of a set'))
        def list_method(self, interp, target, name, args, kwargs):
            if name == 'add':
                t = token(args[0])
                if t:
                    self.has.add(t)
                return None
            if name == '__contains__':
                t = token(args[0])
                if t is None:
                    return ctx.choose([True, False])
                if t.startswith('name') and t not in self.has and ctx.choose([True, False]):
                    # (another node may have the same name)
                    self.has.add(t)
                return t in self.has
            interp.unsupported('set.%s' % name)
        def state(self):
            return tuple(sorted(self.has))
        def restore(self, s):
            self.has = set(s)

    class Bag(LazyList):
        """A list of nodes: which of P and Q are in it"""
        cls = list
        def __init__(self, has, label='list'):
            self.has, self.label, self.some = set(has), label, False
            bags.append(self)
        @property
        def n(self):
            k = ctx.int('length').z
            self.some = self.some or bool(self.has) or ctx.choose([True, False])
            ctx.assume(k >= 1 if self.some else k == 0, check=False)
            return k
        def item(self, i):
            interp.unsupported('an item by its index')
        def copy_list(self, interp):
            for k in self.has:
                met(k)
            return Bag(self.has, 'copy')
        def element(self):
            k = ctx.choose([None] + sorted(self.has))
            return which[k] if k else other()
        def list_method(self, interp, target, name, args, kwargs):
            if name == '__iter__':
                return self
            if name in ('pop', 'popleft') and (not args or type(args[0]) is int):
                if not self.has and not self.some and ctx.choose([False, True]):
                    interp.raise_(IndexError, 'pop from an empty list')
                x = self.element()
                self.some = False
                k = node_label(x)
                if k and ctx.choose([True, False]):
                    # (it was in it once)
                    self.has.discard(k)
                return x
            if name in ('append', 'insert'):
                k = node_label(args[-1])
                if k:
                    self.has.add(k)
                    met(k)
                return None
            if name in ('extend', '__iadd__'):
                v = args[0]
                if isinstance(v, Bag):
                    new = set(v.has)
                elif type(v) in (list, tuple):
                    new = set(node_label(x) for x in v) - {None}
                else:
                    interp.unsupported('extension by %r' % (v,))
                self.has |= new
                for k in new:
                    met(k)
                return self if name == '__iadd__' else None
            if name == '__len__':
                return SInt(self.n)
            interp.unsupported('list.%s' % name)
        def state(self):
            return tuple(sorted(self.has))
        def restore(self, s):
            self.has, self.some = set(s), False

    class Fields(LazyList):
        cls = list
        def __init__(self, of, there):
            self.of, self.there, self.label = of, there, 'fields'
            k = ctx.int('fields').z
            ctx.assume(k >= 0, check=False)
            self.n = k
        def item(self, i):
            interp.unsupported('a field by its index')
        def list_method(self, interp, target, name, args, kwargs):
            if name in ('__iter__', 'copy'):
                return self
            if name == 'sort':
                return None
            if name == 'sorted':
                return self
            interp.unsupported('list.%s of the fields' % name)
        def comprehend(self, interp, e, inner, g, kind):
            if kind not in ('list', 'gen') or g.is_async:
                interp.unsupported('a %s of fields' % kind)
            there = self.there
            if there:
                interp.assign(g.target, F, inner)
                for c in g.ifs:
                    there = there and interp.truth(interp.ev(c, inner))
                if there and interp.ev(e.elt, inner) is not F:
                    interp.unsupported('something made of the fields')
            return Fields(self.of, there)

    F = ctx.obj(Field, 'field', open=True)
    fname = ctx.str('field name')
    ctx.assume(z3.And(z3.Length(fname.z) > 0, z3.Not(z3.PrefixOf(z3.StringVal(' '), fname.z))), check=False)
    interp.set_attr(F, 'name', fname)
    interp.set_attr(F, 'nodes', 1)
    def any_field():
        f = ctx.obj(Field, 'field', open=True)
        interp.set_attr(f, 'name', ctx.str('field name'))
        ctx.assume(z3.Length(interp.get_attr(f, 'name').z) > 0, check=False)
        interp.set_attr(f, 'nodes', ctx.choose([0, 1]))
        return f
    def fget(interp, args, kwargs):
        f, node = args[0], args[1]
        many = ctx.choose([False, True])
        must = {'Q'} if f is F and node_label(node) == 'P' else set()
        if many:
            return Bag(must | set(ctx.choose([(), ('P',), ('Q',), ('P', 'Q')])), 'value')
        if must:
            return Q
        k = ctx.choose([None, 'P', 'Q'])
        return which[k] if k else other()
    interp.contract(Field.__dict__['fget'], fget, 'fget (C01, C02)')
    def fields_of(interp, args, kwargs):
        if len(args) != 1 or kwargs.get('events'):
            interp.unsupported('other fields')
        return Fields(args[0], node_label(args[0]) == 'P')
    interp.contract(protofunctions.getFields, fields_of, 'getFields (C20)')
    def name_of(interp, args, kwargs):
        if len(args) != 1 or kwargs:
            interp.unsupported('renaming')
        node_label(args[0])
        return SStr(NAME(args[0].z))
    interp.contract(protofunctions.defName, name_of, 'defName (C02)')
    interp.class_contracts['isinstance', None] = lambda interp, v, c: False if c in (list, tuple, str) else NotImplemented
    scene = ctx.obj(scenegraph.SceneGraph, 'scene', open=True)
    roots = ctx.choose([(), ('P',), ('Q',), ('P', 'Q')])
    interp.class_contracts['attr', scenegraph.SceneGraph, 'children'] = lambda interp, o: Bag(roots, 'children')

    # ------------------------------------------------------------ all states of a loop
    def snapshot(held):
        return tuple(h.state() for h in held), tuple(sorted(ever.items()))
    def restore(held, s):
        for h, x in zip(held, s[0]):
            h.restore(x)
        ever.update(s[1])
    def value(v, held):
        """What is known of a value, or None if that is not all there is to know"""
        if isinstance(v, (Tokens, Bag)):
            return ('held', held.index(v)) if v in held else ('bag',) + v.state() if isinstance(v, Bag) else None
        if isinstance(v, SAny):
            return ('node', node_label(v))
        if isinstance(v, Fields):
            return ('fields', node_label(v.of), v.there)
        if v is None or isinstance(v, (bool, int, str)):
            return ('plain', v)
        if isinstance(v, Poison):
            return ('forgotten',)
        if v is F:
            return ('F',)
        if v is L or v is scene:
            return ('scene',)
        return None
    def explore(fr, held, start, step, at):
        """All states which follow those given by a step, and whether the loop is left then"""
        out = set()
        names = at[1]
        about = tuple((k, value(v, held)) for k, v in sorted(fr.locals.items()) if k not in names)
        for s in start:
            key = (at, about, s) if all(v is not None for k, v in about) else None
            if key in known:
                out |= known[key]
                continue
            new = set()
            def run(s=s):
                restore(held, s)
                try:
                    step()
                except Break:
                    return ('left', snapshot(held))
                except Continue:
                    pass
                return ('on', snapshot(held))
            for o in sub_explore(interp, run, fr):
                if o.kind != 'normal':
                    interp.unsupported('a loop in %s left by %s %r' % (fr.name, o.kind, o.value))
                new.add(o.value)
            if key is not None:
                known[key] = new
            out |= new
        return out
    def forget(fr, names, held=()):
        for name in names:
            fr.locals[name] = Poison('value of %s carried around a loop of %s' % (name, fr.name))
    def see(fr):
        """Sets and lists which the function has made are seen from P and Q"""
        for name, v in list(fr.locals.items()):
            if type(v) is set and not v and id(v) in interp.fresh:
                fr.locals[name] = Tokens(name)
            elif type(v) is list and id(v) in interp.fresh:
                b = Bag([], name)
                b.list_method(interp, b, 'extend', [list(v)], {})
                fr.locals[name] = b
    def held_by(fr):
        out, f = [], fr
        for v in fr.locals.values():
            if isinstance(v, (Tokens, Bag)) and v not in out:
                out.append(v)
        return out
    def rule(interp, s, fr, items):
        import ast
        see(fr)
        held = held_by(fr)
        names = assigned(s.body) | (target_names(s.target) if isinstance(s, ast.For) else set())
        if any(isinstance(fr.locals.get(n), (Tokens, Bag)) for n in names):
            interp.unsupported('a loop which makes its containers')
        now = snapshot(held)
        at = ((fr.name, s.lineno, s.col_offset), tuple(sorted(names)))
        if isinstance(s, ast.While):
            def step():
                forget(fr, names)
                if not interp.truth(interp.ev(s.test, fr)):
                    raise Break()
                interp.block(s.body, fr)
            states, left = closure(fr, held, {now}, step, at)
            ends = left
        elif isinstance(items, Fields):
            def others():
                forget(fr, names)
                interp.assign(s.target, any_field(), fr)
                interp.block(s.body, fr)
            def this():
                forget(fr, names)
                interp.assign(s.target, F, fr)
                interp.block(s.body, fr)
            states, left = closure(fr, held, {now}, others, at + ('other',))
            if items.there:
                here = explore(fr, held, states, this, at + ('F',))
                left = left | set(x for k, x in here if k == 'left')
                states, more = closure(fr, held, set(x for k, x in here if k == 'on'), others, at + ('other',))
                left = left | more
            ends = states | left
        elif isinstance(items, Bag):
            must = sorted(items.has)
            def one(x):
                def step():
                    forget(fr, names)
                    interp.assign(s.target, x if x is not None else other(), fr)
                    interp.block(s.body, fr)
                return step
            # (the state with those of P and Q which came up so far)
            seen, work, ends = set(), [(now, ())], set()
            while work:
                st, done = work.pop()
                if (st, done) in seen:
                    continue
                seen.add((st, done))
                if len(done) == len(must):
                    ends.add(st)
                for k in [None] + must:
                    for how, x in explore(fr, held, {st}, one(which.get(k)), at + (k,)):
                        if items in held and x[0][held.index(items)] != tuple(must):
                            interp.unsupported('a loop over a list which it changes')
                        if how == 'left':
                            ends.add(x)
                        else:
                            work.append((x, tuple(sorted(set(done) | ({k} - {None})))))
        else:
            restore(held, now)
            return NotImplemented
        if s.orelse:
            interp.unsupported('else of a loop')
        forget(fr, names)
        ends = sorted(ends, key=repr)
        if not ends:
            raise PathEnd('a loop which does not end')
        restore(held, ctx.choose(ends))
        return True
    def closure(fr, held, start, step, at):
        states, left, work = set(), set(), list(start)
        while work:
            s = work.pop()
            if s in states:
                continue
            states.add(s)
            for how, x in explore(fr, held, {s}, step, at):
                if how == 'left':
                    left.add(x)
                else:
                    work.append(x)
        return states, left
    interp.loop_specs.insert(0, rule)
    r = interp.call(interp.get_attr(L, '_usedNames'), [scene])
    if not isinstance(r, Tokens):
        interp.unsupported('names in %r' % (r,))
    for k in roots:
        ctx.check('the children of the scene are looked at', ever[k], k)
    for k in 'PQ':
        if ever[k]:
            ctx.cover('name')
            ctx.check('the name of every node looked at is among the names', 'name ' + k in r.has, repr((k, r.has)))
    if ever['P']:
        ctx.cover('node in a node')
        ctx.check('the nodes in its fields are looked at', ever['Q'], repr(r.has))
