PROPERTY = 'C20'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
EXPLANATION = ('getField is executed symbolically for any name (a symbolic string), for types and nodes, over types with any attributes and any number of '
               'fields and events with any storage names: the attribute if there is one; otherwise a field, otherwise an event with that storage name; '
               'otherwise what getField gives for the name without "set_" or "_changed" (recursive calls by the contract, on a shorter name); '
               'otherwise AttributeError. getFields is executed symbolically for types with any number of base classes, seen from one arbitrary '
               'attribute name: by a loop invariant it lists the definition of that name by the most derived class that defines a field (event) under it, '
               'and nothing if none does.')
BOUNDED = ['bounded: getFields on every node class and on generated class hierarchies (up to 4 classes deep, multiple inheritance), before and after definitions are added, replaced and removed, against the most derived definition of each name',
           'bounded: getField for all names, set_/_changed forms and unknown names of every node class']
TRUSTED = ['cls.__mro__ are the classes in order of precedence; dict: what it holds under one key (pvc/keyed.py)', 'getattr on a class gives its attribute or raises AttributeError']
ASSUMPTIONS = []
# --- end of meta
from common import *


def proofs(mode):
    return [('getFields %s' % ('events' if events else 'fields'), all_fields(events), dict(covers=['defined', 'not defined', 'most derived'])) for events in (0, 1)] + [
            ('getField of a node type', harness(False), dict(covers=['attribute', 'field', 'event', 'set_', '_changed', 'unknown'])),
            ('getField of a node', harness(True), dict(covers=['attribute', 'field', 'event', 'set_', '_changed', 'unknown']))]


def all_fields(events):
    """getFields, seen from one arbitrary attribute name, over any number of base classes

    The classes are those of cls.__mro__, most derived first; DEFINES(i) says that class i of them
    defines a field (or event) of that attribute name, OF(i) which.  FOUND(i), VALUE(i) are what the
    classes from i on define: the one of class i if it defines one, otherwise what those from i + 1 on do.
    """
    def run(ctx):
        import z3
        from pvc.engine import PathEnd
        from pvc.interp import Continue, Break, Poison
        from pvc.keyed import Key, Entries, KeyedDict, entries_rule, see_from
        from pvc.loops import assigned, target_names
        from pvc.values import LazyList, SAny, V, ABSENT
        from vrml import field, protofunctions
        interp = make_interp(ctx)
        wanted = field.Event if events else field.Field
        key = Key(ctx)
        target = ctx.any('type')
        target.cls = type
        I, B = z3.IntSort(), z3.BoolSort()
        CLASS, HAS, OF = z3.Function('class_at', I, V), z3.Function('has_attribute', V, B), z3.Function('attribute_of', V, V)
        IS = {c: z3.Function('is_' + c.__name__, V, B) for c in (field.Field, field.Event)}
        n = z3.Int('classes')
        ctx.assume(n >= 0, check=False)
        def defines(i):
            c = CLASS(i)
            return z3.And(HAS(c), IS[wanted](OF(c)))
        FOUND, VALUE = z3.Function('found_from', I, B), z3.Function('value_from', I, V)
        ctx.assume(z3.Not(FOUND(n)), check=False)
        def unfold(i):
            ctx.assume(FOUND(i) == z3.Or(defines(i), FOUND(i + 1)), check=False)
            ctx.assume(VALUE(i) == z3.If(defines(i), OF(CLASS(i)), VALUE(i + 1)), check=False)

        class Classes(LazyList):
            """Classes lo .. hi-1 of the resolution order, or these in reverse"""
            cls = tuple
            def __init__(self, lo, hi, backwards=False):
                self.lo, self.hi, self.backwards = lo, hi, backwards
                LazyList.__init__(self, z3.simplify(hi - lo), self.at, 'classes')
                self.source = None
            def at(self, i):
                return SAny(CLASS(z3.simplify(self.hi - 1 - i if self.backwards else self.lo + i)))
            def copy_list(self, interp):
                return Classes(self.lo, self.hi, self.backwards)
            def reversed_list(self):
                return Classes(self.lo, self.hi, not self.backwards)
            def list_method(self, interp, seq, name, args, kwargs):
                if name == '__iter__':
                    return self
                if name == '__len__':
                    return interp.len_(self)
                if name == '__getitem__' and type(args[0]) is slice and all(type(x) in (int, type(None)) for x in (args[0].start, args[0].stop, args[0].step)):
                    a, b, step = args[0].start, args[0].stop, args[0].step
                    if step in (None, 1):
                        # one item less at an end
                        if (a, b) in ((None, None), (0, None)):
                            return Classes(self.lo, self.hi, self.backwards)
                        if (a, b) in ((None, -1), (0, -1), (1, None)):
                            if not ctx.branch(self.lo < self.hi):
                                return Classes(self.lo, self.hi, self.backwards)
                            if (a == 1) != self.backwards:
                                return Classes(z3.simplify(self.lo + 1), self.hi, self.backwards)
                            return Classes(self.lo, z3.simplify(self.hi - 1), self.backwards)
                    if step == -1 and a is None and b is None:
                        return Classes(self.lo, self.hi, not self.backwards)
                if name in ('__getitem__', 'pop') and (not args or type(args[0]) is int and args[0] in (0, -1)):
                    i = args[0] if args else -1
                    if not ctx.branch(self.lo < self.hi):
                        interp.raise_(IndexError, 'index out of range')
                    first = (i == 0) != self.backwards
                    r = SAny(CLASS(z3.simplify(self.lo if first else self.hi - 1)))
                    if name == 'pop':
                        if first:
                            self.lo = z3.simplify(self.lo + 1)
                        else:
                            self.hi = z3.simplify(self.hi - 1)
                        self.n = z3.simplify(self.hi - self.lo)
                    return r
                interp.unsupported('%s of the classes' % name)

        interp.class_contracts['attr', type, '__mro__'] = lambda interp, o: Classes(z3.IntVal(0), n)
        def namespace(interp, o):
            return KeyedDict(key, HAS(o.z), SAny(OF(o.z)), 'class.__dict__')
        interp.class_contracts['attr', None, '__dict__'] = namespace
        def isinstance_(interp, v, c):
            return IS[c](v.z) if c in IS else NotImplemented
        interp.class_contracts['isinstance', None] = isinstance_

        def state(d):
            return (d.present if not isinstance(d.present, bool) else z3.BoolVal(d.present)), (d.value.z if isinstance(d.value, SAny) else None)
        def same(d, found, value):
            """d holds value under the key, or nothing if not found"""
            p, v = state(d)
            if v is None:
                return z3.And(z3.Not(p), z3.Not(found))
            return z3.And(p == found, z3.Implies(found, v == value))
        def rule(interp, s, fr, items):
            import ast
            if isinstance(s, ast.While):
                rest = [k for k, v in fr.locals.items() if isinstance(v, Classes)]
                rest = [k for k in rest if any(isinstance(x, ast.Name) and x.id == k for x in ast.walk(s.test))]
                if len(rest) != 1:
                    return NotImplemented
                start = fr.locals[rest[0]]
            elif isinstance(items, Classes) and isinstance(s, ast.For):
                start = items
            else:
                return NotImplemented
            see_from(key, fr, interp)
            if not (z3.eq(start.lo, z3.IntVal(0)) and z3.eq(start.hi, n)):
                interp.unsupported('a loop over some of the classes')
            names = assigned(s.body) | (target_names(s.target) if isinstance(s, ast.For) else set())
            results = [k for k, v in fr.locals.items() if isinstance(v, KeyedDict)]
            if len(results) != 1:
                interp.unsupported('%d dictionaries' % len(results))
            d = fr.locals[results[0]]
            k = z3.Int(ctx.name('step'))
            ctx.assume(z3.And(k >= 0, k <= n), check=False)
            # least derived first when the classes are taken from the end
            if isinstance(s, ast.While):
                uses = [x for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == rest[0]]
                pops = [x for x in ast.walk(ast.Module(s.body, [])) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'pop'
                        and isinstance(x.func.value, ast.Name) and x.func.value.id == rest[0]]
                at = [ast.unparse(x.slice) for x in uses if not isinstance(x.slice, ast.Slice)] + [ast.unparse(x.args[0]) if x.args else '-1' for x in pops]
                if not at or set(at) - {'0', '-1'} or len(set(at)) != 1:
                    interp.unsupported('classes taken from %s' % at)
                from_end = (at[0] == '-1') != start.backwards
            else:
                from_end = start.backwards
            # the invariant, for what is done (k of the classes are not): from the end, the state is
            # what classes k on define; from the beginning, with what classes n-k on define it is what all do
            def holds(d, k):
                if from_end:
                    return same(d, FOUND(k), VALUE(k))
                p, v = state(d)
                i = n - k
                if v is None:
                    return z3.And(z3.Not(p), FOUND(i) == FOUND(0), z3.Implies(FOUND(0), VALUE(i) == VALUE(0)))
                return z3.And(z3.Or(p, FOUND(i)) == FOUND(0), z3.Implies(FOUND(0), z3.If(p, v, VALUE(i)) == VALUE(0)))
            ctx.check('the loop begins with nothing defined', holds(d, n))
            d.present, d.value = z3.Bool(ctx.name('present')), ctx.any('defined')
            d.others = {}
            ctx.assume(holds(d, k), check=False)
            def left(k):
                return (z3.IntVal(0), z3.simplify(k)) if from_end else (z3.simplify(n - k), n)
            def rest_is(k):
                c = fr.locals[rest[0]]
                if not isinstance(c, Classes) or c.backwards != start.backwards:
                    return z3.BoolVal(False)
                lo, hi = left(k)
                return z3.And(c.lo == lo, c.hi == hi)
            for name in names:
                if name != results[0]:
                    fr.locals[name] = Poison('value of %s carried around a loop of %s' % (name, fr.name))
            if isinstance(s, ast.While):
                fr.locals[rest[0]] = Classes(*left(k), start.backwards)
                going = interp.truth(interp.ev(s.test, fr))
            else:
                going = ctx.branch(k > 0)
            if going:
                ctx.assume(k > 0)
                at = k - 1 if from_end else n - k
                unfold(at)
                if isinstance(s, ast.For):
                    interp.assign(s.target, SAny(CLASS(z3.simplify(at))), fr)
                try:
                    interp.block(s.body, fr)
                except Continue:
                    pass
                except Break:
                    interp.unsupported('the loop over the classes is left early')
                d2 = fr.locals[results[0]]
                if not isinstance(d2, KeyedDict):
                    interp.unsupported('the dictionary becomes something else')
                if isinstance(s, ast.While) and ctx.feasible(z3.Not(rest_is(k - 1))):
                    interp.unsupported('a loop which does not do one class after the other')
                ctx.cover('most derived')
                ctx.check('more derived classes take precedence', holds(d2, k - 1))
                raise PathEnd('step of the invariant')
            if ctx.feasible(k != 0):
                interp.unsupported('a loop which need not do every class')
            interp.block(s.orelse, fr)
            return True
        interp.loop_specs.append(entries_rule(key))
        interp.loop_specs.append(rule)
        r = interp.call(protofunctions.getFields, [target, events] if events else [target])
        if isinstance(r, KeyedDict) or not isinstance(r, Entries):
            interp.unsupported('the result is %r' % (r,))
        ctx.check('the definitions themselves are listed', r.kind in ('values', 'any'), r.kind)
        p, v = state(r)
        ctx.check('a field is listed if a class defines it', p == FOUND(0))
        if ctx.branch(p):
            ctx.cover('defined')
            ctx.check('the most derived definition is', v is not None and v == VALUE(0))
        else:
            ctx.cover('not defined')
        ctx.check('nothing is changed', not [t for t in ctx.trace if t[0] in ('w', 'l', 'send')], str(ctx.trace)[:300])
    return run


def harness(instance):
    def run(ctx):
        import z3
        from pvc.engine import PyExc
        from pvc.values import Truthy, SStr, SAny, V, string, LazyList
        interp = make_interp(ctx)
        from vrml import node, protofunctions
        cls = type('Probe', (node.Node,), {})
        target = ctx.obj(cls, 'node', open=True) if instance else cls
        name = ctx.str('name')
        NAME = z3.Function('storage_name', V, z3.StringSort())
        attribute = []
        looked = []
        def getattr_(interp, obj, attr, *default):
            ctx.check('the attribute of that name of the type is looked up', z3.And(z3.BoolVal(obj is cls), string(attr) == name.z), repr(obj))
            looked.append(1)
            if not attribute:
                attribute.append(ctx.any('attribute') if ctx.choose([True, False]) else None)
            if attribute[0] is not None:
                return attribute[0]
            if default:
                return default[0]
            interp.raise_(AttributeError, attr)
        interp.class_contracts['getattr', None] = getattr_
        interp.class_contracts['hasattr', None] = lambda *a: ctx.interp.unsupported('hasattr')
        interp.class_contracts['attr', None, 'name'] = lambda interp, o: SStr(NAME(o.z))
        FIELD, EVENT = (z3.Function(n, z3.IntSort(), V) for n in ('field_at', 'event_at'))
        nf, ne = z3.Int('fields'), z3.Int('events')
        ctx.assume(z3.And(nf >= 0, ne >= 0), check=False)
        def port(PORT):
            def item(i):
                ctx.assume(z3.And(PORT(i) != interp.to_v(None), Truthy(PORT(i))), check=False)
                return SAny(PORT(i))
            return item
        fields = LazyList(nf, port(FIELD), 'fields')
        events = LazyList(ne, port(EVENT), 'events')
        def listing(interp, args, kwargs):
            ctx.check('the fields of that type are listed', args[0] is cls or args[0] is target)
            e = args[1] if len(args) > 1 else kwargs.get('events', 0)
            return events if interp.truth(e) else fields
        interp.contract(protofunctions.getFields, listing, 'getFields')
        calls = []
        outer = [True]
        def recursive(interp, args, kwargs):
            if outer[0]:
                outer[0] = False
                return interp.call_live(protofunctions.getField, args, kwargs)
            calls.append(args)
            ctx.check('recursive lookups are of the same type', args[0] is cls or args[0] is target)
            ctx.check('recursive lookups end', z3.Length(string(args[1])) < z3.Length(name.z))
            if ctx.choose([True, False]):
                r = ctx.any('shorter')
                calls[-1] = (args, r)
                return r
            calls[-1] = (args, None)
            interp.raise_(AttributeError, args[1])
        interp.contract(protofunctions.getField, recursive, 'getField (recursive calls)')
        def none_of(lst, what):
            j = z3.Int(ctx.name('arbitrary'))
            ctx.assume(z3.And(j >= 0, j < lst.n), check=False)
            if not ctx.feasible():
                return
            ctx.instantiate(j)
            ctx.check('no %s with that storage name is passed over' % what, NAME(lst.item(j).z) != name.z)
        err = r = None
        try:
            r = interp.call(protofunctions.getField, [target, name])
        except PyExc as e:
            err = e
            ctx.check('a failing lookup raises AttributeError', e.cls is AttributeError, str(e))
        ctx.check('nothing is changed', not ctx.trace or all(t[0] == 'foreach' for t in ctx.trace), str(ctx.trace))
        ctx.check('the attribute is looked up first', bool(looked))
        if attribute and attribute[0] is not None:
            ctx.cover('attribute')
            ctx.check('an attribute of that name is the result', r is attribute[0], repr(r))
            return
        if calls:
            args, got = calls[-1]
            ctx.check('one shorter name is tried', len(calls) == 1)
            pre, post = z3.PrefixOf(z3.StringVal('set_'), name.z), z3.SuffixOf(z3.StringVal('_changed'), name.z)
            n = z3.Length(name.z)
            ctx.check('the name without set_ or _changed', z3.Or(
                z3.And(pre, string(args[1]) == z3.SubString(name.z, 4, n - 4)),
                z3.And(z3.Not(pre), post, string(args[1]) == z3.SubString(name.z, 0, n - 8))), repr(args[1]))
            if ctx.branch(pre):
                ctx.cover('set_')
            else:
                ctx.cover('_changed')
            ctx.check('the result for the shorter name', (got is None and err is not None) or (got is not None and r is got), repr(r))
            none_of(fields, 'field')
            none_of(events, 'event')
            return
        if err is not None:
            ctx.cover('unknown')
            ctx.check('a name with set_ or _changed is tried without', z3.Not(z3.Or(z3.PrefixOf(z3.StringVal('set_'), name.z), z3.SuffixOf(z3.StringVal('_changed'), name.z))))
            none_of(fields, 'field')
            none_of(events, 'event')
            return
        ctx.check('an object of the listings is returned', isinstance(r, SAny), repr(r))
        if not isinstance(r, SAny):
            return
        ctx.check('with that storage name', NAME(r.z) == name.z)
        at = r.z
        known = z3.is_app(at) and at.num_args() == 1 and at.decl().name() in ('field_at', 'event_at')
        ctx.check('it is a field or an event of the type', known)
        if not known:
            return
        index = at.arg(0)
        if at.decl().name() == 'field_at':
            ctx.cover('field')
            ctx.check('it is a field of the type', z3.And(index >= 0, index < nf))
        else:
            ctx.cover('event')
            ctx.check('it is an event of the type', z3.And(index >= 0, index < ne))
            none_of(fields, 'field')
    return run


def names_of(cls):
    from vrml import protofunctions
    out = []
    for k in dir(cls):
        out.append(k)
    for f in protofunctions.getFields(cls) + protofunctions.getFields(cls, 1):
        out.append(f.name)
    return sorted(set(out))


def cases(rnd, tier, mode):
    all_modules()
    for cls in node_classes():
        yield dict(kind='class', module=cls.__module__, cls=cls.__name__)
    for i in range(8000 if tier == "quick" else 60000):
        n = rnd.randint(1, 4)
        classes = []
        for k in range(n):
            bases = sorted(rnd.sample(range(k), rnd.randint(0, min(2, k)))) if k else []
            attrs = {}
            for name in rnd.sample(['a', 'b', 'c', 'set_a', 'b_changed'], rnd.randint(0, 4)):
                attrs[name] = [rnd.choice(['field', 'event']), rnd.choice([name, ' ' + name, name + '2', 'z'])]
            classes.append([bases, attrs])
        changes = [[rnd.randrange(n), rnd.choice(['a', 'b', 'c', 'set_a', 'b_changed']), rnd.choice(['field', 'event', 'event', None]), rnd.choice(['a', 'c', ' b', 'z'])] for k in range(rnd.choice([0, 1, 2]))]
        yield dict(kind='hierarchy', classes=classes, changes=changes, probe=rnd.choice(['a', 'b', 'c', 'z', ' a', 'set_a', 'a_changed', 'set_b_changed', 'set_set_c', 'a_changed_changed', 'nope', 'set_', '_changed', '', 'set_nope', 'a2', 'set_ a', 'set_z_changed']))


def lookup(cls, name):
    """Oracle"""
    from vrml import field
    for c in cls.__mro__:
        if name in c.__dict__:
            d = c.__dict__[name]
            return ('attr', d)
    for kind in (field.Field, field.Event):
        found = [f for f in listing(cls, kind) if f.name == name]
        if found:
            return ('one of', found)
    if name.startswith('set_'):
        return lookup(cls, name[4:])
    if name.endswith('_changed'):
        return lookup(cls, name[:-8])
    return None


def listing(cls, kind):
    table = {}
    for c in cls.__mro__:
        for k, v in c.__dict__.items():
            if isinstance(v, kind) and k not in table:
                table[k] = v
    return list(table.values())


def check_case(case):
    import importlib
    from vrml import node, field, protofunctions, fieldtypes
    if case['kind'] == 'class':
        cls = getattr(importlib.import_module(case['module']), case['cls'])
        probes = [n for n in names_of(cls) if not n.startswith('__')]
        probes += ['set_' + p for p in probes] + [p + '_changed' for p in probes] + ['set_' + p + '_changed' for p in probes[:20]] + ['no such', 'set_nope', 'nope_changed']
    else:
        built = []
        for bases, attrs in case['classes']:
            body = {}
            for k, (kind, storage) in attrs.items():
                body[k] = fieldtypes.SFFloat(storage, 1, 0.0) if kind == 'field' else field.newEvent(storage, 'SFFloat', 0)
            try:
                built.append(type('T', tuple(built[b] for b in reversed(bases)) or (node.Node,), body))
            except TypeError:
                return None           # no consistent order of bases
        cls = built[-1]
        probes = [case['probe']]
    why = look_up(cls, probes)
    if why or case['kind'] == 'class':
        return why
    # the same after definitions have been added, replaced or removed
    for k, name, kind, storage in case.get('changes', ()):
        if kind is None:
            if name in built[k].__dict__:
                delattr(built[k], name)
        else:
            setattr(built[k], name, fieldtypes.SFFloat(storage, 1, 0.0) if kind == 'field' else field.newEvent(storage, 'SFFloat', 0))
        why = look_up(cls, probes)
        if why:
            return why + ' after the definitions were changed'
    return None


def look_up(cls, probes):
    from vrml import field, protofunctions
    for kind, flag in ((field.Field, 0), (field.Event, 1)):
        for target in (cls, cls.__new__(cls)):
            got = protofunctions.getFields(target, flag)
            want = listing(cls, kind)
            if len(got) != len(want) or sorted(map(id, got)) != sorted(map(id, want)):
                return 'getFields(%s, %s) lists %r, expected %r' % (cls.__name__, flag, [str(x) for x in got], [str(x) for x in want])
    for target in (cls, cls.__new__(cls)):
        for p in probes:
            want = lookup(cls, p)
            try:
                got = protofunctions.getField(target, p)
            except AttributeError:
                if want is not None:
                    return 'getField(%s, %r) raised AttributeError' % (cls.__name__, p)
                continue
            except Exception as err:
                return 'getField(%s, %r) raised %s' % (cls.__name__, p, type(err).__name__)
            if want is None:
                return 'getField(%s, %r) gives %r' % (cls.__name__, p, got)
            if want[0] == 'attr':
                if isinstance(want[1], (field.Field, field.Event)) and got is not want[1]:
                    return 'getField(%s, %r) gives %r' % (cls.__name__, p, got)
            elif not any(got is f for f in want[1]):
                return 'getField(%s, %r) gives %r' % (cls.__name__, p, got)
    return None
