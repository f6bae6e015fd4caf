PROPERTY = 'C22'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
EXPLANATION = ('Every method of WeakList is executed symbolically on a list of any length and content, abstracted to the sequence of the items its entries refer to '
               '(z3 sequences): the new content, the result and the error kind equal those of the same operation of list on that sequence, every stored entry is a '
               'weak reference with a death callback, and that callback, on the death of any entry of any list, removes exactly that entry.')
BOUNDED = ['bounded: random histories of operations and item deaths against a reference list (quick 10000, thorough 30000 histories)']
TRUSTED = ['list: the operations of the built-in list on sequences (pvc/models.py)', 'weakref: a reference with a callback is a new object, calls its callback once when its item dies, and compares by identity afterwards']
ASSUMPTIONS = ['while an operation of the list runs no item of the list dies']
# --- end of meta
import functools
from common import *


class Refs(object):
    """Entries of a weak list: weak references, abstracted to their items"""
    def __init__(self):
        from pvc.values import V
        self.sort = V
    def encode(self, interp, v):
        from pvc.values import WeakRef
        ok = isinstance(v, WeakRef)
        interp.ctx.check('only weak references are stored', ok, repr(v))
        if not ok:
            return interp.to_v(v)
        interp.ctx.check('each with a callback for the death of its item', v.callback is not None)
        return interp.to_v(v.target)
    def decode(self, interp, term):
        from pvc.values import WeakRef
        return WeakRef(interp.from_v(term), 'callback')


def weak_list(ctx, interp, cls=None, label='weak'):
    import z3
    from pvc.values import SList, V
    from vrml import weaklist
    codec = Refs()
    W = cls or weaklist.WeakList
    def content(interp, items):
        from pvc import models
        seq = models.seq_of(interp, items, codec)
        if seq is None:
            interp.unsupported('content of a weak list')
        return SList(seq, 'weak', codec)
    interp.class_contracts['content', W] = content
    o = ctx.obj(W, label)
    s = z3.Const(ctx.name('items'), z3.SeqSort(V))
    o.payload = SList(s, label, codec)
    return o, s


def not_refs(interp):
    """The items given symbolically are objects, not weak references"""
    import weakref
    from pvc.values import WeakRef
    interp.class_contracts['isinstance', None] = lambda interp, v, cls: isinstance(v, WeakRef) if cls in (weakref.ReferenceType, weakref.ref) else NotImplemented


def iter_rule(interp, s, fr, items):
    """Invariant of the iteration: the items before the index have been yielded"""
    import ast, z3
    from pvc.values import SList, Obj, SInt, WeakRef, SAny
    from pvc.loops import sub_explore
    from pvc.engine import PathEnd, PyExc
    from pvc.interp import Return, Break, Continue
    if not isinstance(s, ast.While) or fr.yields is None:
        return NotImplemented
    ctx = interp.ctx
    target = fr.first
    if not isinstance(target, Obj) or not isinstance(target.payload, SList):
        return NotImplemented
    ints = [k for k, v in fr.locals.items() if type(v) is int]
    if len(ints) != 1 or fr.yields:
        return NotImplemented
    index = ints[0]
    start = fr.locals[index]
    seq = target.payload.seq
    k = z3.Int(ctx.name('k'))
    ctx.assume(z3.And(k >= 0, k <= z3.Length(seq)), check=False)
    fr.locals[index] = SInt(start + k)
    ended = False
    try:
        if interp.truth(interp.ev(s.test, fr)):
            try:
                interp.block(s.body, fr)
            except Continue:
                pass
        else:
            ended = True
            interp.block(s.orelse, fr)
    except (Return, Break):
        ended = True
    yielded = fr.yields if not isinstance(fr.yields, SList) else None
    if ended and not yielded:
        ctx.check('iteration ends after the last item', k == z3.Length(seq))
        fr.yields = SList(seq, 'yielded')
        return True
    ctx.cover('step')
    ok = len(yielded) == 1
    ctx.check('each step yields one item', ok)
    if ok:
        ctx.check('the next item', interp.to_v(yielded[0]) == seq[k] if not isinstance(yielded[0], WeakRef) else False, repr(yielded))
    if ended:
        ctx.check('iteration ends after the last item', k + 1 == z3.Length(seq))
        fr.yields = SList(seq, 'yielded')
        return True
    v = fr.locals[index]
    ctx.check('and goes on to the one after', v.z == start + k + 1 if isinstance(v, SInt) else False)
    ctx.check('nothing is changed', not dict_writes(ctx))
    raise PathEnd('step')


def proofs(mode):
    import z3
    from vrml import weaklist
    W = weaklist.WeakList
    out = []

    def method(name):
        for c in W.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]

    def by_comparison(interp, args, kwargs):
        from pvc.values import SAny, V
        return SAny(z3.Function('key_by_comparison', V, V)(interp.to_v(list(args)[0] if args else kwargs['mycmp'])), None, 'key')

    def op(name, make_args, covers=(), result='same'):
        def run(ctx):
            from pvc.values import SList, SAny, SInt, SBool, WeakRef, V
            from pvc.engine import PyExc
            from pvc import models
            interp = make_interp(ctx)
            interp.loop_specs.append(iter_rule)
            not_refs(interp)
            interp.contract(functools.cmp_to_key, by_comparison, 'functools.cmp_to_key')
            def cmp(interp, cname, a, b):
                f = z3.Function('list' + cname, z3.SeqSort(V), z3.SeqSort(V), z3.BoolSort())
                x, y = models.seq_of(interp, a), models.seq_of(interp, b)
                if x is None or y is None:
                    interp.unsupported('comparison of lists')
                return SBool(f(x, y))
            interp.class_contracts['compare', None] = cmp
            w, s = weak_list(ctx, interp)
            plain = SList(s, 'plain')
            args = make_args(ctx, interp)
            plain_args = args
            if 'item' in make_args.__name__ and name in ('append', 'insert', 'extend', '__iadd__', '__setitem__', '__init__'):
                # an item may be given as a weak reference of the caller's (without a callback)
                if ctx.choose([False, True]):
                    def by_reference(v):
                        if isinstance(v, SAny):
                            return WeakRef(v)
                        return v
                    args = [by_reference(v) if not isinstance(v, list) else interp.make([by_reference(x) for x in v]) for v in args]
            if name == '__init__':
                w.payload = interp.make([])
                plain.seq = z3.Empty(z3.SeqSort(V))
            def attempt(f):
                try:
                    return 'returns', f()
                except PyExc as err:
                    return 'raises', err.cls
            if name == '__init__':
                want = attempt(lambda: models.list_method(interp, plain, 'extend', plain_args, {}) if plain_args else None)
            elif name in ('__lt__', '__le__', '__gt__', '__ge__'):
                want = 'returns', cmp(interp, name, plain, plain_args[0])
            elif name == 'sort' and plain_args:
                want = attempt(lambda: models.list_method(interp, plain, 'sort', [], {'key': by_comparison(interp, plain_args, {})}))
            else:
                want = attempt(lambda: models.list_method(interp, plain, name, plain_args, {}))
            mark = len(ctx.trace)
            got = attempt(lambda: interp.call(method(name), [w] + args))
            ctx.cover(want[0])
            ctx.check('the same error, or none', got[0] == want[0] and (got[0] == 'returns' or got[1] is want[1]), '%r, list: %r' % (got, want))
            now = models.seq_of(interp, w, Refs())
            if name not in ('__init__',):
                ctx.check('the content stays a list of weak references', isinstance(w.payload, SList) and isinstance(w.payload.codec, Refs))
            ctx.check('the items afterwards are those of the list', now == plain.seq if now is not None else False, '%r' % (w.payload,))
            for t in ctx.trace[mark:]:
                if t[0] == 'w':
                    ctx.check('nothing else is stored', allocated(ctx, t[1]), repr(t))
            if got[0] != 'returns' or want[0] != 'returns':
                return
            a, b = got[1], want[1]
            if b is None:
                ctx.check('no result', a is None, repr(a))
            elif b is plain:
                ctx.check('the result is the list itself', a is w, repr(a))
            elif isinstance(b, SList):
                strong = isinstance(a, list) or (isinstance(a, SList) and a.codec is None)
                ctx.check('the result has exactly the items', models.seq_of(interp, a) == b.seq if strong else False, repr(a))
            elif isinstance(b, SAny):
                ctx.check('the result is the item itself', interp.to_v(a) == b.z if not isinstance(a, WeakRef) else False, repr(a))
            elif isinstance(b, (SInt, SBool)):
                ctx.check('the same result', a.z == b.z if isinstance(a, (SInt, SBool)) else interp.to_term(a) == b.z if hasattr(interp, 'to_term') else (z3.BoolVal(a) == b.z if isinstance(a, bool) else z3.IntVal(a) == b.z), repr(a))
            else:
                ctx.check('the same result', a is b or a == b, '%r, list: %r' % (a, b))
        out.append((name + ' ' + make_args.__name__.replace('_', ' '), run, dict(covers=list(covers) or ['returns'])))

    def nothing(ctx, interp):
        return []
    def item(ctx, interp):
        return [ctx.any('item')]
    def index(ctx, interp):
        return [ctx.int('index')]
    def a_slice(ctx, interp):
        return [slice(ctx.choose([None, ctx.int('start')]), ctx.choose([None, ctx.int('stop')]))]
    def items(ctx, interp):
        return [ctx.slist('new items')]
    def two_items(ctx, interp):
        return [[ctx.any('first'), ctx.any('second')]]
    def index_and_item(ctx, interp):
        return [ctx.int('index'), ctx.any('item')]
    def slice_and_items(ctx, interp):
        return a_slice(ctx, interp) + items(ctx, interp)
    both = ['returns', 'raises']
    op('__init__', nothing)
    op('__init__', items)
    op('append', item)
    op('insert', index_and_item)
    op('extend', items)
    op('extend', two_items)
    op('__iadd__', items)
    op('pop', nothing, both)
    op('pop', index, both)
    op('remove', item, both)
    op('index', item, both)
    op('count', item)
    op('__contains__', item)
    op('__getitem__', index, both)
    op('__getitem__', a_slice)
    op('__setitem__', index_and_item, both)
    op('__setitem__', slice_and_items)
    op('__delitem__', index, both)
    op('__delitem__', a_slice)
    op('__len__', nothing)
    op('__iter__', nothing)
    def function(ctx, interp):
        f = ctx.any('comparison')
        ctx.assume(f.z != interp.to_v(None), check=False)
        return [f]
    op('sort', nothing, both)
    op('sort', function, both)
    op('reverse', nothing)
    for c in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
        op(c, items)

    def get(ctx):
        interp = make_interp(ctx)
        from pvc.values import SList
        w, s = weak_list(ctx, interp)
        r = interp.call(method('get'), [w])
        ctx.check('get() gives exactly the items', (r.seq == s) if isinstance(r, SList) and r.codec is None else False, repr(r))
        ctx.check('nothing is changed', not dict_writes(ctx))
    out.append(('get', get, dict(covers=[])))

    def wrapping(ctx):
        """wrap: a fresh weak reference with a callback; a reference is not wrapped twice"""
        interp = make_interp(ctx)
        from pvc.values import WeakRef
        w, s = weak_list(ctx, interp)
        x = ctx.any('item')
        given = ctx.choose(['item', 'reference'])
        arg = x if given == 'item' else WeakRef(x)
        not_refs(interp)
        r = interp.call(method('wrap'), [w, arg])
        ctx.check('a new weak reference to the item', isinstance(r, WeakRef) and r is not arg and r.target is x, repr(r))
        ctx.check('with a callback', isinstance(r, WeakRef) and r.callback is not None)
    out.append(('wrap', wrapping, dict(covers=[])))

    def death(ctx):
        """The callback removes exactly the entry that died, on a list of any entries"""
        interp = make_interp(ctx)
        from pvc.values import WeakRef, SList, V, Obj
        from pvc.engine import PyExc
        not_refs(interp)
        w, s = weak_list(ctx, interp)
        ref = interp.call(method('wrap'), [w, ctx.any('item')])
        interp.class_contracts.pop(('content', W), None)
        # any entries around it, by the identity of their references
        entries = z3.Const(ctx.name('entries'), z3.SeqSort(V))
        w.payload = SList(entries, 'entries')
        me = interp.to_v(ref)
        unit = z3.Unit(me)
        inside = ctx.choose([True, False])
        ctx.assume(z3.Contains(entries, unit) if inside else z3.Not(z3.Contains(entries, unit)))
        ref.dead = True
        for r in ctx.__dict__.get('_selfrefs', []):
            pass
        gone = ctx.choose([False, True])
        if gone:
            # the list itself has died: nothing to do
            def dying(f):
                return f
            kill(interp, ref.callback, w)
        try:
            interp.call(ref.callback, [ref])
        except PyExc as err:
            ctx.check('the callback does not raise', False, str(err))
            return
        if gone:
            ctx.cover('list gone')
            ctx.check('a dead list is not changed', w.payload.seq == entries)
            return
        now = w.payload.seq
        if not inside:
            ctx.cover('not an entry')
            ctx.check('an entry that has left already changes nothing', now == entries)
            return
        ctx.cover('entry')
        i = z3.IndexOf(entries, unit, z3.IntVal(0))
        n = z3.Length(entries)
        ctx.check('exactly that entry disappears', now == z3.Concat(z3.Extract(entries, z3.IntVal(0), i), z3.Extract(entries, i + 1, n - i - 1)))
    out.append(('death of an item', death, dict(covers=['entry', 'not an entry', 'list gone'])))
    return out


def kill(interp, callback, target):
    """The reference the callback has to the list is dead"""
    from pvc.values import WeakRef, Func
    from pvc.engine import Unsupported
    found = False
    def look(v):
        nonlocal found
        if isinstance(v, WeakRef) and v.target is target:
            v.dead = True
            found = True
        elif v is target:
            interp.ctx.check('the callback does not keep the list alive', False)
            found = True
    if isinstance(callback, Func):
        for v in list(callback.defaults) + list(callback.kw_defaults.values()):
            look(v)
        env, seen = callback.env, 0
        import ast
        used = {n.id for n in ast.walk(callback.node) if isinstance(n, ast.Name)}
        params = {a.arg for a in callback.node.args.args}
        assigned = {n.id for n in ast.walk(callback.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        while env is not None:
            for k, v in env.locals.items():
                if k in used and k not in params and k not in assigned:
                    look(v)
            env = env.parent
    if not found:
        raise Unsupported('the reference of the callback to its list')


# ------------------------------------------------------------------ cases
class Item(object):
    def __init__(self, n):
        self.n = n
    def __eq__(self, other):
        return isinstance(other, Item) and self.n == other.n
    def __ne__(self, other):
        return not self == other
    def __lt__(self, other):
        return self.n < other.n
    def __le__(self, other):
        return self.n <= other.n
    def __gt__(self, other):
        return self.n > other.n
    def __ge__(self, other):
        return self.n >= other.n
    __hash__ = object.__hash__
    def __repr__(self):
        return 'I%d@%x' % (self.n, id(self) % 4096)


OPS = ['append', 'insert', 'extend', 'iadd', 'pop', 'pop0', 'popi', 'remove', 'set', 'setslice', 'del', 'delslice', 'sort', 'sortf', 'reverse',
       'index', 'count', 'contains', 'get', 'slice', 'compare', 'kill', 'kill', 'kill', 'init', 'iterate', 'iterate', 'refs', 'refs', 'sortbad']


def cases(rnd, tier, mode):
    for i in range(10000 if tier == 'quick' else 30000):
        ops = []
        for j in range(rnd.randint(1, 18)):
            ops.append([rnd.choice(OPS), rnd.randint(-5, 6), rnd.randint(-5, 6), [rnd.randint(0, 7) for k in range(rnd.randint(0, 3))], rnd.choice([None, None, 1, 2, -1])])
        yield dict(kind='history', pool=[rnd.randint(0, 4) for k in range(8)], start=[rnd.randint(0, 7) for k in range(rnd.randint(0, 5))], ops=ops)


def check_case(case):
    import gc, weakref
    from vrml import weaklist
    pool = [Item(n) for n in case['pool']]
    w = weaklist.WeakList([pool[i] for i in case['start']])
    model = [pool[i] for i in case['start']]
    alive = dict(enumerate(pool))
    pool = None

    def of(i):
        i = i % 8
        return alive.get(i)

    def attempt(f):
        try:
            return ('returns', f())
        except Exception as err:
            return ('raises', type(err))
    # model and pool hold strong references: dropped together at a kill
    for op, a, b, many, step in case['ops']:
        other = None
        xs = [x for x in (of(i) for i in many) if x is not None]
        x = of(b)
        if x is None:
            x = Item(9)
            alive[b % 8] = x
        s = slice(a, b) if step in (None, 2, -1) and op != 'slice' else slice(a, b, step)
        want = got = None
        if op == 'append':
            want, got = attempt(lambda: model.append(x)), attempt(lambda: w.append(x))
        elif op == 'refs':
            how = a % 4
            if how == 0:
                want, got = attempt(lambda: model.append(x)), attempt(lambda: w.append(weakref.ref(x)))
            elif how == 1:
                want, got = attempt(lambda: model.insert(a, x)), attempt(lambda: w.insert(a, weakref.ref(x)))
            elif how == 2:
                want, got = attempt(lambda: model.extend(xs)), attempt(lambda: w.extend([weakref.ref(y) for y in xs]))
            else:
                want, got = attempt(lambda: model.__setitem__(a, x)), attempt(lambda: w.__setitem__(a, weakref.ref(x)))
        elif op == 'insert':
            want, got = attempt(lambda: model.insert(a, x)), attempt(lambda: w.insert(a, x))
        elif op == 'extend':
            want, got = attempt(lambda: model.extend(xs)), attempt(lambda: w.extend(xs))
        elif op == 'iadd':
            v = w
            v += xs
            model += xs
            if v is not w:
                return '+= gives another object'
        elif op == 'pop':
            want, got = attempt(lambda: model.pop()), attempt(lambda: w.pop())
        elif op == 'pop0':
            want, got = attempt(lambda: model.pop(0)), attempt(lambda: w.pop(0))
        elif op == 'popi':
            want, got = attempt(lambda: model.pop(a)), attempt(lambda: w.pop(a))
        elif op == 'remove':
            want, got = attempt(lambda: model.remove(x)), attempt(lambda: w.remove(x))
        elif op == 'set':
            want, got = attempt(lambda: model.__setitem__(a, x)), attempt(lambda: w.__setitem__(a, x))
        elif op == 'setslice':
            want, got = attempt(lambda: model.__setitem__(s, xs)), attempt(lambda: w.__setitem__(s, xs))
        elif op == 'del':
            want, got = attempt(lambda: model.__delitem__(a)), attempt(lambda: w.__delitem__(a))
        elif op == 'delslice':
            want, got = attempt(lambda: model.__delitem__(s)), attempt(lambda: w.__delitem__(s))
        elif op == 'sort':
            want, got = attempt(lambda: model.sort()), attempt(lambda: w.sort())
        elif op == 'sortf':
            import functools
            f = lambda p, q: q.n - p.n
            want, got = attempt(lambda: model.sort(key=functools.cmp_to_key(f))), attempt(lambda: w.sort(f))
        elif op == 'sortbad':
            def f(p, q):
                raise KeyError('x')
            got = attempt(lambda: w.sort(f))
            if len(model) > 1 and got != ('raises', KeyError):
                return 'sort with a failing comparison: %r' % (got,)
            got = None
        elif op == 'reverse':
            want, got = attempt(lambda: model.reverse()), attempt(lambda: w.reverse())
        elif op == 'index':
            want, got = attempt(lambda: model.index(x)), attempt(lambda: w.index(x))
        elif op == 'count':
            want, got = attempt(lambda: model.count(x)), attempt(lambda: w.count(x))
        elif op == 'contains':
            want, got = ('returns', x in model), ('returns', x in w)
        elif op == 'get':
            want, got = attempt(lambda: model[a]), attempt(lambda: w[a])
        elif op == 'slice':
            s = slice(a, b, step)
            want, got = attempt(lambda: model[s]), attempt(lambda: list(w[s]))
        elif op == 'compare':
            for name in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
                for other in (list(model), xs, model[:1], model + [x]):
                    if getattr(w, name)(other) != getattr(model, name)(other):
                        return '%s differs: %r %r' % (name, model, other)
        elif op == 'iterate':
            # changed while it is iterated over
            def walk(l):
                seen = []
                for item in l:
                    seen.append(item)
                    if len(seen) == 1 + abs(a) % 3:
                        if b % 3 == 0:
                            l.append(x)
                        elif b % 3 == 1:
                            del l[a % len(l)]
                        else:
                            l.insert(a % (len(l) + 1), x)
                return seen
            want, got = attempt(lambda: walk(model)), attempt(lambda: walk(w))
        elif op == 'init':
            w = weaklist.WeakList(xs)
            model = list(xs)
        elif op == 'kill':
            i = b % 8
            victim = alive.pop(i)
            model = [m for m in model if m is not victim]
            probe = weakref.ref(victim)
            del victim
            want = got = x = xs = other = None
            if probe() is not None:
                gc.collect()
            if probe() is not None:
                return 'an item is kept alive'
        if want is not None:
            ok = want[0] == got[0] and (want[1] is got[1] or (type(want[1]) in (bool, int, list) and want[1] == got[1] and type(want[1]) is type(got[1]) and (type(want[1]) is not list or all(p is q for p, q in zip(want[1], got[1])))))
            if not ok:
                return '%s(%r,%r): %r, list gives %r' % (op, a, b, got, want)
        want = got = x = xs = other = None
        now = list(w)
        if len(now) != len(model) or len(w) != len(model) or any(p is not q for p, q in zip(now, model)):
            return 'after %s the items are %r, list: %r' % (op, now, model)
        for entry in list.__iter__(w):
            if not isinstance(entry, weakref.ReferenceType):
                return 'after %s a strong reference is stored' % op
        now = entry = None
    return None
