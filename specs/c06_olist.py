PROPERTY = 'C06'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
EXPLANATION = ('Every mutator of OList is executed symbolically on a list of any length and content, given as a z3 sequence: the content afterwards and the kind of '
               'error equal those of the same operation of list. It is then executed on the list as seen from one arbitrary item (how often it occurs, everything '
               'else open): over every loop and every path the item is announced as new and added, or as deleted and removed, exactly as its membership changed, by '
               'the right sender with the right arguments, and nothing is announced where the operation fails. That no other mutator of list is left without '
               'announcements is checked over the methods of list.')
BOUNDED = ['bounded: sort, reverse, slices with steps and random histories of all mutators with recorded announcements against a reference list (quick 12000, thorough 60000 histories)']
TRUSTED = ['list and set: the operations of the built-in types on sequences (pvc/models.py, pvc/pointwise.py)', 'pydispatch: send calls the receivers, which do not change the list']
ASSUMPTIONS = ['items which compare equal are identical, and are hashable', 'handlers of the announcements do not change the list']
# --- end of meta
from common import *

MUTATORS = ['append', 'clear', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort', '__delitem__', '__setitem__', '__iadd__', '__imul__']
SILENT = ['reverse', 'sort']


def finder(L):
    def method(name):
        for c in L.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
    return method


def havoc_rule(interp, s, fr, items):
    """Content only: lists which the body changes are forgotten, unless it is the list under test"""
    import ast, z3
    from pvc.values import SList, LazyList, Obj
    from pvc import loops, models
    from pvc.interp import Poison
    if not isinstance(s, ast.For) or not isinstance(items, SList):
        return NotImplemented
    ctx = interp.ctx
    n = models.length_term(items)
    j = z3.Int(ctx.name('j'))
    names = loops.assigned(s.body) | loops.target_names(s.target)
    before = dict(fr.locals)
    def poison():
        for name in names:
            fr.locals[name] = Poison('value of %s carried around a loop of %s' % (name, fr.name))
    poison()
    changed = []
    for attempt in range(4):
        def run():
            ctx.assume(z3.And(j >= 0, j < n), check=True)
            mine = [(c, c.seq) for c in changed]
            mark = len(ctx.trace)
            lists = [(v, v.seq) for v in fr.locals.values() if isinstance(v, SList)]
            try:
                interp.assign(s.target, models.index_list(interp, SList(items.seq, items.label, items.codec), j), fr)
                interp.block(s.body, fr)
            finally:
                for t in ctx.trace[mark:]:
                    if t[0] == 'l':
                        if not isinstance(t[1], SList):
                            interp.unsupported('a loop changes %r' % (t[1],))
                        if not any(t[1] is c for c in found):
                            found.append(t[1])
                    elif t[0] == 'w':
                        interp.unsupported('a loop writes to %r' % (t[1],))
                for v, v.seq in lists:
                    pass
        found = []
        outcomes = loops.sub_explore(interp, run, fr) if ctx.feasible(n > 0) else []
        new = [v for v in found if not any(v is c for c in changed)]
        if not new:
            break
        for v in new:
            changed.append(v)
            v.seq = z3.Const(ctx.name('forgotten'), v.seq.sort())
    for v in changed:
        v.seq = z3.Const(ctx.name('forgotten'), v.seq.sort())
    for o in outcomes:
        if o.kind == 'raise':
            if ctx.choose([False, True]):
                raise o.value
        elif o.kind not in ('normal', 'break'):
            interp.unsupported('a loop returns')
    if changed or any(o.kind != 'normal' for o in outcomes):
        ctx.exact = False
    interp.block(s.orelse, fr)
    return True


def proofs(mode):
    import z3
    from vrml import olist
    L = olist.OList
    method = finder(L)
    out = []

    def content(name, make_args, covers=()):
        """The content and the error are those of list"""
        def run(ctx):
            from pvc.values import SList, V
            from pvc.engine import PyExc
            from pvc import models
            interp = make_interp(ctx)
            interp.loop_specs.append(havoc_rule)
            interp.setattr_ok.clear() if hasattr(interp.setattr_ok, 'clear') else None
            o = ctx.obj(L, 'list')
            s = z3.Const(ctx.name('items'), z3.SeqSort(V))
            o.payload = SList(s, 'list')
            plain = SList(s, 'plain')
            args = make_args(ctx, interp)
            def attempt(f):
                try:
                    return 'returns', f()
                except PyExc as err:
                    return 'raises', err.cls
            if name == '__imul__':
                # the sequence itself is left to the cases: a fresh value equal on both sides
                repeat = z3.Function('repeated', s.sort(), z3.IntSort(), s.sort())
                k = args[0].z
                ctx.assume(z3.Implies(k <= 0, repeat(s, k) == z3.Empty(s.sort())))
                interp.class_contracts['repeat', None] = lambda interp, a, b: SList(repeat(a.seq, b.z), 'repeated')
                want = 'returns', None
                plain.seq = repeat(s, k)
            else:
                want = attempt(lambda: models.list_method(interp, plain, name, args, {}))
            mark = len(ctx.trace)
            got = attempt(lambda: interp.call(method(name), [o] + args))
            ctx.cover(want[0])
            ctx.check('the same kind of error as list, or none', got[0] == want[0] and (got[0] == 'returns' or got[1] is want[1]), '%r, list: %r' % (got, want))
            now = models.seq_of(interp, o)
            ctx.check('the content is that of the list afterwards', now == plain.seq if now is not None else False, '%r' % (o.payload,))
            if want[0] == 'raises':
                ctx.check('a refused operation announces nothing', not [t for t in ctx.trace[mark:] if t[0] in ('send', 'foreach') and (t[0] == 'send' or any(u[0] == 'send' for q in t[3] for u in q.trace))])
            if name in ('__iadd__', '__imul__') and got[0] == 'returns':
                ctx.check('the result is the list itself', got[1] is o, repr(got[1]))
            if name == 'pop' and got[0] == 'returns' and want[0] == 'returns':
                ctx.check('the result is the item', interp.to_v(got[1]) == interp.to_v(want[1]))
        out.append((name + ' ' + make_args.__name__.replace('_', ' ') + ', content', run, dict(covers=list(covers) or ['returns'])))

    def announcements(name, make_args, covers=()):
        """Seen from one arbitrary item"""
        def run(ctx):
            from pvc.values import SAny, V
            from pvc.engine import PyExc, PathEnd
            from pvc.pointwise import PointList, PointRule
            from pvc import models
            interp = make_interp(ctx)
            x = ctx.any('item')
            o = ctx.obj(L, 'list')
            m = ctx.choose([0, 1])
            o.payload = PointList(ctx, x, m, 'list')
            held = o.payload
            counts = dict(new=0, added=0, deleted=0, removed=0)
            interp.loop_specs.append(PointRule(counts))
            signals = {L.NEW_CHILD_EVT: 'new', L.NEW_PARENT_EVT: 'added', L.DEL_CHILD_EVT: 'deleted', L.DEL_PARENT_EVT: 'removed'}
            extra = {}
            how = ctx.choose(['none', 'live', 'dead', 'reset'] if name in ('append', 'pop') else ['live'])
            sender = o
            if how != 'none':
                node = ctx.any('node')
                ctx.assume(interp.to_v(node) != interp.to_v(None))
                extra = {'field': ctx.any('field'), 'origin': ctx.any('origin')}
                interp.call(method('setSender'), [o, node], dict(extra))
                if how == 'live':
                    sender = node
                elif how == 'reset':
                    extra = {}
                    interp.call(method('setSender'), [o, None], {})
                else:
                    kill_sender(interp, o, node)
                ctx.check('telling the sender announces nothing', not sends(ctx))
            ctx.cover(how)
            def seen(interp, signal, sent_by, args, named):
                ctx.check('only membership is announced', isinstance(signal, str) and signal in signals and not args, '%r %r' % (signal, args))
                if not isinstance(signal, str) or signal not in signals:
                    return
                kind = signals[signal]
                mine, theirs = ('value', sent_by) if kind in ('new', 'deleted') else ('parent', None)
                ok = set(named) == {mine} | set(extra) and all(named[k] is extra[k] for k in extra if k in named)
                ctx.check('with the arguments of the list and no others', ok, repr(named))
                if mine not in named:
                    return
                if kind in ('new', 'deleted'):
                    ctx.check('from the list or its registered sender', sent_by is sender, repr(sent_by))
                    item = named['value']
                else:
                    ctx.check('the list or its registered sender is the parent', named['parent'] is sender, repr(named['parent']))
                    item = sent_by
                if item is o or item is sender:
                    counts[kind] += 100
                    return
                if item is x or ctx.branch(interp.to_v(item) == x.z):
                    counts[kind] += 1
            interp.class_contracts['send', None] = seen
            args = make_args(ctx, interp, x)
            if how in ('live', 'dead'):
                ctx.assume(x.z != interp.to_v(node), check=False)
            mark = len(ctx.trace)
            try:
                interp.call(method(name), [o] + args)
                raised = None
            except PyExc as err:
                raised = err
            now = o.payload
            if not isinstance(now, PointList):
                interp.unsupported('content %r' % (now,))
            if raised is not None:
                ctx.cover('raises')
                ctx.check('a refused operation changes nothing', now.m == m)
                ctx.check('a refused operation announces nothing', not any(counts.values()) and not [t for t in ctx.trace[mark:] if t[0] == 'send'], repr(counts))
                return
            if now.m > 1:
                raise PathEnd('items are not distinct')
            ctx.cover('enters' if now.m > m else 'leaves' if now.m < m else 'stays' if m else 'absent')
            enter, leave = max(now.m - m, 0), max(m - now.m, 0)
            ctx.check('each item that enters is announced once as new, no other is', counts['new'] == enter, repr((m, now.m, counts)))
            ctx.check('each item that enters is told once that it was added, no other is', counts['added'] == enter, repr((m, now.m, counts)))
            ctx.check('each item that leaves is announced once as deleted, no other is', counts['deleted'] == leave, repr((m, now.m, counts)))
            ctx.check('each item that leaves is told once that it was removed, no other is', counts['removed'] == leave, repr((m, now.m, counts)))
            for t in ctx.trace[mark:]:
                if t[0] == 'w':
                    ctx.check('nothing else is stored', allocated(ctx, t[1]), repr(t))
        out.append((name + ' ' + make_args.__name__.replace('_', ' ') + ', announcements', run, dict(covers=list(covers))))

    def nothing(ctx, interp, x=None):
        return []
    def item(ctx, interp, x=None):
        return [ctx.any('value')]
    def index(ctx, interp, x=None):
        return [ctx.int('index')]
    def no_index(ctx, interp, x=None):
        return [None] if 0 else []
    def a_slice(ctx, interp, x=None):
        step = ctx.choose([None, ctx.int('step')]) if x is not None else None
        return [slice(ctx.choose([None, ctx.int('start')]), ctx.choose([None, ctx.int('stop')]), step)]
    def items(ctx, interp, x=None):
        from pvc.pointwise import PointList
        if x is None:
            return [ctx.slist('new items')]
        return [PointList(ctx, x, ctx.choose([0, 1]), 'values')]
    def two_items(ctx, interp, x=None):
        return [[ctx.any('first'), ctx.any('second')]]
    def index_and_item(ctx, interp, x=None):
        return [ctx.int('index'), ctx.any('value')]
    def slice_and_items(ctx, interp, x=None):
        return a_slice(ctx, interp, x) + items(ctx, interp, x)
    def times(ctx, interp, x=None):
        return [ctx.int('times')]
    both = ['returns', 'raises']
    senders = ['none', 'live', 'dead', 'reset']
    for name, make, c1, c2 in [
            ('append', item, [], ['enters', 'absent', 'stays']),
            ('insert', index_and_item, [], ['enters', 'absent', 'stays']),
            ('extend', items, [], ['enters', 'absent', 'stays']),
            ('extend', two_items, [], ['enters', 'absent', 'stays']),
            ('__iadd__', items, [], ['enters', 'absent', 'stays']),
            ('pop', nothing, both, ['leaves', 'stays', 'raises']),
            ('pop', index, both, ['leaves', 'stays', 'raises']),
            ('remove', item, both, ['leaves', 'stays', 'raises']),
            ('clear', nothing, [], ['leaves', 'absent']),
            ('__setitem__', index_and_item, both, ['enters', 'leaves', 'stays', 'raises']),
            ('__setitem__', slice_and_items, [], ['enters', 'leaves', 'stays']),
            ('__delitem__', index, both, ['leaves', 'stays', 'raises']),
            ('__delitem__', a_slice, [], ['leaves', 'stays', 'absent']),
            ('__imul__', times, [], ['leaves', 'stays', 'absent'])]:
        content(name, make, c1)
        announcements(name, make, c2 + (senders if name in ('append', 'pop') else []))

    def complete(ctx):
        interp = make_interp(ctx)
        known = set(MUTATORS)
        others = {'__init__', '__getitem__', '__len__', '__iter__', '__contains__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__add__', '__mul__', '__rmul__',
                  '__repr__', '__reversed__', '__sizeof__', '__getattribute__', '__new__', '__hash__', '__doc__', '__class_getitem__', 'copy', 'count', 'index'}
        ctx.check('every method of list is accounted for', set(list.__dict__) <= known | others, repr(set(list.__dict__) - known - others))
        for name in MUTATORS:
            if name in SILENT:
                continue
            f = method(name)
            ctx.check('%s announces: it is not the one of list' % name, f is not list.__dict__[name])
        for name in sorted(others):
            if name in ('__init__', '__doc__', '__class_getitem__', '__new__', '__hash__', '__repr__'):
                continue
            ctx.check('reading is that of list: %s' % name, name not in L.__dict__)
    out.append(('every mutator of list is covered', complete, dict(covers=[])))
    return out


def kill_sender(interp, o, node):
    from pvc.values import WeakRef
    ref = interp.get_attr(o, 'sender')
    if not isinstance(ref, WeakRef):
        interp.ctx.check('the sender is referred to weakly', False, repr(ref))
        return
    ref.dead = True


# ------------------------------------------------------------------ cases
class Item(object):
    def __init__(self, n):
        self.n = n
    def __repr__(self):
        return 'I%d' % self.n
    def __lt__(self, other):
        return self.n < other.n


OPS = ['append', 'insert', 'extend', 'extendgen', 'iadd', 'imul', 'pop', 'popi', 'remove', 'set', 'setslice', 'setslice', 'del', 'delslice', 'clear', 'sort', 'reverse', 'sender', 'bad', 'fresh']


def cases(rnd, tier, mode):
    for i in range(12000 if tier == 'quick' else 60000):
        ops = []
        for j in range(rnd.randint(1, 14)):
            ops.append([rnd.choice(OPS), rnd.randint(-6, 7), rnd.randint(-6, 7), rnd.choice([None, None, 1, 2, -1, -2, 3]), rnd.sample(range(10), rnd.randint(0, 5))])
        yield dict(kind='history', start=rnd.sample(range(10), rnd.randint(0, 6)), ops=ops)


def check_case(case):
    import gc
    from pydispatch import dispatcher
    from vrml.olist import OList
    pool = [Item(n) for n in range(10)]
    model = [pool[i] for i in case['start']]
    class Sender(object):
        pass
    keeper = [Sender()]
    extra = {}
    def recorded(f):
        with Recorder() as rec:
            try:
                r = ('returns', f())
            except Exception as err:
                r = ('raises', type(err))
        return r, rec.events
    w, ev = recorded(lambda: OList(list(model)))
    l = w[1]
    if ev:
        return 'construction announces %r' % (ev,)
    sender = l
    for op, a, b, step, many in case['ops']:
        x = pool[b % 10]
        xs = [pool[i] for i in many]
        s = slice(a if a != 7 else None, b if b != 7 else None, step)
        before = list(model)
        trial = list(model)
        def on(t, own):
            if op == 'append': return t.append(x)
            if op == 'insert': return t.insert(a, x)
            if op == 'extend': return t.extend(xs)
            if op == 'extendgen': return t.extend(y for y in xs)
            if op == 'iadd':
                u = t
                u += tuple(xs)
                if u is not t:
                    raise SystemError('+= gives another list')
                return
            if op == 'imul':
                u = t
                u *= (a % 3) - 1
                if u is not t:
                    raise SystemError('*= gives another list')
                return
            if op == 'pop': return t.pop()
            if op == 'popi': return t.pop(a)
            if op == 'remove': return t.remove(x)
            if op == 'set': return t.__setitem__(a, x)
            if op == 'setslice': return t.__setitem__(s, iter(xs) if a % 2 else xs)
            if op == 'del': return t.__delitem__(a)
            if op == 'delslice': return t.__delitem__(s)
            if op == 'clear': return t.clear()
            if op == 'sort': return t.sort(reverse=bool(a % 2))
            if op == 'reverse': return t.reverse()
            if op == 'bad':
                which = a % 5
                if which == 0: return t.__setitem__(slice(None, None, 2), xs + [x] * (len(t) + 1))
                if which == 1: return t.extend(3)
                if which == 2: return t.__setitem__('a', x)
                if which == 3: return t.__delitem__(None)
                return t.insert('a', x)
        if op == 'fresh':
            l = OList(list(model))
            sender, extra = l, {}
            continue
        if op == 'sender':
            if a % 3 == 0:
                l.setSender(None)
                sender, extra = l, {}
            elif a % 3 == 1:
                keeper[0] = Sender()
                l.setSender(keeper[0], field='f%d' % b, origin='o')
                sender, extra = keeper[0], {'field': 'f%d' % b, 'origin': 'o'}
            else:
                temp = Sender()
                l.setSender(temp, field='gone')
                del temp
                sender, extra = l, {'field': 'gone'}
            continue
        try:
            want = ('returns', on(trial, False))
        except Exception as err:
            want = ('raises', type(err))
        distinct = len(set(map(id, trial))) == len(trial)
        if not distinct:
            continue
        got, events = recorded(lambda: on(l, True))
        model = trial
        if got[0] != want[0] or got[0] == 'raises' and got[1] is not want[1]:
            return '%s: %r, list gives %r' % (op, got, want)
        if op in ('pop', 'popi') and got != want:
            return '%s gives %r, list %r' % (op, got, want)
        if list(l) != model or len(l) != len(model):
            return 'after %s the content is %r, of list %r' % (op, list(l), model)
        if got[0] == 'raises':
            if events:
                return 'a refused %s announces %r' % (op, events)
            if model != before:
                return 'bad reference'
            continue
        wanted = {}
        for y in model:
            if y not in before:
                wanted['new', id(y)] = wanted['added', id(y)] = 1
        for y in before:
            if y not in model:
                wanted['del', id(y)] = wanted['removed', id(y)] = 1
        seen = {}
        for sig, snd, named in events:
            named = dict(named)
            if sig in ('new', 'del'):
                item, where = named.pop('value', None), snd
            elif sig in ('added', 'removed'):
                item, where = snd, named.pop('parent', None)
            else:
                return '%s announces %r' % (op, sig)
            if where is not sender:
                return '%s: %s concerns %r, not %r' % (op, sig, where, sender)
            if named != extra:
                return '%s: %s with %r, not %r' % (op, sig, named, extra)
            seen[sig, id(item)] = seen.get((sig, id(item)), 0) + 1
        if seen != wanted:
            show = lambda d: sorted(('%s %s' % (k[0], [y for y in pool if id(y) == k[1]]), n) for k, n in d.items())
            return '%s of %r giving %r announces %r, expected %r' % (op, before, model, show(seen), show(wanted))
    return None
