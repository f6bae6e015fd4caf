PROPERTY = 'C21'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
EXPLANATION = ('Paths of any length (z3 sequences of node identities; weak paths through their references) of the four path classes: common by its loop invariant '
               '(the result so far is the shared run) and postcondition (a shared prefix that no longer one exceeds), == in both directions by the search rule, '
               'slices and additions against list, the recording of a child, and iterchildren by an invariant over its list of references (exactly the live ones are listed, exactly the dead ones dropped).')
BOUNDED = ['bounded: random trees of paths of all four classes, including nodes that compare equal without being identical, with children dying at any time']
TRUSTED = ['list: the operations of the built-in list on sequences (pvc/models.py)', 'weakref: gives its object while it lives; a dead reference equals only itself']
ASSUMPTIONS = ['nodes of a weak path live while the path is used', 'definition of the filter of live references: L(s + [r]) = L(s) + ([r] if r is alive else []), no dead reference occurs in L(s)']
# --- end of meta
from common import *
from c22_weaklist import Refs, not_refs, iter_rule


def path_classes():
    from vrml import nodepath
    from vrml.vrml97 import nodepath as np97
    return [('strong', nodepath.NodePath), ('weak', nodepath.WeakNodePath), ('strong97', np97.NodePath), ('weak97', np97.WeakNodePath)]


def path(ctx, interp, C, label):
    """A path of class C over any nodes, and its sequence"""
    import z3
    from pvc import models
    from pvc.values import SList, V
    from vrml import weaklist
    weak = issubclass(C, weaklist.WeakList)
    codec = Refs() if weak else None
    def content(interp, items):
        seq = models.seq_of(interp, items, codec)
        if seq is None:
            interp.unsupported('content of a path')
        return SList(seq, 'path', codec)
    interp.class_contracts['content', C] = content
    o = ctx.obj(C, label)
    s = z3.Const(ctx.name(label + '_nodes'), z3.SeqSort(V))
    o.payload = SList(s, label, codec)
    return o, s


def nodes_of(interp, p):
    """The nodes of a path"""
    from pvc import models
    from vrml import weaklist
    from pvc.values import Obj
    return models.seq_of(interp, p, Refs() if isinstance(p, Obj) and issubclass(p.cls, weaklist.WeakList) else None)


def prefix_rule(s):
    """Loop building the shared run: after k steps the list is the first k nodes"""
    def rule(interp, stmt, fr, items):
        import ast, z3
        from pvc import loops
        from pvc.values import SList, Obj
        if items is None or not fr.name.endswith('common'):
            return NotImplemented
        ctx = interp.ctx
        lists = [k for k, v in fr.locals.items() if (type(v) is list and not v and id(v) in interp.fresh)]
        if len(lists) != 1:
            return NotImplemented
        name = lists[0]
        sa, sb = s
        state = {}
        def establish():
            pass
        def havoc(k):
            # any state in which the run of k nodes is shared
            run, ra, rb = (z3.Const(ctx.name(x), sa.sort()) for x in ('run', 'rest', 'other_rest'))
            ctx.assume(z3.And(sa == z3.Concat(run, ra), sb == z3.Concat(run, rb), z3.Length(run) == k), check=False)
            fr.locals[name] = SList(run, 'shared run')
            state['run'] = run
        def preserved(k):
            v = fr.locals[name]
            ctx.cover('step')
            ctx.check('a step is within both paths', z3.And(k < z3.Length(sa), k < z3.Length(sb)))
            ctx.check('after a step the run so far is shared', sa[k] == sb[k])
            ctx.check('and held', v.seq == z3.Concat(state['run'], z3.Unit(sa[k])) if isinstance(v, SList) else False)
        loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
    return rule


def proofs(mode):
    import z3
    out = []
    classes = path_classes()

    def start(ctx):
        interp = make_interp(ctx)
        not_refs(interp)
        interp.loop_specs.append(iter_rule)
        return interp

    def common(C):
        def run(ctx):
            from pvc.values import Obj
            interp = start(ctx)
            a, sa = path(ctx, interp, C, 'path')
            b, sb = path(ctx, interp, C, 'other')
            interp.loop_specs.append(prefix_rule((sa, sb)))
            r = interp.call(interp.get_attr(a, 'common'), [b])
            ctx.check('a path of the same kind', isinstance(r, Obj) and r.cls is C and r is not a and r is not b, repr(r))
            if not isinstance(r, Obj):
                return
            sr = nodes_of(interp, r)
            ctx.check('a leading run of the path', z3.PrefixOf(sr, sa))
            ctx.check('a leading run of the other', z3.PrefixOf(sr, sb))
            ctx.cover('result')
            n = z3.Length(sr)
            ctx.instantiate(n)
            ctx.check('no longer run is shared', z3.Or(n == z3.Length(sa), n == z3.Length(sb), sa[n] != sb[n]))
            ctx.check('the paths are not changed', z3.And(nodes_of(interp, a) == sa, nodes_of(interp, b) == sb))
        return run

    def equal(C, D):
        def run(ctx):
            interp = start(ctx)
            a, sa = path(ctx, interp, C, 'path')
            if D is list:
                b = ctx.slist('other')
                sb = b.seq
            else:
                b, sb = path(ctx, interp, D, 'other')
            r = interp.call(interp.get_attr(a, '__eq__'), [b])
            n = z3.Length(sa)
            if interp.truth(r):
                ctx.cover('equal')
                ctx.check('equal paths have the same length', n == z3.Length(sb))
                j = z3.Int(ctx.name('arbitrary'))
                ctx.assume(z3.And(j >= 0, j < n), check=False)
                if ctx.feasible():
                    ctx.instantiate(j)
                    ctx.check('and identical nodes in order', sa[j] == sb[j])
            else:
                ctx.cover('different')
                ctx.check('different paths differ', sa != sb)
            ctx.check('nothing is changed', not dict_writes(ctx))
        return run

    def item(C):
        def run(ctx):
            from pvc.engine import PyExc
            from pvc.values import SList, Obj, WeakRef
            from pvc import models
            interp = start(ctx)
            a, sa = path(ctx, interp, C, 'path')
            key = ctx.choose([ctx.int('index'), slice(ctx.choose([None, ctx.int('start')]), ctx.choose([None, ctx.int('stop')]))])
            plain = SList(sa, 'plain')
            try:
                want = models.list_method(interp, plain, '__getitem__', [key], {})
            except PyExc as err:
                want = err.cls
            try:
                got = interp.get_item(a, key)
            except PyExc as err:
                ctx.cover('no such item')
                ctx.check('the error of a list', want is err.cls, str(err))
                return
            if isinstance(key, slice):
                ctx.cover('slice')
                ctx.check('a slice is a path of the same kind', isinstance(got, Obj) and got.cls is C, repr(got))
                if isinstance(got, Obj):
                    ctx.check('of exactly those nodes', nodes_of(interp, got) == want.seq)
            else:
                ctx.cover('item')
                ctx.check('an item is the node itself', interp.to_v(got) == interp.to_v(want) if not isinstance(got, WeakRef) and want is not IndexError else False, repr(got))
            ctx.check('the path is not changed', nodes_of(interp, a) == sa)
        return run

    def add(C):
        def run(ctx):
            from vrml import node
            from pvc import models
            from pvc.values import SList, Obj, V, WeakRef, ABSENT, LazyList
            interp = start(ctx)
            a, sa = path(ctx, interp, C, 'path')
            what = ctx.choose(['node', 'list', 'path'])
            if what == 'node':
                other = ctx.obj(type('Probe', (node.Node,), {}), 'node', open=True)
                tail = z3.Unit(other.ref)
            elif what == 'list':
                other = ctx.slist('nodes')
                tail = other.seq
            else:
                other, tail = path(ctx, interp, C, 'other')
            records = any('children' in c.__dict__ for c in C.__mro__)
            before = None
            if records:
                if ctx.choose([True, False]):
                    before = z3.Const(ctx.name('children'), z3.SeqSort(V))
                    a.d.over.append(['children', SList(before, 'children', Children())])
            mark = len(ctx.trace)
            r = interp.binop(__import__('ast').Add(), a, other)
            ctx.cover(what)
            ctx.check('a new path of the same kind', isinstance(r, Obj) and r.cls is C and r is not a and r is not other, repr(r))
            if not isinstance(r, Obj):
                return
            ctx.check('exactly the nodes of both', nodes_of(interp, r) == z3.Concat(sa, tail))
            ctx.check('the path is not changed', nodes_of(interp, a) == sa)
            if what == 'path':
                ctx.check('nor the other', nodes_of(interp, other) == tail)
            if not records:
                return
            now = interp.dict_lookup(a.d, 'children')
            if before is None:
                ok = isinstance(now, list) and len(now) == 1 and isinstance(now[0], WeakRef) and now[0].target is r
                ctx.check('the new path is recorded as the only child', ok, repr(now))
            else:
                ctx.check('the list of children is kept', isinstance(now, SList))
                if isinstance(now, SList):
                    last = z3.simplify(now.seq[z3.Length(now.seq) - 1])
                    ctx.check('the new path is recorded after the others', now.seq == z3.Concat(before, z3.Unit(Children().encode(interp, WeakRef(r)))), repr(now))
            parent = interp.get_attr(r, 'parent')
            ctx.check('its parent is the path', parent is a, repr(parent))
            kids = interp.get_attr(r, 'children')
            ctx.check('it has no children itself', kids is None or kids == [], repr(kids))
        return run

    def children(C):
        def run(ctx):
            from pvc.values import SList, V, LazyList
            interp = start(ctx)
            a, sa = path(ctx, interp, C, 'path')
            if ctx.choose([False, True]):
                ctx.cover('none')
                r = interp.call(interp.get_attr(a, 'iterchildren'), [])
                ctx.check('no children before any extension', isinstance(r, list) and not r, repr(r))
                return
            c = z3.Const(ctx.name('children'), z3.SeqSort(V))
            a.d.over.append(['children', SList(c, 'children', Children())])
            L = z3.Function('live', z3.SeqSort(V), z3.SeqSort(V))
            def rule(interp, stmt, fr, items):
                from pvc import loops
                if items is None or fr.yields is None or not isinstance(items, SList):
                    return NotImplemented
                n = z3.Length(c)
                ctx.check('every child is looked at', items.seq == c)
                ctx.check('nothing is listed before', type(fr.yields) is list and not fr.yields)
                state = {}
                def kids():
                    return interp.dict_lookup(a.d, 'children')
                def establish():
                    ctx.assume(L(z3.Empty(z3.SeqSort(V))) == z3.Empty(z3.SeqSort(V)), check=False)
                def havoc(k):
                    # c = done ++ [x] ++ rest; listed and kept so far: L(done)
                    done, kept = z3.Const(ctx.name('done'), c.sort()), z3.Const(ctx.name('kept'), c.sort())
                    ctx.assume(z3.And(z3.Length(done) == k, kept == L(done)), check=False)
                    state['kept'] = kept
                    if not ctx.branch(k < n):
                        ctx.assume(done == c, check=False)
                        kids().seq = kept
                        return
                    x, rest = z3.Const(ctx.name('x'), V), z3.Const(ctx.name('rest'), c.sort())
                    ctx.assume(z3.And(c == z3.Concat(done, z3.Unit(x), rest), c[k] == x), check=False)
                    state.update(x=x, rest=rest)
                    here = z3.Concat(kept, z3.Unit(x), rest)
                    kids().seq = here
                    # no dead reference is in L(done), so that its first place is after it
                    ctx.assume(z3.Implies(z3.Not(ALIVE(x)), z3.And(z3.Contains(here, z3.Unit(x)), z3.IndexOf(here, z3.Unit(x), z3.IntVal(0)) == z3.Length(kept))), check=False)
                def preserved(k):
                    ctx.cover('step')
                    got = fr.yields
                    x, kept = state['x'], state['kept']
                    alive = ALIVE(x)
                    same = len(got) == 1 and isinstance(got[0], SAny_)
                    ctx.check('a live child is listed once, a dead one not', z3.If(alive, got[0].z == TARGET(x) if same else z3.BoolVal(False), z3.BoolVal(not got)), repr(got))
                    ctx.check('live children stay recorded, dead ones are dropped', kids().seq == z3.If(alive, z3.Concat(kept, z3.Unit(x), state['rest']), z3.Concat(kept, state['rest'])))
                from pvc.values import SAny as SAny_
                each = LazyList(n, lambda i: Children().decode(interp, state['x']), 'children')
                loops.by_invariant(interp, stmt, fr, each, establish, havoc, preserved)
                fr.yields = LazyList(z3.Length(L(c)), lambda i: None, 'listed')
                fr.yields.listed = True
            interp.loop_specs.insert(0, rule)
            r = interp.call(interp.get_attr(a, 'iterchildren'), [])
            if type(r) is list and not r:
                # (without the loop)
                ctx.check('nothing is listed without a child only', z3.Length(c) == 0)
                now = interp.dict_lookup(a.d, 'children')
                ctx.check('no child stays recorded', z3.Length(now.seq) == 0 if isinstance(now, SList) else not now)
                return
            ctx.cover('some')
            ctx.check('the children are listed by the loop', getattr(r, 'listed', False), repr(r))
            now = interp.dict_lookup(a.d, 'children')
            ctx.check('exactly the live children stay recorded', now.seq == L(c) if isinstance(now, SList) else False)
        return run

    for name, C in classes:
        out.append(('%s common' % name, common(C), dict(covers=['result'])))
        out.append(('%s equal' % name, equal(C, C), dict(covers=['equal', 'different'])))
        out.append(('%s equal to a list' % name, equal(C, list), dict(covers=['equal', 'different'])))
        out.append(('%s items and slices' % name, item(C), dict(covers=['item', 'slice', 'no such item'])))
        out.append(('%s addition' % name, add(C), dict(covers=['node', 'list', 'path'])))
        if hasattr(C, 'iterchildren'):
            out.append(('%s children' % name, children(C), dict(covers=['none', 'some', 'step'])))
    return out


def _fun():
    import z3
    from pvc.values import V
    return z3.Function('alive', V, z3.BoolSort()), z3.Function('target', V, V)


def ALIVE(t):
    return _fun()[0](t)


def TARGET(t):
    return _fun()[1](t)


class Children(object):
    """Entries of a list of children: weak references, by their own identity"""
    def __init__(self):
        from pvc.values import V
        self.sort = V
    def __eq__(self, other):
        return isinstance(other, Children)
    __hash__ = object.__hash__
    def encode(self, interp, v):
        import z3
        from pvc.values import WeakRef, V
        ok = isinstance(v, WeakRef)
        interp.ctx.check('children are recorded by weak references', ok, repr(v))
        if not ok:
            return interp.to_v(v)
        if v.ref is not None:
            return v.ref
        # references without a callback to the same object are one object
        return z3.Function('reference_to', V, V)(interp.to_v(v.target))
    def decode(self, interp, term):
        import z3
        from pvc.values import WeakRef, SAny
        r = WeakRef(SAny(TARGET(term)), None, term)
        r.dead = z3.Not(ALIVE(term))
        interp.ctx.assume(TARGET(term) != interp.to_v(None), check=False)
        return r


# ------------------------------------------------------------------ cases
def cases(rnd, tier, mode):
    for i in range(1500 if tier == 'quick' else 20000):
        ops = []
        for j in range(rnd.randint(1, 14)):
            ops.append([rnd.choice(['new', 'addnode', 'addnode', 'addlist', 'addpath', 'addtuple', 'common', 'eq', 'slice', 'item', 'drop', 'drop', 'children', 'children']),
                        rnd.randint(0, 9), rnd.randint(0, 9), [rnd.randint(0, 4) for k in range(rnd.randint(0, 4))], rnd.choice([None, 0, 1, -1, 2, 5]), rnd.choice([None, 1, -1, 3, 9]), rnd.choice([None, 1, 2, -1])])
        yield dict(kind='history', cls=rnd.choice(['strong', 'weak', 'strong97', 'weak97']), ops=ops)


def check_case(case):
    import gc
    from vrml import node, weaklist
    class Eq(node.Node):
        """Equal to its like, though not identical"""
        def __eq__(self, other):
            return isinstance(other, Eq)
        def __ne__(self, other):
            return not self == other
        __hash__ = object.__hash__
    C = dict(path_classes())[case['cls']]
    records = hasattr(C, 'iterchildren')
    pool = [Eq(), Eq(), node.Node(), node.Node(), Eq()]
    paths, models, kids = [C([pool[0]])], [[pool[0]]], [[]]
    # kids[i]: the paths made by extending path i, in order (as indices)
    def check(p, m, what):
        if type(p) is not C:
            return '%s is a %s' % (what, type(p).__name__)
        got = list(p)
        if len(got) != len(m) or any(x is not y for x, y in zip(got, m)):
            return '%s holds other nodes' % what
    def keep(p, m, parent=None):
        paths.append(p)
        models.append(m)
        kids.append([])
        if parent is not None:
            kids[parent].append(len(paths) - 1)
    for op, a, b, many, start, stop, step in case['ops']:
        live = [i for i, p in enumerate(paths) if p is not None]
        if not live:
            return None
        a, b = live[a % len(live)], live[b % len(live)]
        nodes = [pool[i] for i in many]
        bad = None
        if op == 'new':
            keep(C(nodes), nodes)
            bad = check(paths[-1], nodes, 'a new path')
        elif op in ('addnode', 'addlist', 'addpath', 'addtuple'):
            if op == 'addnode':
                n = pool[(many or [0])[0]]
                p, m = paths[a] + n, models[a] + [n]
            elif op == 'addpath':
                p, m = paths[a] + paths[b], models[a] + models[b]
            else:
                p, m = paths[a] + nodes, models[a] + nodes
            if p is paths[a] or p is paths[b]:
                return 'an addition gives the path itself'
            keep(p, m, a)
            bad = check(p, m, 'an extended path') or check(paths[a], models[a], 'the path extended')
            p = None
        elif op == 'common':
            r = paths[a].common(paths[b])
            m = []
            for x, y in zip(models[a], models[b]):
                if x is not y:
                    break
                m.append(x)
            bad = check(r, m, 'the common part')
            r = None
        elif op == 'eq':
            want = len(models[a]) == len(models[b]) and all(x is y for x, y in zip(models[a], models[b]))
            if bool(paths[a] == paths[b]) != want:
                return '== gives %r' % (paths[a] == paths[b],)
            if bool(paths[a] == C(models[a])) is not True:
                return 'a path of the same nodes is not equal'
        elif op == 'slice':
            r = paths[a][start:stop:step]
            bad = check(r, models[a][start:stop:step], 'a slice')
            r = None
        elif op == 'item':
            i = start or 0
            try:
                got = paths[a][i]
            except IndexError:
                got = None
            try:
                want = models[a][i]
            except IndexError:
                want = None
            if got is not want:
                return 'item %r is %r' % (i, got)
        elif op == 'drop':
            if len(live) > 1:
                # whoever holds it: children hold their parents
                paths[a] = None
        elif op == 'children' and records:
            got = [id(x) for x in paths[a].iterchildren()]
            gc.collect()
        if bad:
            return bad
        if records:
            for i, p in enumerate(paths):
                if p is None:
                    continue
                # dropped children may be alive through their own children
                known = [id(paths[k]) for k in kids[i] if paths[k] is not None]
                got = [id(x) for x in p.iterchildren()]
                if [g for g in got if g in known] != known:
                    return 'children listed: %d of %d' % (len([g for g in got if g in known]), len(known))
                held = set()
                for q in paths:
                    while q is not None and id(q) not in held:
                        held.add(id(q))
                        q = q.parent
                if [g for g in got if g not in held]:
                    gc.collect()
                    got = [id(x) for x in p.iterchildren()]
                    if [g for g in got if g not in held]:
                        return 'a dead child is listed'
            p = q = None
    return None
