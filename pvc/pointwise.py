"""Lists seen from one arbitrary item.

PointList abstracts a list to the number of its entries that are one fixed,
arbitrary item (the point); entries elsewhere are any others.  Every operation
of list is modelled on that abstraction (positions are forgotten, so what a
slice or an index reaches is left open), and a loop over such a list is decided
by the invariant "the state is that left by the iterations whose item is the
point": an iteration over any other item must not change what is known of the
point, the iterations over the point are executed.  What is proved of the
point holds of every item, as it is arbitrary.
"""
import ast
import z3
from .values import *
from .engine import *
from . import models
from .interp import Return, Break, Continue, Poison


class PointList(LazyList):
    cls = list
    def __init__(self, ctx, point, m, label='list'):
        self.ctx, self.point, self.m, self.label = ctx, point, m, label
        self.n = z3.Int(ctx.name('length'))
        ctx.assume(self.n >= m, check=False)
        self.known, self.slices, self.members = {}, {}, {}
        self.source = None
        ctx.__dict__.setdefault('points', []).append(self)
    def __repr__(self):
        return '<list %s with the point %d times>' % (self.label, self.m)
    # -- helpers
    def other(self):
        y = self.ctx.any('other')
        self.ctx.assume(y.z != self.point.z, check=False)
        return y
    def is_point(self, interp, v):
        if v is self.point:
            return True
        return self.ctx.branch(interp.to_v(v) == self.point.z)
    def changed(self, interp, m):
        if m < 0:
            raise PathEnd('fewer entries than none')
        self.ctx.trace.append(('l', self, self.m, m))
        self.m = m
        self.n = z3.Int(self.ctx.name('length'))
        self.ctx.assume(self.n >= m, check=False)
        self.known, self.slices, self.members = {}, {}, {}
    def item(self, i):
        """The item at a valid index"""
        k = key(i)
        if k not in self.known:
            which = self.ctx.choose(['other', 'point']) if self.m else 'other'
            self.known[k] = self.point if which == 'point' else self.other()
        return self.known[k]
    def at(self, interp, index):
        k = key(index)
        if k not in self.known and self.ctx.choose(['in range', 'out of range']) == 'out of range':
            interp.raise_(IndexError, 'list index out of range')
        return self.item(index)
    def taken(self, interp, index):
        """How often the point occurs in a slice"""
        k = key(index)
        if k not in self.slices:
            none = index.step is None and index.start is not None and index.stop is not None and key(index.start) == key(index.stop)
            everything = index.step is None and index.start in (None, 0) and index.stop is None if not is_sym(index.start) and not is_sym(index.stop) else False
            self.slices[k] = 0 if none else self.m if everything else self.ctx.choose(list(range(self.m + 1)))
        return self.slices[k]
    def has(self, interp, v):
        if self.is_point(interp, v):
            return self.m > 0
        k = key(v)
        if k not in self.members:
            self.members[k] = self.ctx.choose([True, False])
        return self.members[k]
    def new(self, m, label):
        r = PointList(self.ctx, self.point, m, label)
        r.fresh_local = True
        return r
    def count_of(self, interp, items):
        items = interp.iterate(items)
        if isinstance(items, PointList):
            return items.m
        if isinstance(items, (SList, LazyList)):
            interp.unsupported('items of another kind of list')
        return sum(1 for v in items if self.is_point(interp, v))
    # -- the operations of list
    def list_method(self, interp, target, name, args, kwargs):
        ctx = self.ctx
        if kwargs and name != 'sort':
            interp.unsupported('list.%s with keywords' % name)
        one = lambda v: 1 if self.is_point(interp, v) else 0
        if name == '__len__':
            return SInt(self.n)
        if name == '__iter__':
            return self
        if name == '__getitem__':
            if isinstance(args[0], slice):
                return self.new(self.taken(interp, args[0]), 'slice')
            return self.at(interp, args[0])
        if name == '__setitem__':
            index, value = args
            if isinstance(index, slice):
                m = self.count_of(interp, value)
                if index.step is not None and ctx.choose(['fits', 'wrong length']) == 'wrong length':
                    interp.raise_(ValueError, 'attempt to assign sequence to extended slice')
                self.changed(interp, self.m - self.taken(interp, index) + m)
                return None
            old = self.at(interp, index)
            self.changed(interp, self.m - one(old) + one(value))
            return None
        if name == '__delitem__':
            if isinstance(args[0], slice):
                self.changed(interp, self.m - self.taken(interp, args[0]))
                return None
            self.changed(interp, self.m - one(self.at(interp, args[0])))
            return None
        if name == 'append':
            self.changed(interp, self.m + one(args[0]))
            return None
        if name == 'insert':
            self.changed(interp, self.m + one(args[1]))
            return None
        if name in ('extend', '__iadd__'):
            self.changed(interp, self.m + self.count_of(interp, args[0]))
            return target if name == '__iadd__' else None
        if name == 'pop':
            old = self.at(interp, args[0] if args else -1)
            self.changed(interp, self.m - one(old))
            return old
        if name == 'clear':
            self.changed(interp, 0)
            return None
        if name == 'remove':
            if not self.has(interp, args[0]):
                interp.raise_(ValueError, 'list.remove(x): x not in list')
            self.changed(interp, self.m - one(args[0]))
            return None
        if name == '__contains__':
            return self.has(interp, args[0])
        if name == 'count':
            return self.m if self.is_point(interp, args[0]) else SInt(z3.Int(ctx.name('count')))
        if name == 'index':
            if not self.has(interp, args[0]):
                interp.raise_(ValueError, 'not in list')
            i = SInt(z3.Int(ctx.name('index')))
            self.known[key(i)] = args[0]
            return i
        if name in ('__imul__', '__mul__', '__rmul__'):
            if is_sym(args[0]):
                times = ctx.choose(['none', 'once', 'twice'])
                z = integer(args[0])
                ctx.assume({'none': z <= 0, 'once': z == 1, 'twice': z == 2}[times])
                m = self.m * {'none': 0, 'once': 1, 'twice': 2}[times]
            else:
                m = self.m * max(0, args[0])
            if name != '__imul__':
                return self.new(m, 'repeated')
            self.changed(interp, m)
            return target
        if name == '__add__':
            return self.new(self.m + self.count_of(interp, args[0]), 'sum')
        if name == 'copy':
            return self.new(self.m, 'copy')
        if name in ('reverse', 'sort'):
            self.changed(interp, self.m)
            return None
        interp.unsupported('list.%s on a list seen from one item' % name)
    def copy_list(self, interp):
        return self.new(self.m, 'copy')
    def comprehend(self, interp, e, inner, g, kind):
        """[x for x in list if ...]"""
        saved = dict(inner.locals)
        def one(v):
            interp.assign(g.target, v, inner)
            for c in g.ifs:
                if not interp.truth(interp.ev(c, inner)):
                    return 0
            r = interp.ev(e.elt, inner)
            if not isinstance(r, SAny) or not z3.eq(r.z, v.z):
                interp.unsupported('comprehension which changes the items')
            return 1
        def run():
            if self.m and self.ctx.choose([False, True]):
                m = sum(one(self.point) for i in range(self.m))
                return ('point', m)
            one(self.other())
            return ('other', 0)
        mark = len(self.ctx.trace)
        if self.ctx.choose(['step', 'all']) == 'step':
            one(self.other())
            if [t for t in self.ctx.trace[mark:] if t[0] in ('w', 'l', 'send')]:
                interp.unsupported('comprehension with effects')
            raise PathEnd('another item')
        m = sum(one(self.point) for i in range(self.m))
        inner.locals = saved
        return self.new(m, 'comprehension')


def key(v):
    if isinstance(v, slice):
        return 'slice(%s,%s,%s)' % (key(v.start), key(v.stop), key(v.step))
    if isinstance(v, Sym):
        return str(v.z)
    if isinstance(v, z3.ExprRef):
        return str(v)
    return repr(v) if isinstance(v, (int, float, str, type(None))) else 'object %d' % id(v)


def set_model(interp, items):
    """set(list): only membership is asked of it"""
    return items


class PointRule(object):
    """Loops over PointLists; counters (a dict) is whatever else is known of the point"""
    def __init__(self, counters):
        self.counters = counters
    def __call__(self, interp, s, fr, items):
        from .loops import assigned, target_names, sub_explore
        if not isinstance(items, PointList) or not isinstance(s, ast.For):
            return NotImplemented
        ctx = interp.ctx
        # lists the frame has built are seen from the point, too
        done = {}
        for name, v in list(fr.locals.items()):
            if type(v) is list and id(v) in interp.fresh:
                if id(v) not in done:
                    done[id(v)] = items.new(sum(1 for x in v if items.is_point(interp, x)), name)
                fr.locals[name] = done[id(v)]
        targets = target_names(s.target)
        names = assigned(s.body) | targets
        carried = {name for name in names - targets if isinstance(fr.locals.get(name), PointList)}
        def poison():
            for name in names - carried:
                fr.locals[name] = Poison('value of %s carried around a loop of %s' % (name, fr.name))
            for name in carried:
                if not isinstance(fr.locals.get(name), PointList):
                    interp.unsupported('%s becomes another kind of value in a loop of %s' % (name, fr.name))
        points = list(ctx.points)
        def known():
            return [p.m for p in points] + [(name, fr.locals[name].m) for name in sorted(carried)] + sorted(self.counters.items())
        def body(v):
            mark = len(ctx.trace)
            m = items.m
            poison()
            interp.assign(s.target, v, fr)
            try:
                interp.block(s.body, fr)
            except Continue:
                pass
            for t in ctx.trace[mark:]:
                if t[0] == 'w' and not getattr(t[1], 'fresh_local', False):
                    interp.unsupported('loop body in %s writes to %r' % (fr.name, t[1]))
            if items.m != m:
                interp.unsupported('loop in %s over a list it changes' % fr.name)
        # which lists may iterations change?
        changed = []
        def dry():
            saved = [(p, p.m, p.n, p.known, p.slices, p.members) for p in ctx.points]
            counters = dict(self.counters)
            registered = len(ctx.points)
            mark = len(ctx.trace)
            for p in ctx.points:
                p.known, p.slices, p.members = dict(p.known), dict(p.slices), dict(p.members)
            try:
                body(items.point if items.m and ctx.choose([True, False]) else items.other())
            finally:
                for t in ctx.trace[mark:]:
                    if t[0] == 'l' and t[1] not in changed:
                        changed.append(t[1])
                for p, p.m, p.n, p.known, p.slices, p.members in saved:
                    pass
                del ctx.points[registered:]
                self.counters.clear()
                self.counters.update(counters)
        sub_explore(interp, dry, fr)
        def forget():
            for p in points:
                if any(p is c for c in changed):
                    p.known, p.slices, p.members = {}, {}, {}
                    p.n = z3.Int(ctx.name('length'))
                    ctx.assume(p.n >= p.m, check=False)
        if any(items is c for c in changed):
            interp.unsupported('loop in %s over a list it changes' % fr.name)
        try:
            if ctx.choose(['another item', 'the point']) == 'another item':
                for i in range(ctx.choose(list(range(items.m + 1)))):
                    forget()
                    body(items.point)
                forget()
                before = known()
                body(items.other())
                if known() != before:
                    interp.unsupported('loop in %s: an iteration over one item concerns others' % fr.name)
                raise PathEnd('another item')
            for i in range(items.m):
                forget()
                body(items.point)
        except Break:
            return True
        poison()
        forget()
        interp.block(s.orelse, fr)
        return True
