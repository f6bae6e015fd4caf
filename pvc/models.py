"""Assumed contracts of the language's builtins and of the libraries used"""
import builtins, operator, types, weakref, math
import z3
from .values import *
from .engine import *
from . import source
from .interp import Frame, mro_lookup, is_repo_class, is_repo_func, Poison

# ---------------------------------------------------------------- lists
_const_seq_cache = {}


def content(interp, v):
    """The list value behind v: python list/tuple, SList or LazyList (or None)"""
    if isinstance(v, Obj) and v.payload is not None:
        return v.payload
    if isinstance(v, (SList, LazyList, list, tuple)):
        return v
    return None


def set_content(interp, v, new):
    interp.ctx.trace.append(('l', v, v.payload if isinstance(v, Obj) else (v.seq if isinstance(v, SList) else list(v)), new))
    if isinstance(v, Obj):
        v.payload = new
    elif isinstance(v, SList):
        if isinstance(new, SList):
            v.seq = new.seq
        else:
            v.seq = seq_of(interp, new)
    else:
        if id(v) not in interp.fresh:
            interp.unsupported('change of a list which is not local')
        if isinstance(new, (SList, LazyList)):
            interp.unsupported('list of known length takes items of unknown number')
        v[:] = new


def encode(interp, v, codec=None):
    if codec:
        return codec.encode(interp, v)
    return interp.to_v(v)


def decode(interp, term, lst):
    codec = getattr(lst, 'codec', None)
    if codec:
        return codec.decode(interp, term)
    return interp.from_v(term)


def seq_of(interp, v, codec=None):
    """z3 sequence of a list value, None if it has none"""
    v = content(interp, v)
    if isinstance(v, SList):
        return v.seq
    if isinstance(v, (list, tuple)):
        sort = codec.sort if codec else V
        if not v:
            return z3.Empty(z3.SeqSort(sort))
        units = [z3.Unit(encode(interp, x, codec)) for x in v]
        return z3.Concat(*units) if len(units) > 1 else units[0]
    if isinstance(v, ConcatList):
        parts = [seq_of(interp, p, codec) for p in v.parts]
        return None if any(p is None for p in parts) else z3.Concat(*parts)
    if isinstance(v, LazyList):
        base = getattr(v, 'source', None)
        if isinstance(base, SList):
            # the same sequence again, when each item stands for the same term
            j = z3.Int(interp.ctx.name('same'))
            try:
                term = encode(interp, v.item(j), codec)
            except PyExc:
                return None
            if z3.eq(z3.simplify(term), z3.simplify(base.seq[j])):
                return base.seq
        # items 0 .. n-1 of a sequence
        if interp.ctx.branch(v.n <= 0):
            return z3.Empty(z3.SeqSort(codec.sort if codec else V))
        j = z3.Int(interp.ctx.name('same'))
        interp.ctx.assume(z3.And(j >= 0, j < v.n), check=False)
        try:
            term = encode(interp, v.item(j), codec)
        except PyExc:
            return None
        for seq in sequences_in(term):
            if z3.eq(z3.simplify(term), z3.simplify(seq[j])) and not mentions(seq, j) and not interp.ctx.feasible(z3.Or(v.n < 0, v.n > z3.Length(seq))):
                return z3.Extract(seq, z3.IntVal(0), v.n)
    return None


def sequences_in(term):
    out, todo, seen = [], [term], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_seq(t) and not z3.is_string(t) and t.num_args() == 0:
            out.append(t)
        todo.extend(t.children())
    return out


def mentions(term, var):
    todo, seen = [term], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.eq(var):
            return True
        todo.extend(t.children())
    return False


def length_term(v):
    if isinstance(v, SList):
        return z3.Length(v.seq)
    if isinstance(v, LazyList):
        return v.n
    return z3.IntVal(len(v))


class ConcatList(LazyList):
    """Lists of different kinds, one after the other"""
    def __init__(self, parts, label='concatenation'):
        self.parts = parts
        self.label = label
        n = z3.IntVal(0)
        for p in parts:
            n = n + length_term(p)
        self.n = z3.simplify(n)


def index_list(interp, v, i):
    """Item at a valid non-negative index (python int or z3 term)"""
    i = z3.IntVal(i) if isinstance(i, int) else i
    if isinstance(v, ConcatList):
        for p in v.parts[:-1]:
            n = length_term(p)
            if interp.ctx.branch(i < n):
                return index_list(interp, p, i)
            i = z3.simplify(i - n)
        return index_list(interp, v.parts[-1], i)
    if isinstance(v, LazyList):
        return v.item(i)
    if isinstance(v, SList):
        term = z3.simplify(v.seq[i])
        return decode(interp, term, v)
    for k in range(len(v)):
        if interp.ctx.branch(i == k):
            return v[k]
    raise PathEnd('index')


def norm_index(interp, index, n):
    """Python index to a z3 term in 0..n-1, or None when out of range"""
    i = integer(index) if isinstance(index, (int, SInt, SBool)) else None
    if i is None:
        interp.raise_(TypeError, 'list indices must be integers or slices')
    i = z3.simplify(i)
    if interp.ctx.branch(i < 0):
        i = z3.simplify(i + n)
        if interp.ctx.branch(i < 0):
            return None
    if interp.ctx.branch(i >= n):
        return None
    return i


def clamp(interp, x, n, default):
    if x is None:
        return default
    x = z3.simplify(integer(x))
    if interp.ctx.branch(x < 0):
        x = z3.simplify(x + n)
        if interp.ctx.branch(x < 0):
            return z3.IntVal(0)
        return x
    if interp.ctx.branch(x > n):
        return n
    return x


def slice_bounds(interp, s, n):
    if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
        interp.unsupported('slice with a step on a list of unknown length')
    a = clamp(interp, s.start, n, z3.IntVal(0))
    b = clamp(interp, s.stop, n, n)
    if interp.ctx.branch(b < a):
        b = a
    return z3.simplify(a), z3.simplify(b)


def sub(seq, a, b):
    return z3.Extract(seq, a, z3.simplify(b - a))


def list_method(interp, target, name, args, kwargs):
    c = content(interp, target)
    if isinstance(c, (list, tuple)):
        return pylist_method(interp, target, c, name, args, kwargs)
    if hasattr(c, 'list_method'):
        return c.list_method(interp, target, name, args, kwargs)
    if isinstance(c, LazyList):
        return lazy_method(interp, target, c, name, args, kwargs)
    ctx = interp.ctx
    seq = c.seq
    n = z3.Length(seq)
    new = lambda s: SList(z3.simplify(s) if False else s, c.label, c.codec)
    if name in ('__len__',):
        return SInt(n)
    if name == '__getitem__':
        (index,) = args
        if isinstance(index, slice):
            a, b = slice_bounds(interp, index, n)
            return new(sub(seq, a, b))
        i = norm_index(interp, index, n)
        if i is None:
            interp.raise_(IndexError, 'list index out of range')
        return index_list(interp, c, i)
    if name == '__setitem__':
        index, value = args
        if isinstance(index, slice):
            a, b = slice_bounds(interp, index, n)
            items = seq_of(interp, interp.iterate(value), c.codec)
            if items is None:
                interp.unsupported('slice assignment of items on demand')
            set_content(interp, target, new(z3.Concat(sub(seq, z3.IntVal(0), a), items, sub(seq, b, n))))
            return None
        i = norm_index(interp, index, n)
        if i is None:
            interp.raise_(IndexError, 'list assignment index out of range')
        set_content(interp, target, new(z3.Concat(sub(seq, z3.IntVal(0), i), z3.Unit(encode(interp, value, c.codec)), sub(seq, i + 1, n))))
        return None
    if name == '__delitem__':
        (index,) = args
        if isinstance(index, slice):
            a, b = slice_bounds(interp, index, n)
            set_content(interp, target, new(z3.Concat(sub(seq, z3.IntVal(0), a), sub(seq, b, n))))
            return None
        i = norm_index(interp, index, n)
        if i is None:
            interp.raise_(IndexError, 'list assignment index out of range')
        set_content(interp, target, new(z3.Concat(sub(seq, z3.IntVal(0), i), sub(seq, i + 1, n))))
        return None
    if name == 'append':
        set_content(interp, target, new(z3.Concat(seq, z3.Unit(encode(interp, args[0], c.codec)))))
        return None
    if name in ('extend', '__iadd__'):
        items = seq_of(interp, interp.iterate(args[0]), c.codec)
        if items is None:
            interp.unsupported('extension by items on demand')
        set_content(interp, target, new(z3.Concat(seq, items)))
        return target if name == '__iadd__' else None
    if name == 'insert':
        i = clamp(interp, args[0], n, None)
        set_content(interp, target, new(z3.Concat(sub(seq, z3.IntVal(0), i), z3.Unit(encode(interp, args[1], c.codec)), sub(seq, i, n))))
        return None
    if name == 'pop':
        if ctx.branch(n == 0):
            interp.raise_(IndexError, 'pop from empty list')
        i = norm_index(interp, args[0] if args else -1, n)
        if i is None:
            interp.raise_(IndexError, 'pop index out of range')
        value = index_list(interp, c, i)
        set_content(interp, target, new(z3.Concat(sub(seq, z3.IntVal(0), i), sub(seq, i + 1, n))))
        return value
    if name in ('remove', 'index', '__contains__'):
        ctx.report.assumptions.add('list items compare by identity (==, in, index, remove)')
        unit = z3.Unit(encode(interp, args[0], c.codec))
        has = z3.Contains(seq, unit)
        if name == '__contains__':
            return SBool(has)
        if len(args) > 1:
            interp.unsupported('list.index with bounds')
        if not ctx.branch(has):
            interp.raise_(ValueError, 'list.remove(x): x not in list')
        i = z3.IndexOf(seq, unit, z3.IntVal(0))
        if name == 'index':
            return SInt(i)
        set_content(interp, target, new(z3.Concat(sub(seq, z3.IntVal(0), i), sub(seq, i + 1, n))))
        return None
    if name == 'count':
        ctx.report.assumptions.add('list items compare by identity (==, in, index, remove)')
        return SInt(z3.Function('count', seq.sort(), seq.sort().basis(), z3.IntSort())(seq, encode(interp, args[0], c.codec)))
    if name == 'clear':
        set_content(interp, target, new(z3.Empty(seq.sort())))
        return None
    if name == 'copy':
        return new(seq)
    if name == 'reverse' and not args:
        set_content(interp, target, new(z3.Function('reversed', seq.sort(), seq.sort())(seq)))
        return None
    if name == 'sort' and not args and set(kwargs) <= {'key'} and c.codec is None:
        # the order is a function of the items and the key; items may be refused
        key = interp.to_v(kwargs.get('key'))
        if not ctx.branch(z3.Function('sortable', seq.sort(), V, z3.BoolSort())(seq, key)):
            interp.raise_(TypeError, 'items which cannot be compared')
        set_content(interp, target, new(z3.Function('sorted', seq.sort(), V, seq.sort())(seq, key)))
        return None
    if name == '__add__':
        other = content(interp, args[0])
        if other is None:
            interp.raise_(TypeError, 'can only concatenate list to list')
        if getattr(other, 'codec', None) is not c.codec:
            return ConcatList([SList(seq, c.label, c.codec), SList(other.seq, other.label, other.codec) if isinstance(other, SList) else other])
        items = seq_of(interp, args[0], c.codec)
        if items is None:
            interp.unsupported('list + items on demand')
        return new(z3.Concat(seq, items))
    if name == '__iter__':
        return new(seq)
    if name == '__eq__':
        if seq_of(interp, args[0]) is None:
            return False
        return SBool(seq == seq_of(interp, args[0], c.codec))
    if name == '__ne__':
        return SBool(seq != seq_of(interp, args[0], c.codec))
    interp.unsupported('list.%s on a list of unknown length' % name)


def lazy_method(interp, target, c, name, args, kwargs):
    if name == '__len__':
        return SInt(c.n)
    if name == '__iter__':
        return c
    if name == '__getitem__' and not isinstance(args[0], slice):
        i = norm_index(interp, args[0], c.n)
        if i is None:
            interp.raise_(IndexError, 'list index out of range')
        return c.item(i)
    if name == '__getitem__':
        a, b = slice_bounds(interp, args[0], c.n)
        r = LazyList(z3.simplify(b - a), lambda j: c.item(z3.simplify(a + j)), c.label)
        root, at = getattr(c, 'part', (c, z3.IntVal(0)))
        r.part = (root, z3.simplify(at + a))
        return r
    interp.unsupported('list.%s on items computed on demand' % name)


def pylist_method(interp, target, c, name, args, kwargs):
    ctx = interp.ctx
    mutators = ('append', 'extend', 'insert', 'pop', 'remove', '__setitem__', '__delitem__', 'clear', 'reverse', 'sort', '__iadd__')
    if name in mutators:
        if type(target) is list and id(target) not in interp.fresh:
            interp.unsupported('change of a list which is not local')
        new = list(c)
        if name == 'append':
            new.append(args[0]); r = None
        elif name in ('extend', '__iadd__'):
            items = interp.iterate(args[0])
            if isinstance(items, (SList, LazyList)):
                s = seq_of(interp, items)
                if s is None or not isinstance(target, Obj):
                    if not c and isinstance(target, Obj) and isinstance(items, LazyList):
                        set_content(interp, target, items)
                        return None
                    interp.unsupported('extension of a local list by items of unknown number')
                set_content(interp, target, SList(z3.Concat(seq_of(interp, new), s), 'list', getattr(items, 'codec', None)))
                return target if name == '__iadd__' else None
            new.extend(items); r = target if name == '__iadd__' else None
        elif name == 'insert':
            if not isinstance(args[0], int):
                interp.unsupported('insert at a symbolic index')
            new.insert(args[0], args[1]); r = None
        elif name == 'pop':
            if args and is_sym(args[0]):
                interp.unsupported('pop at a symbolic index')
            try:
                r = new.pop(*args)
            except (IndexError, TypeError) as err:
                raise PyExc(type(err), err, err.args)
        elif name == 'remove':
            for i, x in enumerate(new):
                if interp.truth(interp.eq(x, args[0])):
                    del new[i]
                    break
            else:
                interp.raise_(ValueError, 'list.remove(x): x not in list')
            r = None
        elif name == '__setitem__':
            index, value = args
            if has_sym(index):
                if isinstance(index, slice):
                    interp.unsupported('slice assignment with symbolic bounds')
                i = norm_index(interp, index, z3.IntVal(len(new)))
                if i is None:
                    interp.raise_(IndexError, 'list assignment index out of range')
                for k in range(len(new)):
                    if ctx.branch(i == k):
                        index = k
                        break
            if isinstance(index, slice):
                items = interp.iterate(value)
                if isinstance(items, (SList, LazyList)):
                    s = seq_of(interp, items)
                    if s is None or not isinstance(target, Obj):
                        interp.unsupported('slice assignment of items of unknown number')
                    a, b, step = index.indices(len(new))
                    if step != 1:
                        interp.unsupported('slice step')
                    set_content(interp, target, SList(z3.Concat(seq_of(interp, new[:a]), s, seq_of(interp, new[max(a, b):])), 'list', getattr(items, 'codec', None)))
                    return None
                value = items
            try:
                new[index] = value
            except (IndexError, TypeError, ValueError) as err:
                raise PyExc(type(err), err, err.args)
            r = None
        elif name == '__delitem__':
            if has_sym(args[0]):
                interp.unsupported('deletion at a symbolic index')
            try:
                del new[args[0]]
            except (IndexError, TypeError) as err:
                raise PyExc(type(err), err, err.args)
            r = None
        elif name == 'clear':
            new = []; r = None
        elif name == 'reverse':
            new.reverse(); r = None
        else:
            if has_sym(new) or kwargs:
                interp.unsupported('sorting symbolic values')
            try:
                new.sort()
            except TypeError as err:
                raise PyExc(type(err), err, err.args)
            r = None
        set_content(interp, target, new)
        return r
    if name == '__len__':
        return len(c)
    if name == '__getitem__':
        index = args[0]
        if has_sym(index):
            if isinstance(index, slice):
                n = z3.IntVal(len(c))
                a, b = slice_bounds(interp, index, n)
                for i in range(len(c) + 1):
                    if ctx.branch(a == i):
                        for j in range(i, len(c) + 1):
                            if ctx.branch(b == j):
                                return interp.make(list(c[i:j])) if isinstance(c, list) else c[i:j]
                raise PathEnd('slice')
            i = norm_index(interp, index, z3.IntVal(len(c)))
            if i is None:
                interp.raise_(IndexError, 'list index out of range')
            return index_list(interp, c, i)
        try:
            r = c[index]
        except (IndexError, TypeError) as err:
            raise PyExc(type(err), err, err.args)
        return interp.make(r) if isinstance(r, list) else r
    if name == '__iter__':
        return list(c)
    if name in ('index', 'count', '__contains__'):
        if name == 'count':
            total = 0
            for x in c:
                if interp.truth(interp.eq(x, args[0])):
                    total += 1
            return total
        for i, x in enumerate(c):
            if interp.truth(interp.eq(x, args[0])):
                return i if name == 'index' else True
        if name == '__contains__':
            return False
        interp.raise_(ValueError, 'not in list')
    if name == 'copy':
        return interp.make(list(c))
    if name == '__add__':
        other = content(interp, args[0])
        if other is None:
            interp.raise_(TypeError, 'can only concatenate list to list')
        if isinstance(other, (list, tuple)):
            if isinstance(other, tuple) != isinstance(c, tuple):
                interp.raise_(TypeError, 'can only concatenate list (not "tuple") to list')
            return interp.make(list(c) + list(other)) if isinstance(c, list) else c + other
        if getattr(other, 'codec', None) is not None:
            return ConcatList([list(c), SList(other.seq, other.label, other.codec)])
        s = seq_of(interp, other)
        if s is None:
            interp.unsupported('list + items on demand')
        return SList(z3.Concat(seq_of(interp, c), s), 'list', getattr(other, 'codec', None))
    if name in ('__eq__', '__ne__'):
        other = content(interp, args[0])
        if other is None:
            r = False
        elif isinstance(other, (SList, LazyList)):
            r = interp.list_eq(c, other)
        else:
            r = interp.eq(list(c), list(other))
        if name == '__ne__':
            return SBool(z3.Not(r.z)) if isinstance(r, SBool) else not r
        return r
    if name in ('__mul__', '__rmul__') and isinstance(args[0], int):
        return interp.make(list(c) * args[0])
    if name in ('__lt__', '__le__', '__gt__', '__ge__') and not has_sym(c) and not has_sym(args[0]):
        return interp.native(getattr(operator, name), [list(c), args[0]], {})
    if name == '__repr__' or name == '__str__':
        return opaque_text(interp) if has_sym(c) else repr(c)
    interp.unsupported('list.%s' % name)


def tuple_method(interp, target, name, args, kwargs):
    return pylist_method(interp, target, target, name, args, kwargs)


def pydict_method(interp, d, name, args, kwargs):
    """A python dict, with possibly symbolic arguments"""
    writes = ('__setitem__', '__delitem__', 'pop', 'setdefault', 'update', 'clear')
    if name in writes and id(d) not in interp.fresh:
        interp.unsupported('change of a dictionary which is not local')
    if name in ('__setitem__', '__delitem__', 'pop', 'setdefault', 'get', '__getitem__', '__contains__'):
        key = args[0]
        found, where = ABSENT, key
        if has_sym(key) or has_sym(list(d.keys())):
            if len(d) > 400:
                interp.unsupported('symbolic key in a large dictionary')
            if isinstance(key, SStr) and len(d) > 12 and all(isinstance(k, str) for k in d):
                # one path per key, and one for their absence
                ctx = interp.ctx
                z = z3.simplify(string(key))
                k = ctx.only_value(z)
                k = ctx.choose([ABSENT] + list(d)) if k is None else k if k in d else ABSENT
                if k is ABSENT:
                    ctx.assume(z3.And(*[z != z3.StringVal(x) for x in d]))
                else:
                    ctx.assume(z == z3.StringVal(k))
                    found, where = d[k], k
                candidates = ()
            else:
                candidates = d
            for k in candidates:
                if interp.key_eq(k, key):
                    found, where = d[k], k
                    break
        else:
            try:
                found = d.get(key, ABSENT)
            except TypeError as err:
                raise PyExc(TypeError, err, err.args)
        if name == 'get':
            return (args[1] if len(args) > 1 else None) if found is ABSENT else found
        if name == '__contains__':
            return found is not ABSENT
        if name == '__getitem__':
            if found is ABSENT:
                interp.raise_(KeyError, key)
            return found
        interp.ctx.trace.append(('w', d, key, args[1] if len(args) > 1 else ABSENT))
        if name == '__setitem__':
            d[where] = args[1]
            return None
        if name == 'setdefault':
            if found is ABSENT:
                d[where] = found = args[1] if len(args) > 1 else None
            return found
        if found is ABSENT:
            if name == 'pop' and len(args) > 1:
                return args[1]
            interp.raise_(KeyError, key)
        del d[where]
        return found if name == 'pop' else None
    if name == 'update':
        for a in args:
            if isinstance(a, SDict):
                pairs = interp.dict_entries(a)
            elif isinstance(a, dict):
                pairs = list(a.items())
            else:
                pairs = [tuple(interp.iterate_finite(x)) for x in interp.iterate_finite(a)]
            for k, v in pairs:
                pydict_method(interp, d, '__setitem__', [k, v], {})
        for k, v in kwargs.items():
            d[k] = v
        return None
    if name in ('keys', 'values', 'items'):
        return interp.make(list(getattr(d, name)()))
    if name == 'copy':
        return interp.make(dict(d))
    if name == 'clear':
        d.clear()
        return None
    if name == '__len__':
        return len(d)
    if name == '__iter__':
        return list(d)
    interp.unsupported('dict.%s' % name)


def make_set(interp, items):
    if has_sym(items):
        out = []
        for x in items:
            if not any(interp.truth(interp.eq(x, y)) for y in out):
                out.append(x)
        o = Obj(SymSet, SDict(), 'set', z3.Const(interp.ctx.name('set'), V))
        o.items = out
        return o
    return interp.make(set(items))


class SymSet(object):
    """Stand-in class of sets with symbolic members"""


def pyset_method(interp, s, name, args, kwargs):
    if name in ('add', 'remove', 'discard', 'update', 'clear', 'pop') and id(s) not in interp.fresh:
        interp.unsupported('change of a set which is not local')
    if has_sym(args):
        interp.unsupported('set.%s of symbolic values' % name)
    return interp.native(getattr(set, name), [s] + args, kwargs)


# ---------------------------------------------------------------- strings
def opaque_text(interp):
    return SStr(z3.String(interp.ctx.name('fmt')))


def text_of(interp, v):
    """str(v) as a value"""
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, Obj):
        m, owner = mro_lookup(v.cls, '__str__')
        if owner is not None and is_repo_class(owner):
            return interp.call(Bound_(m, v), [], {})
        m, owner = mro_lookup(v.cls, '__repr__')
        if owner is not None and is_repo_class(owner):
            return interp.call(Bound_(m, v), [], {})
        return opaque_text(interp)
    if isinstance(v, Sym) and ('text', None) in interp.class_contracts:
        return interp.class_contracts['text', None](interp, v)
    if has_sym(v):
        return opaque_text(interp)
    return interp.native(str, [v], {})


def Bound_(m, v):
    return Bound(m, v)


def format_percent(interp, fmt, args):
    symbolic = has_sym(args) or isinstance(fmt, SStr) or not isinstance(args, (tuple, str, int, float, type(None)))
    if not symbolic or (not has_sym(args) and isinstance(fmt, (str, bytes))):
        try:
            return fmt % args
        except (Unsupported, PathEnd, PyExc):
            raise
        except Exception as err:
            raise PyExc(type(err), err, err.args)
    if isinstance(fmt, SStr):
        if ('format', None) in interp.class_contracts:
            return interp.class_contracts['format', None](interp, fmt, args)
        return opaque_text(interp)
    import re
    if isinstance(args, dict):
        out, at = [], 0
        for m in re.finditer(r'%(?:\(([^)]*)\))?([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])', fmt):
            if m.start() > at:
                out.append(fmt[at:m.start()])
            at = m.end()
            if m.group(3) == '%':
                out.append('%')
            elif m.group(1) is None:
                interp.unsupported('format of a dictionary')
            else:
                v = pydict_method(interp, args, '__getitem__', [m.group(1)], {})
                out.append(format_percent(interp, '%' + m.group(2) + m.group(3), (v,)))
        if at < len(fmt):
            out.append(fmt[at:])
        if all(isinstance(p, str) for p in out):
            return ''.join(out)
        return SStr(z3.Concat(*[string(p) for p in out])) if len(out) > 1 else out[0]
    items = list(args) if isinstance(args, tuple) else [args]
    parts = re.split(r'(%[-#0 +]*\d*(?:\.\d+)?[a-zA-Z%])', fmt)
    out = []
    for p in parts:
        if not p.startswith('%') or len(p) < 2:
            if p:
                out.append(p)
            continue
        if p == '%%':
            out.append('%')
            continue
        if not items:
            interp.raise_(TypeError, 'not enough arguments for format string')
        v = items.pop(0)
        if p == '%s':
            t = text_of_quiet(interp, v)
            out.append(t)
        elif not has_sym(v):
            try:
                out.append(p % v)
            except TypeError as err:
                raise PyExc(TypeError, err, err.args)
        else:
            out.append(opaque_text(interp))
    if items:
        interp.raise_(TypeError, 'not all arguments converted during string formatting')
    if all(isinstance(p, str) for p in out):
        return ''.join(out)
    return SStr(z3.Concat(*[string(p) for p in out])) if len(out) > 1 else out[0]


def text_of_quiet(interp, v):
    """%s of a value; the text of objects is opaque and taken to have no effect"""
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, Sym) and ('text', None) in interp.class_contracts:
        return interp.class_contracts['text', None](interp, v)
    if not has_sym(v):
        try:
            return str(v)
        except Exception as err:
            raise PyExc(type(err), err, err.args)
    return opaque_text(interp)


def str_method(interp, s, name, args, kwargs):
    z = string(s)
    ctx = interp.ctx
    if ('word', None) in interp.class_contracts:
        r = interp.class_contracts['word', None](interp, name, s, *args)
        if r is not NotImplemented:
            return r
    if name == '__len__':
        return SInt(z3.Length(z))
    if name == '__getitem__':
        n = z3.Length(z)
        if isinstance(args[0], slice):
            a, b = slice_bounds(interp, args[0], n)
            return SStr(z3.simplify(z3.SubString(z, a, b - a)))
        i = norm_index(interp, args[0], n)
        if i is None:
            interp.raise_(IndexError, 'string index out of range')
        return SStr(z3.SubString(z, i, 1))
    if name in ('startswith', 'endswith'):
        opts = args[0] if isinstance(args[0], tuple) else (args[0],)
        fn = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
        return SBool(z3.Or(*[fn(string(o), z) for o in opts]))
    if name in ('__eq__',):
        return interp.compare_bool(interp.eq(s, args[0]))
    if name == '__contains__':
        return SBool(z3.Contains(z, string(args[0])))
    if name == '__add__':
        return SStr(z3.Concat(z, string(args[0])))
    if name == 'join':
        handler = interp.class_contracts.get(('str', 'join'))
        if handler:
            v = interp.iterate(args[0])
            if isinstance(v, (SList, LazyList)):
                return handler(interp, s, [v], kwargs)
            args = [v]
        parts = interp.iterate_finite(args[0])
        out = []
        for i, p in enumerate(parts):
            if i:
                out.append(s)
            if not isinstance(p, (str, SStr)):
                if isinstance(p, SAny) and p.cls is None:
                    interp.unsupported('join of opaque values')
                interp.raise_(TypeError, 'sequence item: expected str instance')
            out.append(p)
        if not out:
            return ''
        if all(isinstance(p, str) for p in out):
            return ''.join(out)
        return SStr(z3.Concat(*[string(p) for p in out])) if len(out) > 1 else out[0]
    if name in ('lower', 'upper', 'strip') and not args and ('str', name) not in interp.class_contracts:
        f = z3.Function('str_' + name, z3.StringSort(), z3.StringSort())
        return SStr(f(z))
    if name == '__str__':
        return s
    if name == 'replace' and len(args) == 2 and False:
        pass
    handler = interp.class_contracts.get(('str', name))
    if handler:
        return handler(interp, s, args, kwargs)
    interp.unsupported('str.%s of an unknown string' % name)


# ---------------------------------------------------------------- objects
def new_instance(interp, cls):
    ctx = interp.ctx
    o = Obj(cls, SDict(False, cls.__name__ + '.__dict__'), cls.__name__, z3.Const(ctx.name('new_' + cls.__name__), V))
    ctx.distinct(o)
    o.fresh = True
    o.d.fresh = True
    if issubclass(cls, list):
        o.payload = interp.make([])
    elif issubclass(cls, dict):
        o.payload = SDict(False, cls.__name__)
    elif issubclass(cls, (tuple, str, int, float)):
        interp.unsupported('new instance of %s' % cls.__name__)
    return o


def container_init(interp, obj, args, kwargs):
    if isinstance(obj.payload, SDict):
        interp.dict_method(obj.payload, 'update', args, kwargs)
        return
    if args:
        items = interp.iterate(args[0])
        if isinstance(items, SList):
            obj.payload = SList(items.seq, items.label, items.codec)
        elif isinstance(items, LazyList):
            handler = interp.class_contracts.get(('content', obj.cls))
            obj.payload = handler(interp, items) if handler else items
        else:
            handler = interp.class_contracts.get(('content', obj.cls))
            obj.payload = handler(interp, items) if handler else interp.make(list(items))


def object_method(interp, obj, name, args, kwargs):
    if name == '__init__':
        if obj.payload is not None:
            container_init(interp, obj, args, kwargs)
        return None
    if name == '__eq__':
        r = interp.is_(obj, args[0])
        return r if isinstance(r, bool) else SBool(r)
    if name == '__ne__':
        r = interp.is_(obj, args[0])
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r))
    if name == '__hash__':
        return SInt(z3.Function('hash', V, z3.IntSort())(obj.ref))
    if name == '__setattr__':
        interp.dict_store(obj.d, args[0], args[1])
        return None
    if name in ('__repr__', '__str__'):
        return opaque_text(interp)
    interp.unsupported('object.%s' % name)


# ---------------------------------------------------------------- builtin classes
def c_list(interp, args, kwargs):
    if not args:
        return interp.make([])
    it = interp.iterate(args[0])
    if isinstance(it, SList):
        return SList(it.seq, it.label, it.codec)
    if hasattr(it, 'copy_list'):
        return it.copy_list(interp)
    if isinstance(it, LazyList):
        return it
    return interp.make(list(it))


def c_tuple(interp, args, kwargs):
    if not args:
        return ()
    it = interp.iterate(args[0])
    if isinstance(it, (SList, LazyList)):
        return it
    return tuple(it)


def c_dict(interp, args, kwargs):
    if len(args) == 1 and not kwargs and hasattr(args[0], 'as_dict'):
        return args[0].as_dict(interp)
    if len(args) == 1 and not kwargs and isinstance(args[0], SDict) and hasattr(args[0], 'method'):
        return args[0].method(interp, 'copy', [], {})
    d = SDict(False, 'dict')
    interp.dict_method(d, 'update', args, kwargs)
    interp.ctx.trace[:] = [t for t in interp.ctx.trace if not (t[0] == 'w' and t[1] is d)]
    return d


def c_set(interp, args, kwargs):
    if not args:
        return interp.make(set())
    v = interp.iterate(args[0])
    if isinstance(v, (SList, LazyList)):
        o = Obj(SymSet, SDict(), 'set', z3.Const(interp.ctx.name('set'), V))
        o.items = v.copy_list(interp) if hasattr(v, 'copy_list') else SList(v.seq, v.label, v.codec) if isinstance(v, SList) else v
        return o
    return make_set(interp, v)


def c_str(interp, args, kwargs):
    if not args:
        return ''
    if len(args) > 1:
        return interp.native(str, args, kwargs)
    return text_of(interp, args[0])


def c_bool(interp, args, kwargs):
    if not args:
        return False
    v = args[0]
    if isinstance(v, SBool):
        return v
    if isinstance(v, (SInt, SReal)):
        return SBool(v.z != 0)
    return interp.truth(v)


def c_float(interp, args, kwargs):
    v = args[0] if args else 0.0
    if isinstance(v, SReal):
        return v
    if isinstance(v, (SInt, SBool)):
        return SReal(real(v))
    if isinstance(v, SStr):
        handler = interp.class_contracts.get(('float', str))
        if handler:
            return handler(interp, v)
    if isinstance(v, SAny):
        handler = interp.class_contracts.get(('float', None))
        if handler:
            return handler(interp, v)
    if isinstance(v, (SList, LazyList)):
        interp.raise_(TypeError, 'float() argument must be a string or a number')
    if is_sym(v):
        interp.unsupported('float of %r' % v)
    return interp.native(float, args, kwargs)


def c_int(interp, args, kwargs):
    v = args[0] if args else 0
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(integer(v))
    if isinstance(v, SReal):
        # truncation towards zero
        return SInt(z3.simplify(z3.If(v.z >= 0, z3.ToInt(v.z), -z3.ToInt(-v.z))))
    for key in ((SStr, str), (SAny, None)):
        if isinstance(v, key[0]):
            handler = interp.class_contracts.get(('int', key[1]))
            if handler:
                return handler(interp, v, *args[1:])
    if isinstance(v, (SList, LazyList)):
        interp.raise_(TypeError, 'int() argument must be a string or a number')
    if is_sym(v):
        interp.unsupported('int of %r' % v)
    return interp.native(int, args, kwargs)


def c_range(interp, args, kwargs):
    if not has_sym(args):
        return range(*args)
    if len(args) == 1:
        lo, hi, step = z3.IntVal(0), integer(args[0]), 1
    elif len(args) == 2:
        lo, hi, step = integer(args[0]), integer(args[1]), 1
    else:
        lo, hi, step = integer(args[0]), integer(args[1]), args[2]
    if step == 1:
        n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        return LazyList(n, lambda i: SInt(z3.simplify(lo + i)), 'range')
    if step == -1:
        n = z3.simplify(z3.If(lo > hi, lo - hi, z3.IntVal(0)))
        return LazyList(n, lambda i: SInt(z3.simplify(lo - i)), 'range')
    interp.unsupported('range with step')


def c_type(interp, args, kwargs):
    if len(args) == 1:
        if isinstance(args[0], SAny) and args[0].cls is None:
            return interp.ctx.any('type')
        return interp.pytype(args[0])
    handler = interp.class_contracts.get(('type', None))
    if handler and not kwargs and len(args) == 3:
        return handler(interp, args)
    interp.unsupported('creation of a class')


def c_weakref(interp, args, kwargs):
    target = args[0]
    if isinstance(target, (SInt, SReal, SStr, SBool)) or target is None or isinstance(target, (int, str, tuple, float)) or type(target) in (list, dict):
        interp.raise_(TypeError, 'cannot create weak reference')
    return WeakRef(target, args[1] if len(args) > 1 else None)


def c_super(interp, args, kwargs):
    return Super(args[0], args[1])


def c_map(interp, args, kwargs):
    f = args[0]
    seqs = [interp.iterate(a) for a in args[1:]]
    if len(seqs) == 1 and isinstance(seqs[0], (SList, LazyList)):
        s = seqs[0]
        if isinstance(s, ConcatList):
            return ConcatList([c_map(interp, [f, p], {}) for p in s.parts], 'map')
        if isinstance(s, SList):
            s = SList(s.seq, s.label, s.codec)
        r = LazyList(length_term(s), lambda i: interp.call(f, [index_list(interp, s, i)], {}), 'map')
        r.source = s
        return r
    if any(isinstance(s, (SList, LazyList)) for s in seqs):
        interp.unsupported('map over lists of unknown length')
    return interp.make([interp.call(f, list(xs), {}) for xs in zip(*seqs)])


def c_zip(interp, args, kwargs):
    seqs = [interp.iterate(a) for a in args]
    if any(isinstance(s, (SList, LazyList)) for s in seqs):
        n = None
        for s in seqs:
            l = length_term(s)
            n = l if n is None else z3.If(l < n, l, n)
        return LazyList(z3.simplify(n), lambda i: tuple(index_list(interp, s, i) for s in seqs), 'zip')
    return interp.make(list(zip(*seqs)))


def c_enumerate(interp, args, kwargs):
    s = interp.iterate(args[0])
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    if isinstance(s, (SList, LazyList)):
        return LazyList(length_term(s), lambda i: (SInt(z3.simplify(i + start)), index_list(interp, s, i)), 'enumerate')
    return interp.make(list(enumerate(s, start)))


def c_reversed(interp, args, kwargs):
    s = interp.iterate(args[0])
    if hasattr(s, 'reversed_list'):
        return s.reversed_list()
    if isinstance(s, (SList, LazyList)):
        n = length_term(s)
        return LazyList(n, lambda i: index_list(interp, s, z3.simplify(n - 1 - i)), 'reversed')
    return interp.make(list(reversed(s)))


def c_slice(interp, args, kwargs):
    return slice(*args)


CLASSES = {
    list: c_list, tuple: c_tuple, dict: c_dict, set: c_set, str: c_str, bool: c_bool, float: c_float,
    int: c_int, range: c_range, type: c_type, weakref.ref: c_weakref, super: c_super, map: c_map, zip: c_zip,
    enumerate: c_enumerate, reversed: c_reversed, slice: c_slice,
}


# ---------------------------------------------------------------- builtin functions
def b_len(interp, args, kwargs):
    return interp.len_(args[0])


def b_isinstance(interp, args, kwargs):
    r = interp.isinstance_(args[0], args[1])
    return r if isinstance(r, bool) else SBool(r)


def b_issubclass(interp, args, kwargs):
    if is_sym(args[0]):
        interp.unsupported('issubclass of an opaque class')
    return interp.native(issubclass, args, kwargs)


def b_hasattr(interp, args, kwargs):
    v, name = args
    if name == '__call__':
        return b_callable(interp, [v], {})
    if isinstance(v, SAny) and v.cls is None:
        handler = interp.class_contracts.get(('hasattr', name))
        if handler:
            return handler(interp, v)
        return SBool(z3.Function('hasattr_%s' % name, V, z3.BoolSort())(v.z))
    try:
        interp.get_attr(v, name)
        return True
    except PyExc as err:
        if issubclass(err.cls, AttributeError):
            return False
        raise


def b_getattr(interp, args, kwargs):
    if isinstance(args[1], SStr):
        handler = interp.class_contracts.get(('getattr', None))
        if handler:
            return handler(interp, *args)
        interp.unsupported('getattr of a symbolic name')
    if len(args) > 2:
        return interp.get_attr(args[0], args[1], args[2])
    return interp.get_attr(args[0], args[1])


def b_setattr(interp, args, kwargs):
    if isinstance(args[1], SStr) and isinstance(args[0], Obj):
        interp.dict_store(args[0].d, args[1], args[2])
        return None
    handler = interp.class_contracts.get(('setattr', None))
    if handler and isinstance(args[1], SStr):
        handler(interp, *args)
        return None
    interp.set_attr(args[0], args[1], args[2])


def b_delattr(interp, args, kwargs):
    interp.del_attr(args[0], args[1])


def b_callable(interp, args, kwargs):
    v = args[0]
    if isinstance(v, Obj):
        return mro_lookup(v.cls, '__call__')[0] is not ABSENT
    if isinstance(v, (Func, Bound, Model, WeakRef)):
        return True
    if isinstance(v, SAny) and v.cls is not None:
        return mro_lookup(v.cls, '__call__')[0] is not ABSENT
    if isinstance(v, SAny):
        return SBool(z3.Function('callable', V, z3.BoolSort())(v.z))
    return callable(v)


def b_id(interp, args, kwargs):
    v = args[0]
    reused = interp.ctx.__dict__.get('_id_of', {}).get(id(v))
    if reused:
        return reused[1]
    if isinstance(v, (Obj, SAny)):
        f = z3.Function('id', V, z3.IntSort())
        t = f(interp.to_v(v))
        ids = interp.ctx.__dict__.setdefault('_ids', [])
        for ref, other in ids:
            if not z3.eq(ref, interp.to_v(v)):
                interp.ctx.assume((other == t) == (ref == interp.to_v(v)), check=False)
        ids.append((interp.to_v(v), t))
        return SInt(t)
    return id(v)


def b_iter(interp, args, kwargs):
    return interp.iterate(args[0])


def b_any(interp, args, kwargs):
    it = interp.iterate(args[0])
    if isinstance(it, (SList, LazyList)):
        interp.unsupported('any() over unknown number of items')
    for x in it:
        if interp.truth(x):
            return True
    return False


def b_all(interp, args, kwargs):
    it = interp.iterate(args[0])
    if isinstance(it, (SList, LazyList)):
        from . import loops
        return loops.for_all(interp, it)
    for x in it:
        if not interp.truth(x):
            return False
    return True


def b_sum(interp, args, kwargs):
    acc = args[1] if len(args) > 1 else 0
    import ast
    for x in interp.iterate_finite(args[0]):
        acc = interp.binop(ast.Add(), acc, x)
    return acc


def _extreme(sign):
    def f(interp, args, kwargs):
        if kwargs:
            if has_sym(args):
                interp.unsupported('min/max with key')
            return interp.native(min if sign < 0 else max, args, kwargs)
        items = interp.iterate_finite(args[0]) if len(args) == 1 else args
        if not has_sym(list(items)):
            return interp.native(min if sign < 0 else max, list(args), {})
        best = items[0]
        for x in items[1:]:
            if sign < 0:
                c = _lt(interp, x, best)
            else:
                c = _lt(interp, best, x)
            if interp.truth(c):
                best = x
        return best
    return f


def _lt(interp, a, b):
    import ast
    return interp.compare(ast.Lt(), a, b)


def b_abs(interp, args, kwargs):
    if isinstance(args[0], Num):
        return abs(args[0])
    return interp.native(abs, args, kwargs)


def b_repr(interp, args, kwargs):
    if has_sym(args[0]):
        return opaque_text(interp)
    return interp.native(repr, args, kwargs)


def b_print(interp, args, kwargs):
    return None


def b_sorted(interp, args, kwargs):
    if hasattr(args[0], 'list_method'):
        return args[0].list_method(interp, args[0], 'sorted', args[1:], kwargs)
    items = interp.iterate_finite(args[0])
    if has_sym(list(items)) and len(items) > 1:
        interp.unsupported('sorting symbolic values')
    return interp.native(sorted, [items], kwargs)


def b_next(interp, args, kwargs):
    interp.unsupported('next()')


def b_hash(interp, args, kwargs):
    if is_sym(args[0]):
        if isinstance(args[0], Obj):
            return interp.call(interp.get_attr(args[0], '__hash__'), [], {})
        interp.unsupported('hash')
    return interp.native(hash, args, kwargs)


def b_filter(interp, args, kwargs):
    f, seq = args
    out = []
    for x in interp.iterate_finite(seq):
        if interp.truth(interp.call(f, [x], {}) if f is not None else x):
            out.append(x)
    return interp.make(out)


def b_round(interp, args, kwargs):
    if has_sym(args):
        interp.unsupported('round')
    return interp.native(round, args, kwargs)


def m_robust(interp, args, kwargs):
    """robustApply calls the receiver once with the arguments it accepts"""
    receiver, rest = args[0], args[1:]
    interp.ctx.trace.append(('call', receiver, tuple(rest), dict(kwargs)))
    if isinstance(receiver, (SAny, Model)):
        if isinstance(receiver, Model):
            return receiver.fn(interp, list(rest), kwargs)
        return interp.ctx.any('result')
    f = receiver.func if isinstance(receiver, Bound) else getattr(receiver, '__func__', receiver)
    if isinstance(f, types.FunctionType):
        code = f.__code__
        if not code.co_flags & 8:
            names = code.co_varnames[1 if not isinstance(receiver, types.FunctionType) else 0:code.co_argcount]
            kwargs = {k: v for k, v in kwargs.items() if k in names}
    return interp.call(receiver, list(rest), kwargs)


def m_send(interp, args, kwargs):
    """dispatcher.send(signal, sender, *args, **named): recorded, in order"""
    args = list(args)
    kwargs = dict(kwargs)
    signal = args.pop(0) if args else kwargs.pop('signal', None)
    sender = args.pop(0) if args else kwargs.pop('sender', None)
    interp.ctx.trace.append(('send', signal, sender, tuple(args), kwargs))
    hook = interp.class_contracts.get(('send', None))
    if hook:
        hook(interp, signal, sender, args, kwargs)
    return interp.make([])


def m_connect(interp, args, kwargs):
    args = list(args)
    names = ['receiver', 'signal', 'sender', 'weak']
    got = dict(zip(names, args))
    got.update(kwargs)
    interp.ctx.trace.append(('connect', got.get('receiver'), got.get('signal'), got.get('sender'), got.get('weak', True)))
    return None


def m_array(interp, args, kwargs):
    """numpy.array / asarray of symbolic numbers: reals without rounding"""
    import numpy
    value = args[0]
    if isinstance(value, (SList, LazyList, SAny, Obj, SDict)):
        handler = interp.class_contracts.get(('array', None))
        if handler:
            return handler(interp, args, kwargs)
        interp.unsupported('array of %r' % value)
    if has_sym(value):
        r = numpy.array(value, dtype=object)
    elif isinstance(value, numpy.ndarray) and value.dtype == object:
        r = numpy.array(value, dtype=object)
    else:
        r = interp.native(numpy.array, args, kwargs)
    interp.ctx.report.assumptions.add('machine floats are real numbers: no rounding, overflow or NaN')
    return interp.make(r)


def m_sqrt(interp, args, kwargs):
    v = args[0]
    if isinstance(v, Num):
        return (v if isinstance(v, SReal) else SReal(real(v))).sqrt()
    return interp.native(math.sqrt, args, kwargs)


def m_trig(name):
    def f(interp, args, kwargs):
        import numpy
        v = args[0]
        if isinstance(v, Num):
            return getattr(v, name)()
        return interp.native(getattr(numpy, name), args, kwargs)
    return f


PURE_BUILTINS = [len, repr, abs, min, max, sum, sorted, isinstance, issubclass, callable, id, hash, ord, chr, round,
                 divmod, any, all, hasattr, format, bin, hex, oct, pow, iter, ascii]
PURE_MODULES = ('numpy', 'math', 're', '_sre', 'operator', '_operator', 'itertools', 'string', 'codecs', '_codecs', 'struct', '_struct', 'copy')


def native_allowed(interp, f, args, kwargs):
    if isinstance(f, type):
        if f in (int, float, str, bool, bytes, bytearray, complex, list, tuple, dict, set, frozenset, slice, object):
            return True
        if getattr(f, '__module__', '').startswith('numpy'):
            return True
        return False
    try:
        if f in PURE_BUILTINS:
            return True
    except Exception:
        pass
    slf = getattr(f, '__self__', None)
    name = getattr(f, '__name__', '')
    if slf is not None and not isinstance(slf, types.ModuleType):
        if isinstance(slf, (str, bytes, int, float, tuple, frozenset, complex)):
            return True
        if isinstance(slf, (list, dict, set, bytearray)):
            if id(slf) in interp.fresh:
                return True
            return name in ('get', 'keys', 'values', 'items', 'index', 'count', 'copy', '__contains__', '__getitem__',
                            '__len__', '__iter__', 'union', 'intersection', 'difference', 'issubset')
        if isinstance(slf, types.MappingProxyType):
            return not args or isinstance(args[0], str)
        if type(slf).__module__.startswith('numpy'):
            return name not in ('resize', 'sort', 'fill', 'setflags', 'itemset', 'put', 'partition') or id(slf) in interp.fresh
        if type(slf).__module__ in ('re', '_sre'):
            return True
        if isinstance(slf, type):
            if slf in (str, int, float, bytes, dict) or getattr(slf, '__module__', '').startswith('numpy'):
                return True
        return False
    mod = getattr(f, '__module__', None) or ''
    if type(f).__name__ == 'ufunc':
        return 'out' not in kwargs
    if mod.split('.')[0] in PURE_MODULES or mod in PURE_MODULES:
        if mod in ('operator', '_operator') and name in ('setitem', 'delitem', 'iadd'):
            return id(args[0]) in interp.fresh
        if name in ('copyto', 'put', 'place', 'putmask'):
            return False
        if mod == 'copy':
            return name == 'copy' and not is_sym(args[0])
        return True
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        owner = f.__objclass__
        if owner in (str, bytes, int, float, tuple, object, frozenset):
            return True
        if owner in (list, dict, set):
            return id(args[0]) in interp.fresh or name in ('__contains__', '__getitem__', '__len__', 'get', 'index', 'count', '__repr__', '__eq__', '__iter__', 'copy', 'keys', 'values', 'items')
        return owner.__module__.startswith('numpy')
    if isinstance(f, types.MethodWrapperType):
        return name in ('__eq__', '__ne__', '__lt__', '__gt__', '__le__', '__ge__', '__str__', '__repr__', '__len__', '__getitem__', '__contains__', '__iter__', '__add__', '__hash__')
    return False


def install(interp):
    from pydispatch import dispatcher, robustapply
    table = {
        len: b_len, isinstance: b_isinstance, issubclass: b_issubclass, hasattr: b_hasattr, getattr: b_getattr,
        setattr: b_setattr, delattr: b_delattr, callable: b_callable, id: b_id, iter: b_iter, any: b_any, all: b_all,
        sum: b_sum, min: _extreme(-1), max: _extreme(1), abs: b_abs, repr: b_repr, print: b_print, sorted: b_sorted,
        next: b_next, hash: b_hash, filter: b_filter, round: b_round,
    }
    for f, h in table.items():
        interp.contract(f, h, 'builtin ' + getattr(f, '__name__', '?'))
    interp.contract(dispatcher.send, m_send, 'pydispatch.dispatcher.send')
    interp.contract(dispatcher.connect, m_connect, 'pydispatch.dispatcher.connect')
    interp.contract(robustapply.robustApply, m_robust, 'pydispatch.robustapply.robustApply')
    import numpy, traceback
    interp.contract(numpy.array, m_array, 'numpy.array')
    interp.contract(numpy.asarray, m_array, 'numpy.asarray')
    interp.contract(math.sqrt, m_sqrt, 'math.sqrt')
    for name in ('cos', 'sin', 'tan'):
        interp.contract(getattr(numpy, name), m_trig(name), 'numpy.' + name)
        interp.contract(getattr(math, name), m_trig(name), 'math.' + name)
    interp.contract(traceback.print_exc, b_print, 'traceback.print_exc')
