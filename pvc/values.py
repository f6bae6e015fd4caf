"""Symbolic values and the heap model"""
import z3
from fractions import Fraction

V = z3.DeclareSort('V')          # opaque Python objects, by identity
SeqV = z3.SeqSort(V)
Truthy = z3.Function('truthy', V, z3.BoolSort())


CURRENT = []        # the Ctx of the path being executed (for native operators)


class Sym(object):
    """Base of scalar symbolic values; z is the z3 term"""
    __slots__ = ('z',)
    pytype = None
    def __init__(self, z):
        self.z = z
    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self.z)


def _num(op, a, b):
    """Arithmetic of symbolic numbers; a, b are SInt/SReal/SBool or numbers"""
    if not is_number(a) or not is_number(b):
        return NotImplemented
    both_int = is_integral(a) and is_integral(b)
    if op == '/':
        x, y = real(a), real(b)
        if CURRENT[-1].branch(y == 0):
            raise ZeroDivisionError('division by zero')
        return SReal(z3.simplify(x / y))
    if op == '**':
        if not isinstance(b, Sym):
            if b == 0.5:
                return (a if isinstance(a, SReal) else SReal(real(a))).sqrt()
            if int(b) == b and 0 <= b <= 4:
                r = 1
                for i in range(int(b)):
                    r = a * r
                return r
        return NotImplemented
    if op in ('%', '//'):
        if both_int:
            x, y = integer(a), integer(b)
            if not isinstance(b, Sym) and b > 0:
                # z3 div/mod are Euclidean: the same as Python's for b > 0
                return SInt(x % y) if op == '%' else SInt(x / y)
            raise TypeError('symbolic modulus by a symbolic or negative divisor')
        if op == '%' and not isinstance(b, Sym) and b > 0:
            return CURRENT[-1].fmod(a, b)
        return NotImplemented
    x, y = (integer(a), integer(b)) if both_int else (real(a), real(b))
    z = x + y if op == '+' else x - y if op == '-' else x * y
    z = z3.simplify(z)
    return SInt(z) if both_int else SReal(z)


def _cmp(op, a, b):
    if isinstance(a, SStr) or isinstance(b, SStr):
        if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
            return NotImplemented
        x, y = string(a), string(b)
        if op == '==':
            return SBool(x == y)
        if op == '!=':
            return SBool(x != y)
        return NotImplemented
    if not is_number(a) or not is_number(b):
        return NotImplemented
    if is_integral(a) and is_integral(b):
        x, y = integer(a), integer(b)
    else:
        x, y = real(a), real(b)
    return SBool(z3.simplify({'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y,
                              '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()))


def _shift(a, n, op):
    """a >> n or a << n for a number n of bits"""
    if not is_integral(a) or isinstance(n, Sym) or not isinstance(n, int) or n < 0:
        return NotImplemented
    return _num(op, a, 2 ** n)


def _mask(a, m):
    """a & m for a mask m: the bits of m, run by run (two's complement, as in Python)"""
    if not is_integral(a) or isinstance(m, Sym) or not isinstance(m, int) or isinstance(m, bool) or m < 0:
        return NotImplemented
    x, terms, low = integer(a), [], 0
    while m >> low:
        if not (m >> low) & 1:
            low += 1
            continue
        high = low
        while (m >> high) & 1:
            high += 1
        terms.append(((x / 2 ** low) % 2 ** (high - low)) * 2 ** low)
        low = high
    return SInt(z3.simplify(z3.Sum(*terms))) if terms else 0


class Num(Sym):
    """Operators, so that native (numpy object array) code computes with terms"""
    __slots__ = ()
    __hash__ = object.__hash__
    def __add__(self, o): return _num('+', self, o)
    def __radd__(self, o): return _num('+', o, self)
    def __sub__(self, o): return _num('-', self, o)
    def __rsub__(self, o): return _num('-', o, self)
    def __mul__(self, o): return _num('*', self, o)
    def __rmul__(self, o): return _num('*', o, self)
    def __truediv__(self, o): return _num('/', self, o)
    def __rtruediv__(self, o): return _num('/', o, self)
    def __mod__(self, o): return _num('%', self, o)
    def __floordiv__(self, o): return _num('//', self, o)
    def __pow__(self, o): return _num('**', self, o)
    def __and__(self, o): return _mask(self, o)
    def __rand__(self, o): return _mask(self, o)
    def __rshift__(self, o): return _shift(self, o, '//')
    def __lshift__(self, o): return _shift(self, o, '*')
    def __neg__(self): return _num('-', 0, self)
    def __pos__(self): return self
    def __abs__(self): return self if CURRENT[-1].branch(_cmp('>=', self, 0).z) else _num('-', 0, self)
    def __eq__(self, o): return _cmp('==', self, o)
    def __ne__(self, o): return _cmp('!=', self, o)
    def __lt__(self, o): return _cmp('<', self, o)
    def __le__(self, o): return _cmp('<=', self, o)
    def __gt__(self, o): return _cmp('>', self, o)
    def __ge__(self, o): return _cmp('>=', self, o)
    def __bool__(self):
        return CURRENT[-1].branch(_cmp('!=', self, 0).z)
    def sqrt(self):
        return CURRENT[-1].sqrt(self)
    def cos(self):
        return CURRENT[-1].trig(self)[0]
    def sin(self):
        return CURRENT[-1].trig(self)[1]
    def tan(self):
        c, s = CURRENT[-1].trig(self)
        return s / c


class SBool(Num):
    pytype = bool
    __slots__ = ()
    __hash__ = object.__hash__
    def __bool__(self):
        return CURRENT[-1].branch(self.z)


class SInt(Num):
    pytype = int
    __slots__ = ()
    __hash__ = object.__hash__


class SReal(Num):
    """A machine float, taken to be a real number"""
    pytype = float
    __slots__ = ()
    __hash__ = object.__hash__


class SStr(Sym):
    pytype = str
    __slots__ = ()
    __hash__ = object.__hash__
    def __eq__(self, o): return _cmp('==', self, o)
    def __ne__(self, o): return _cmp('!=', self, o)
    def __bool__(self):
        return CURRENT[-1].branch(z3.Length(self.z) > 0)


def is_number(v):
    if isinstance(v, Num):
        return True
    if isinstance(v, (int, float)):
        return True
    try:
        import numpy
        return isinstance(v, (numpy.integer, numpy.floating, numpy.bool_))
    except ImportError:
        return False


def is_integral(v):
    if isinstance(v, (SInt, SBool)):
        return True
    if isinstance(v, Sym):
        return False
    if isinstance(v, int):
        return True
    import numpy
    return isinstance(v, (numpy.integer, numpy.bool_))


class SAny(Sym):
    """An opaque object of (symbolically) unknown content.

    cls, if not None, is a class it is known to be a direct instance of.
    """
    __slots__ = ('cls', 'label')
    def __init__(self, z, cls=None, label=None):
        self.z = z
        self.cls = cls
        self.label = label
    def __eq__(self, o):
        raise TypeError('native comparison of an opaque value')
    __hash__ = object.__hash__
    def __bool__(self):
        raise TypeError('native truth of an opaque value')


class Heap(object):
    """Base of mutable model objects"""
    cls = None


class Obj(Heap):
    """Instance of a (real) class, with a modelled attribute dictionary"""
    def __init__(self, cls, d, label, ref):
        self.cls = cls
        self.d = d
        self.label = label
        self.ref = ref
        self.payload = None       # list content for list subclasses
    def __repr__(self):
        return '<%s %s>' % (self.cls.__name__, self.label)


ABSENT = type('ABSENT', (), {'__repr__': lambda s: 'ABSENT'})()


class SDict(Heap):
    """Dictionary: writes over a base which is empty (closed) or unknown (open)"""
    cls = dict
    def __init__(self, open=False, label='dict'):
        self.open = open
        self.label = label
        self.base = []            # [key, value|ABSENT] facts about the unknown base
        self.over = []            # [key, value|ABSENT] writes, newest last
    def __repr__(self):
        return '<dict %s>' % self.label


class SList(Heap):
    """List of unknown length: a z3 sequence of V"""
    cls = list
    def __init__(self, seq, label='list', codec=None):
        self.seq = seq
        self.label = label
        self.codec = codec
    def __repr__(self):
        return '<list %s %s>' % (self.label, self.seq)


class LazyList(Heap):
    """Immutable view: item(j) for 0 <= j < n, element values computed on demand

    Stands for lists built by comprehensions over lists of unknown length and
    for ranges of unknown extent.
    """
    cls = list
    def __init__(self, n, item, label='lazy'):
        self.n = n                # z3 Int
        self.item = item          # function(z3 Int) -> value
        self.label = label
    def __repr__(self):
        return '<list %s>' % self.label


class WeakRef(object):
    """weakref.ref model: .target, .callback; dead is decided by the harness"""
    def __init__(self, target, callback=None, ref=None):
        self.target = target
        self.callback = callback
        self.ref = ref
        self.dead = False
    def __repr__(self):
        return '<weakref to %r>' % (self.target,)


class Func(object):
    """A function defined by interpreted code (closure over an Env)"""
    def __init__(self, node, env, glob, name, defaults=(), kw_defaults=None, cls=None):
        self.node, self.env, self.glob, self.name = node, env, glob, name
        self.defaults, self.kw_defaults = defaults, kw_defaults or {}
        self.cls = cls
    def __repr__(self):
        return '<function %s>' % self.name


class Bound(object):
    def __init__(self, func, obj):
        self.func, self.obj = func, obj
    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.obj)


class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Model(object):
    """A callable with a Python-level contract: fn(interp, args, kwargs)"""
    def __init__(self, fn, name):
        self.fn, self.name = fn, name
    def __repr__(self):
        return '<model %s>' % self.name


def is_sym(v):
    return isinstance(v, (Sym, Heap, WeakRef, Func, Bound, Super, Model))


def has_sym(v, depth=4):
    if is_sym(v):
        return True
    if depth and type(v) in (list, tuple, set, frozenset):
        return any(has_sym(x, depth - 1) for x in v)
    if depth and type(v) is dict:
        return any(has_sym(x, depth - 1) for kv in v.items() for x in kv)
    if type(v) is slice:
        return any(is_sym(x) for x in (v.start, v.stop, v.step))
    return False


def real(v):
    """z3 real of a Python number or symbolic number"""
    if isinstance(v, SReal):
        return v.z
    if isinstance(v, SInt):
        return z3.ToReal(v.z)
    if isinstance(v, SBool):
        return z3.If(v.z, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    f = Fraction(float(v)) if not isinstance(v, int) else Fraction(v)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))


def integer(v):
    if isinstance(v, SInt):
        return v.z
    if isinstance(v, SBool):
        return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(v))


def string(v):
    if isinstance(v, SStr):
        return v.z
    return z3.StringVal(v)
