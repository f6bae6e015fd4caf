"""Symbolic interpreter for the extracted function bodies.

Executes the AST of the real functions over symbolic values.  Everything a
function calls is one of: another function of /repo (interpreted, unless a
contract is registered for it), a builtin or library function with a contract
in models.py or in the specification (assumed), or a pure native function of
concrete arguments.  Anything else raises Unsupported: undecided.
"""
import ast, builtins, operator, time, types, weakref
import z3
from .values import *
from .engine import *
from . import source

MAX_STEPS = 200000


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Poison(object):
    """A variable whose value after a summarised loop is not known"""
    def __init__(self, why):
        self.why = why


class Frame(object):
    def __init__(self, name, glob, parent=None, cells=None, clsname=None):
        self.name, self.glob, self.parent = name, glob, parent
        self.cells = cells or {}
        self.locals = {}
        self.local_names = set()
        self.nonlocals = set()
        self.globals_declared = set()
        self.clsname = clsname
        self.yields = None
        self.first = None
        self.loop_ordinal = 0
        self.siblings = ()


_scopes = {}


def scope(node):
    """Names bound in a function body, and its nonlocal/global/yield use"""
    if node in _scopes:
        return _scopes[node]
    bound, nonloc, glob, has_yield = set(), set(), set(), [False]

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            bound.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            visit(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            has_yield[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            bound.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bound.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                bound.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for stmt in body:
        visit(stmt)
    args = node.args
    for a in args.posonlyargs + args.args + args.kwonlyargs:
        bound.add(a.arg)
    for a in (args.vararg, args.kwarg):
        if a:
            bound.add(a.arg)
    result = (bound - nonloc - glob, nonloc, glob, has_yield[0])
    _scopes[node] = result
    return result


BINOPS = {
    ast.Add: (operator.add, '__add__', '__radd__'),
    ast.Sub: (operator.sub, '__sub__', '__rsub__'),
    ast.Mult: (operator.mul, '__mul__', '__rmul__'),
    ast.Div: (operator.truediv, '__truediv__', '__rtruediv__'),
    ast.FloorDiv: (operator.floordiv, '__floordiv__', '__rfloordiv__'),
    ast.Mod: (operator.mod, '__mod__', '__rmod__'),
    ast.Pow: (operator.pow, '__pow__', '__rpow__'),
    ast.BitAnd: (operator.and_, '__and__', '__rand__'),
    ast.BitOr: (operator.or_, '__or__', '__ror__'),
    ast.BitXor: (operator.xor, '__xor__', '__rxor__'),
    ast.LShift: (operator.lshift, '__lshift__', '__rlshift__'),
    ast.RShift: (operator.rshift, '__rshift__', '__rrshift__'),
    ast.MatMult: (operator.matmul, '__matmul__', '__rmatmul__'),
}
INPLACE = {
    ast.Add: '__iadd__', ast.Sub: '__isub__', ast.Mult: '__imul__', ast.Div: '__itruediv__',
    ast.BitOr: '__ior__', ast.BitAnd: '__iand__', ast.Mod: '__imod__', ast.FloorDiv: '__ifloordiv__',
    ast.Pow: '__ipow__', ast.BitXor: '__ixor__',
}
CMPOPS = {
    ast.Lt: (operator.lt, '__lt__', '__gt__'), ast.LtE: (operator.le, '__le__', '__ge__'),
    ast.Gt: (operator.gt, '__gt__', '__lt__'), ast.GtE: (operator.ge, '__ge__', '__le__'),
}


def mro_lookup(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name], c
    return ABSENT, None


def is_repo_class(cls):
    module = getattr(cls, '__module__', '') or ''
    return module == 'vrml' or module.startswith('vrml.') or module.startswith('vrml_accelerate')


def is_repo_func(f):
    if not isinstance(f, types.FunctionType):
        return False
    return source.in_repo(f.__code__.co_filename) or f.__code__.co_filename in source._trees


class Interp(object):
    def __init__(self, ctx, contracts=()):
        self.ctx = ctx
        ctx.interp = self
        self.contracts = {}
        self.class_contracts = {}
        self.steps = 0
        self.depth = 0
        self.exc_stack = []
        self.isinst = {}
        self.loop_specs = []
        self.call_any = None
        self.fresh = {}              # id -> object: containers made on this path
        self.setattr_ok = {}         # id -> concrete objects that may be written
        from . import models
        models.install(self)
        self.installed = set(self.contracts)
        self.handled = 0             # calls decided by contracts of the harness
        for c in contracts:
            c(self)

    # ------------------------------------------------------------ helpers
    def contract(self, f, handler, name=None):
        """Calls of f are decided by handler(interp, args, kwargs)"""
        self.contracts[id(f)] = (f, handler, name or getattr(f, '__qualname__', repr(f)))
    def make(self, obj):
        """Register a container as allocated on this path"""
        self.fresh[id(obj)] = obj
        return obj
    def raise_(self, cls, *args):
        value = cls(*args)
        raise PyExc(cls, value, args)
    def unsupported(self, why):
        raise Unsupported(why)
    def to_v(self, v):
        """Identity of a value, as a term"""
        if isinstance(v, SAny):
            return v.z
        if isinstance(v, Obj):
            return v.ref
        if isinstance(v, WeakRef):
            if v.ref is None:
                v.ref = self._vconst(v)
            return v.ref
        return self._vconst(v)
    def _vconst(self, v):
        ctx = self.ctx
        table = ctx.__dict__.setdefault('_vconsts', {})
        if isinstance(v, (str, int, float, bool)) and not isinstance(v, Sym):
            key = ('value', type(v), v)
        else:
            key = id(v)
        if key not in table:
            c = z3.Const('const_%d_%s' % (len(table), type(v).__name__), V)
            refs = ctx.__dict__.setdefault('_refs', [])
            for r in refs:
                ctx.assume(r != c, check=False)
            refs.append(c)
            table[key] = (c, v)
            ctx.__dict__.setdefault('_vback', {})[c.get_id()] = v
        return table[key][0]
    def from_v(self, term, cls=None, maker=None):
        """Value for an identity term"""
        term = z3.simplify(term)
        ctx = self.ctx
        for o in ctx.__dict__.get('_objs', ()):
            if z3.eq(o.ref, term):
                return o
        back = ctx.__dict__.get('_vback', {})
        if term.get_id() in back:
            return back[term.get_id()]
        if maker is not None:
            return maker(term)
        return SAny(term, cls)
    def materialise(self, term, cls, init=None):
        """The object denoted by term, known to be an instance of cls"""
        term = z3.simplify(term)
        table = self.ctx.__dict__.setdefault('_mat', {})
        key = term.get_id()
        if key not in table:
            o = Obj(cls, SDict(open=True, label='%s@%s' % (cls.__name__, term)), str(term)[:40], term)
            o.term = term
            table[key] = o
            if init:
                init(o)
        return table[key]

    # ------------------------------------------------------------ truth, equality
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return self.ctx.branch(v.z)
        if isinstance(v, (SInt, SReal)):
            return self.ctx.branch(v.z != 0)
        if isinstance(v, SStr):
            return self.ctx.branch(z3.Length(v.z) > 0)
        if isinstance(v, SAny):
            return self.ctx.branch(Truthy(v.z))
        if isinstance(v, SList):
            return self.ctx.branch(z3.Length(v.seq) > 0)
        if isinstance(v, LazyList):
            return self.ctx.branch(v.n > 0)
        if isinstance(v, SDict):
            return self.truth(self.len_(v))
        if isinstance(v, Obj):
            m, owner = mro_lookup(v.cls, '__bool__')
            if m is not ABSENT:
                return self.truth(self.call(Bound(m, v), [], {}))
            m, owner = mro_lookup(v.cls, '__len__')
            if m is not ABSENT:
                return self.truth(self.len_(v))
            return True
        if isinstance(v, (WeakRef, Func, Bound, Super, Model)):
            return True
        if isinstance(v, Poison):
            self.unsupported(v.why)
        try:
            return bool(v)
        except (Unsupported, PathEnd, PyExc):
            raise
        except Exception as err:
            raise PyExc(type(err), err, err.args)
    def is_(self, a, b):
        """Identity, as bool or z3 Bool"""
        if a is b:
            return True
        if isinstance(a, SAny) or isinstance(b, SAny) or \
                (isinstance(a, Obj) and getattr(a, 'term', None) is not None) or \
                (isinstance(b, Obj) and getattr(b, 'term', None) is not None):
            for x in (a, b):
                if isinstance(x, (SInt, SReal, SStr, SBool)):
                    return False
                if type(x) in (object, list) and (type(x) is object or private_sentinel(x)):
                    self.ctx.report.assumptions.add('private sentinels (module-level object()) are not values of the program')
                    return False
            return z3.simplify(self.to_v(a) == self.to_v(b))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return False
        if isinstance(a, SBool) and isinstance(b, bool):
            return a.z == b
        if isinstance(b, SBool) and isinstance(a, bool):
            return b.z == a
        return False
    def eq(self, a, b):
        """a == b as bool, SBool or other value"""
        if a is b and not isinstance(a, (float,)):
            if isinstance(a, Obj):
                m, owner = mro_lookup(a.cls, '__eq__')
                if owner is not None and is_repo_class(owner):
                    return self.call(Bound(m, a), [b], {})
            return True
        if ('word', None) in self.class_contracts and (isinstance(a, SStr) or isinstance(b, SStr)):
            r = self.class_contracts['word', None](self, '__eq__', a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, SReal) or isinstance(b, SReal) or isinstance(a, (SInt, SBool, SStr)) or isinstance(b, (SInt, SBool, SStr)):
            from .values import _cmp
            r = _cmp('==', a, b)
            return False if r is NotImplemented and not (isinstance(a, SAny) or isinstance(b, SAny)) else (
                r if r is not NotImplemented else SBool(self.to_v(a) == self.to_v(b)))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                m, owner = mro_lookup(x.cls, '__eq__')
                if owner is not None and owner is not object and m is not object.__eq__:
                    r = self.call(Bound(m, x), [y], {})
                    if r is not NotImplemented:
                        return r
        if isinstance(a, SAny) or isinstance(b, SAny):
            r = self.is_(a, b)
            return r if isinstance(r, bool) else SBool(r)
        if isinstance(a, Obj) or isinstance(b, Obj):
            r = self.is_(a, b)
            return r if isinstance(r, bool) else SBool(r)
        if isinstance(a, (SList, LazyList)) or isinstance(b, (SList, LazyList)):
            return self.list_eq(a, b)
        if isinstance(a, WeakRef) and isinstance(b, WeakRef):
            if a.dead or b.dead:
                return a is b
            return self.eq(a.target, b.target)
        if isinstance(a, Heap) or isinstance(b, Heap):
            self.unsupported('comparison of %r and %r' % (a, b))
        if type(a) in (tuple, list) and type(a) is type(b) and (has_sym(a) or has_sym(b)):
            if len(a) != len(b):
                return False
            acc = True
            for x, y in zip(a, b):
                r = self.eq(x, y)
                if isinstance(r, SBool):
                    acc = r if acc is True else SBool(z3.And(acc.z, r.z))
                elif not self.truth(r):
                    return False
            return acc
        if is_sym(a) or is_sym(b):
            return False
        return self.native(operator.eq, [a, b], {})
    def list_eq(self, a, b):
        from . import models
        A, B = models.seq_of(self, a), models.seq_of(self, b)
        if A is None or B is None:
            self.unsupported('comparison of lists %r and %r' % (a, b))
        return SBool(A == B)
    def compare_bool(self, v):
        if isinstance(v, (bool, SBool)):
            return v
        if z3.is_expr(v):
            return SBool(v)
        return v
    def key_eq(self, a, b):
        """Dictionary key equality"""
        return self.truth(self.eq(a, b))

    # ------------------------------------------------------------ dictionaries
    def dict_lookup(self, d, key):
        """value or ABSENT"""
        for k, v in reversed(d.over):
            if self.key_eq(k, key):
                return v
        for k, v in d.base:
            if self.key_eq(k, key):
                return v
        if not d.open:
            return ABSENT
        present = self.ctx.choose([True, False])
        maker = getattr(d, 'value_maker', None)
        value = ABSENT if not present else maker(key) if maker else self.ctx.any('%s[%s]' % (d.label, key if isinstance(key, str) else 'k'))
        if value is not ABSENT and getattr(d, 'value_cls', None):
            value.cls = d.value_cls
        d.base.append([key, value])
        return value
    def dict_store(self, d, key, value):
        d.over = [[k, v] for k, v in d.over]
        self.ctx.trace.append(('w', d, key, value))
        for entry in d.over:
            if entry[0] is key or (type(entry[0]) is type(key) and isinstance(key, str) and entry[0] == key):
                entry[1] = value
                # keep order of insertion, as dictionaries do
                return
        if not d.open:
            for entry in d.over:
                if self.key_eq(entry[0], key):
                    entry[1] = value
                    return
        d.over.append([key, value])
    def dict_method(self, d, name, args, kwargs):
        if hasattr(d, 'method'):
            return d.method(self, name, args, kwargs)
        if name == 'get':
            v = self.dict_lookup(d, args[0])
            return (args[1] if len(args) > 1 else None) if v is ABSENT else v
        if name == '__getitem__':
            v = self.dict_lookup(d, args[0])
            if v is ABSENT:
                self.raise_(KeyError, args[0])
            return v
        if name == '__setitem__':
            self.dict_store(d, args[0], args[1])
            return None
        if name in ('__delitem__', 'pop'):
            v = self.dict_lookup(d, args[0])
            if v is ABSENT:
                if name == 'pop' and len(args) > 1:
                    return args[1]
                self.raise_(KeyError, args[0])
            self.dict_store(d, args[0], ABSENT)
            return v if name == 'pop' else None
        if name == 'setdefault':
            v = self.dict_lookup(d, args[0])
            if v is ABSENT:
                v = args[1] if len(args) > 1 else None
                self.dict_store(d, args[0], v)
            return v
        if name in ('__contains__', 'has_key'):
            return self.dict_lookup(d, args[0]) is not ABSENT
        if name in ('keys', 'values', 'items', '__iter__', 'copy', '__len__', '__bool__'):
            if d.open:
                if name == '__bool__' or name == '__len__' and getattr(d, 'value_maker', None):
                    # either empty but for what is known, or not empty
                    if getattr(d, 'nonempty', False) or self.dict_entries(d) or any(v is not ABSENT and self.dict_lookup(d, k) is not ABSENT for k, v in d.base) or self.ctx.choose([True, False]):
                        d.nonempty = True
                        if name == '__bool__':
                            return True
                        n = self.ctx.int('len')
                        self.ctx.assume(n.z > 0, check=False)
                        return n
                    d.open = False
                    return False if name == '__bool__' else 0
                if name == 'copy':
                    n = SDict(True, d.label + '.copy')
                    n.base, n.over = d.base, [list(x) for x in d.over]
                    return n
                handler = self.class_contracts.get(('entries', None))
                if handler:
                    r = handler(self, d, name)
                    if r is not NotImplemented:
                        return r
                self.unsupported('iteration over dictionary of unknown content %s' % d.label)
            items = [(k, v) for k, v in self.dict_entries(d)]
            if name == 'keys' or name == '__iter__':
                return self.make([k for k, v in items])
            if name == 'values':
                return self.make([v for k, v in items])
            if name == 'items':
                return self.make([(k, v) for k, v in items])
            if name == '__len__':
                return len(items)
            if name == '__bool__':
                return bool(items)
            n = SDict(False, d.label + '.copy')
            n.over = [[k, v] for k, v in items]
            return n
        if name == 'clear':
            if d.open:
                d.open = False
                d.base = []
            self.ctx.trace.append(('w', d, ABSENT, ABSENT))
            d.over = []
            return None
        if name == 'update':
            for a in args:
                if isinstance(a, SDict):
                    if a.open:
                        self.unsupported('update from a dictionary of unknown content')
                    for k, v in self.dict_entries(a):
                        self.dict_store(d, k, v)
                elif isinstance(a, dict):
                    for k, v in a.items():
                        self.dict_store(d, k, v)
                else:
                    for k, v in [tuple(self.iterate_finite(x)) for x in self.iterate_finite(a)]:
                        self.dict_store(d, k, v)
            for k, v in kwargs.items():
                self.dict_store(d, k, v)
            return None
        self.unsupported('dict.%s' % name)
    def dict_entries(self, d):
        return [(k, v) for k, v in d.over if v is not ABSENT]

    # ------------------------------------------------------------ attributes
    def pytype(self, v):
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, (SBool, SInt, SReal, SStr)):
            return v.pytype
        if isinstance(v, SAny):
            if v.cls:
                return v.cls
            self.unsupported('type of an opaque value')
        if isinstance(v, LazyList) and v.cls is set:
            return set
        if isinstance(v, (SList, LazyList)):
            return list
        if isinstance(v, SDict):
            return dict
        if isinstance(v, WeakRef):
            return weakref.ref
        if isinstance(v, Func):
            return types.FunctionType
        if isinstance(v, Bound):
            return types.MethodType
        if isinstance(v, Model):
            return types.BuiltinFunctionType
        return type(v)
    def get_attr(self, obj, name, default=ABSENT):
        try:
            return self._get_attr(obj, name)
        except PyExc as err:
            if default is not ABSENT and issubclass(err.cls, AttributeError):
                return default
            raise
    def _get_attr(self, obj, name):
        if isinstance(obj, Obj):
            return self.obj_getattr(obj, name)
        if isinstance(obj, Super):
            return self.super_getattr(obj, name)
        if isinstance(obj, Poison):
            self.unsupported(obj.why)
        if isinstance(obj, SAny):
            handler = self.class_contracts.get(('attr', obj.cls, name)) or self.class_contracts.get(('attr', None, name))
            if handler:
                return handler(self, obj)
            if obj.cls is not None and is_repo_class(obj.cls):
                return self.obj_getattr(self.materialise(obj.z, obj.cls), name)
            if name == '__class__':
                return self.pytype(obj)
            self.unsupported('attribute %s of an opaque value' % name)
        if isinstance(obj, (SList, LazyList, SDict, SStr, SInt, SReal, SBool)):
            if name == '__class__':
                return self.pytype(obj)
            if not hasattr(self.pytype(obj), name):
                self.raise_(AttributeError, name)
            return Bound(getattr(self.pytype(obj), name), obj)
        if isinstance(obj, Bound):
            if name in ('__func__', 'im_func'):
                return obj.func
            if name in ('__self__', 'im_self'):
                return obj.obj
            if name in ('__name__', '__doc__'):
                return getattr(obj.func, name, obj.func.name if isinstance(obj.func, Func) else None)
            self.raise_(AttributeError, name)
        if isinstance(obj, Func):
            if name == '__name__':
                return obj.name
            if name == '__call__':
                return obj
            self.raise_(AttributeError, name)
        if isinstance(obj, WeakRef):
            if name == '__call__':
                return obj
            self.raise_(AttributeError, name)
        if isinstance(obj, Model):
            self.unsupported('attribute %s of %r' % (name, obj))
        # concrete
        if isinstance(obj, type) or isinstance(obj, types.ModuleType):
            try:
                return getattr(obj, name)
            except AttributeError as err:
                raise PyExc(AttributeError, err, err.args)
        cls = type(obj)
        if is_repo_class(cls) and not isinstance(obj, types.ModuleType):
            desc, owner = mro_lookup(cls, name)
            if desc is not ABSENT:
                inst = getattr(obj, '__dict__', {})
                dtype = type(desc)
                data = hasattr(dtype, '__set__') or hasattr(dtype, '__delete__')
                if not data and name in inst:
                    return inst[name]
                if isinstance(desc, types.FunctionType):
                    return types.MethodType(desc, obj)
                if isinstance(desc, property):
                    return self.call(desc.fget, [obj], {})
                if is_repo_class(dtype) and hasattr(dtype, '__get__'):
                    return self.call(dtype.__get__, [desc, obj, cls], {})
        if type(obj) in (list, dict, set) and id(obj) in self.fresh and callable(getattr(obj, name, None)):
            return Bound(getattr(type(obj), name), obj)
        if type(obj) in (tuple, str, list, dict) and callable(getattr(obj, name, None)) and has_sym(obj):
            return Bound(getattr(type(obj), name), obj)
        try:
            return getattr(obj, name)
        except (Unsupported, PathEnd, PyExc):
            raise
        except Exception as err:
            raise PyExc(type(err), err, err.args)
    def obj_getattr(self, obj, name):
        cls = obj.cls
        if name == '__dict__':
            return obj.d
        if name == '__class__':
            return cls
        handler = self.class_contracts.get(('attr', cls, name))
        if handler:
            return handler(self, obj)
        desc, owner = mro_lookup(cls, name)
        if desc is not ABSENT:
            dtype = desc.cls if isinstance(desc, Obj) else type(desc)
            data = hasattr(dtype, '__set__') or hasattr(dtype, '__delete__')
            if data and name not in ('__dict__',):
                return self.descr_get(desc, obj, cls)
        known = obj.d.over or obj.d.base
        if desc is ABSENT or any(k == name for k, v in (obj.d.over + obj.d.base) if isinstance(k, str)) or not obj.d.open:
            v = self.dict_lookup(obj.d, name)
            if v is not ABSENT:
                return v
        elif obj.d.open:
            self.ctx.report.assumptions.add('instance dictionaries do not shadow methods or other non-descriptor class attributes')
        if desc is not ABSENT:
            return self.descr_get(desc, obj, cls)
        ga, owner = mro_lookup(cls, '__getattr__')
        if ga is not ABSENT:
            return self.call(Bound(ga, obj), [name], {})
        self.raise_(AttributeError, "'%s' object has no attribute '%s'" % (cls.__name__, name))
    def descr_get(self, desc, obj, cls):
        if isinstance(desc, types.FunctionType):
            return Bound(desc, obj) if obj is not None else desc
        if isinstance(desc, classmethod):
            return Bound(desc.__func__, cls)
        if isinstance(desc, staticmethod):
            return desc.__func__
        if isinstance(desc, property):
            if obj is None:
                return desc
            return self.call(desc.fget, [obj], {})
        if isinstance(desc, (types.MethodDescriptorType, types.WrapperDescriptorType, types.BuiltinFunctionType)):
            if isinstance(desc, types.BuiltinFunctionType):
                return desc
            return Bound(desc, obj) if obj is not None else desc
        dtype = desc.cls if isinstance(desc, Obj) else type(desc)
        getter, owner = mro_lookup(dtype, '__get__')
        if getter is ABSENT:
            return desc
        if is_repo_class(dtype):
            return self.call(Bound(getter, desc), [obj, cls], {})
        if isinstance(desc, types.GetSetDescriptorType):
            if desc.__name__ == '__doc__' or desc.__name__ == '__weakref__':
                return None
            self.unsupported('slot %s of %s' % (desc.__name__, cls.__name__))
        self.unsupported('descriptor %r' % (desc,))
    def super_getattr(self, sup, name):
        obj = sup.obj
        cls = self.pytype(obj) if not isinstance(obj, type) else obj
        mro = cls.__mro__
        i = list(mro).index(sup.cls) + 1
        for c in mro[i:]:
            if name in c.__dict__:
                d = c.__dict__[name]
                if isinstance(obj, type):
                    return self.descr_get(d, None, cls) if not isinstance(d, classmethod) else Bound(d.__func__, cls)
                if name == '__new__':
                    return d
                return self.descr_get(d, obj, cls)
        if name == '__class__':
            return super
        self.raise_(AttributeError, "'super' object has no attribute '%s'" % name)
    def set_attr(self, obj, name, value):
        if isinstance(obj, SAny) and obj.cls is not None and is_repo_class(obj.cls):
            obj = self.materialise(obj.z, obj.cls)
        if isinstance(obj, Obj):
            handler = self.class_contracts.get(('setattr', obj.cls, name))
            if handler:
                return handler(self, obj, value)
            desc, owner = mro_lookup(obj.cls, name)
            if desc is not ABSENT:
                dtype = desc.cls if isinstance(desc, Obj) else type(desc)
                setter, o = mro_lookup(dtype, '__set__')
                if isinstance(desc, property):
                    if desc.fset is None:
                        self.raise_(AttributeError, name)
                    self.call(desc.fset, [obj, value], {})
                    return
                if setter is not ABSENT and is_repo_class(dtype):
                    self.call(Bound(setter, desc), [obj, value], {})
                    return
            sa, owner = mro_lookup(obj.cls, '__setattr__')
            if owner is not None and is_repo_class(owner):
                self.call(Bound(sa, obj), [name, value], {})
                return
            if getattr(obj, 'term', None) is not None:
                self.alias_guard(obj)
            self.dict_store(obj.d, name, value)
            return
        if id(obj) in self.setattr_ok:
            setattr(obj, name, value)
            return
        self.unsupported('assignment to attribute %s of %r' % (name, type(obj)))
    def alias_guard(self, obj):
        """A write to a materialised object must not alias others"""
        for o in list(self.ctx.__dict__.get('_mat', {}).values()) + list(self.ctx.__dict__.get('_objs', ())):
            if o is not obj and issubclass(o.cls, obj.cls) | issubclass(obj.cls, o.cls):
                if self.ctx.feasible(o.ref == obj.ref):
                    self.unsupported('write to an object that may be another one')
    def del_attr(self, obj, name):
        if isinstance(obj, Obj):
            desc, owner = mro_lookup(obj.cls, name)
            if desc is not ABSENT:
                dtype = desc.cls if isinstance(desc, Obj) else type(desc)
                deleter, o = mro_lookup(dtype, '__delete__')
                if deleter is not ABSENT and is_repo_class(dtype):
                    self.call(Bound(deleter, desc), [obj], {})
                    return
            v = self.dict_lookup(obj.d, name)
            if v is ABSENT:
                self.raise_(AttributeError, name)
            self.dict_store(obj.d, name, ABSENT)
            return
        self.unsupported('deletion of attribute %s of %r' % (name, type(obj)))

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        args = list(args)
        kwargs = dict(kwargs or {})
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('call depth')
        try:
            return self._call(f, args, kwargs)
        finally:
            self.depth -= 1
    def _call(self, f, args, kwargs):
        entry = self.contracts.get(id(f))
        if entry is not None and entry[0] is f:
            self.ctx.report.contracts.add(entry[2])
            self.handled += id(f) not in self.installed
            return entry[1](self, args, kwargs)
        if isinstance(f, Bound):
            return self._call(f.func, [f.obj] + args, kwargs)
        if isinstance(f, Model):
            return f.fn(self, args, kwargs)
        if isinstance(f, Func):
            return self.call_ast(f.node, f.glob, args, kwargs, f.defaults, f.kw_defaults, parent=f.env, name=f.name, clsname=f.env.clsname if f.env else None)
        if isinstance(f, WeakRef):
            if f.dead is True:
                return None
            if isinstance(f.dead, z3.ExprRef):
                return None if self.ctx.branch(f.dead) else f.target
            return f.target
        if isinstance(f, Obj):
            m, owner = mro_lookup(f.cls, '__call__')
            if m is ABSENT:
                self.raise_(TypeError, "'%s' object is not callable" % f.cls.__name__)
            return self._call(m, [f] + args, kwargs)
        if isinstance(f, SAny):
            if self.call_any is not None:
                return self.call_any(self, f, args, kwargs)
            self.unsupported('call of an opaque value %s' % f.label)
        if isinstance(f, types.MethodType):
            return self._call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, types.FunctionType):
            if is_repo_func(f):
                return self.call_live(f, args, kwargs)
            return self.native(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            return self.slot(f, args, kwargs)
        if isinstance(f, types.MethodWrapperType):
            # native bound slot, e.g. from a concrete object
            return self.native(f, args, kwargs)
        if isinstance(f, types.BuiltinFunctionType) and f.__self__ is not None and not isinstance(f.__self__, types.ModuleType):
            # bound native method of a concrete object
            if f.__self__ is object and f.__name__ == '__new__' and len(args) == 1 and isinstance(args[0], type) and is_repo_class(args[0]):
                from . import models
                return models.new_instance(self, args[0])
            if has_sym(args) or has_sym(kwargs):
                return self.slot(getattr(type(f.__self__), f.__name__, f), [f.__self__] + args, kwargs)
            return self.native(f, args, kwargs)
        cls = type(f)
        if is_repo_class(cls):
            m, owner = mro_lookup(cls, '__call__')
            if m is not ABSENT:
                return self._call(m, [f] + args, kwargs)
        return self.native(f, args, kwargs)
    def slot(self, desc, args, kwargs):
        """Call of a builtin type's method with possibly symbolic arguments"""
        from . import models
        name = desc.__name__
        if not args:
            self.unsupported('unbound %s' % name)
        target = args[0]
        owner = getattr(desc, '__objclass__', None)
        if isinstance(target, Obj) and target.payload is not None and name == '__init__' and owner in (list, dict):
            models.container_init(self, target, args[1:], kwargs)
            return None
        if isinstance(target, Obj) and target.payload is not None and owner in (list, object) and hasattr(list, name) and owner is list:
            return models.list_method(self, target, name, args[1:], kwargs)
        if isinstance(target, Obj) and owner is dict:
            return self.dict_method(target.payload, name, args[1:], kwargs)
        if isinstance(target, Obj) and owner is object:
            return models.object_method(self, target, name, args[1:], kwargs)
        if isinstance(target, (SList, LazyList)):
            return models.list_method(self, target, name, args[1:], kwargs)
        if isinstance(target, SDict):
            return self.dict_method(target, name, args[1:], kwargs)
        if isinstance(target, SStr):
            return models.str_method(self, target, name, args[1:], kwargs)
        if type(target) is list:
            return models.list_method(self, target, name, args[1:], kwargs)
        if type(target) is str and has_sym(args):
            return models.str_method(self, target, name, args[1:], kwargs)
        if type(target) is dict:
            return models.pydict_method(self, target, name, args[1:], kwargs)
        if type(target) is set:
            return models.pyset_method(self, target, name, args[1:], kwargs)
        if type(target) is tuple and has_sym(args):
            return models.tuple_method(self, target, name, args[1:], kwargs)
        if isinstance(target, (SInt, SReal, SBool)):
            r = getattr(target, name)(*args[1:])
            return r
        if is_sym(target):
            self.unsupported('%s of %r' % (name, target))
        return self.native(desc, args, kwargs)
    def native(self, f, args, kwargs):
        """Call a library function on concrete (or natively symbolic) values"""
        from . import models
        if not models.native_allowed(self, f, args, kwargs):
            self.unsupported('call of %s%s' % (getattr(f, '__module__', '') or '', '.' + getattr(f, '__qualname__', repr(f))))
        try:
            r = f(*args, **kwargs)
        except (Unsupported, PathEnd, PyExc):
            raise
        except Exception as err:
            if has_sym(args) and isinstance(err, (TypeError,)) and not isinstance(f, type):
                raise Unsupported('native %s on symbolic values: %s' % (getattr(f, '__name__', f), err))
            raise PyExc(type(err), err, err.args)
        if isinstance(r, (list, dict, set, bytearray)) or type(r).__name__ == 'ndarray':
            self.make(r)
        return r
    def instantiate(self, cls, args, kwargs):
        from . import models
        if issubclass(cls, BaseException):
            value = cls(*args)
            return value
        if is_repo_class(cls):
            new, owner = mro_lookup(cls, '__new__')
            if owner is not None and is_repo_class(owner):
                obj = self._call(new, [cls] + args, kwargs)
            else:
                obj = models.new_instance(self, cls)
            init, owner = mro_lookup(cls, '__init__')
            if isinstance(obj, Obj) and obj.cls is cls:
                if is_repo_class(owner):
                    self._call(init, [obj] + args, kwargs)
                elif issubclass(cls, (list, dict)):
                    models.container_init(self, obj, args, kwargs)
                elif args or kwargs:
                    self.raise_(TypeError, '%s() takes no arguments' % cls.__name__)
            return obj
        handler = models.CLASSES.get(cls)
        if handler is not None:
            return handler(self, args, kwargs)
        return self.native(cls, args, kwargs)
    def call_live(self, f, args, kwargs):
        node = source.function_ast(f)
        self.ctx.report.functions.add(source.describe(f))
        cells = {}
        if f.__closure__:
            for name, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    cells[name] = cell.cell_contents
                except ValueError:
                    pass
        qual = f.__qualname__.split('.')
        clsname = qual[-2] if len(qual) > 1 and qual[-2] != '<locals>' else (qual[0] if len(qual) > 2 else None)
        return self.call_ast(node, f.__globals__, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {},
                             cells=cells, name=f.__qualname__, clsname=clsname)
    def call_ast(self, node, glob, args, kwargs, defaults, kw_defaults, parent=None, cells=None, name='', clsname=None):
        fr = Frame(name, glob, parent, cells, clsname)
        names, nonloc, globd, has_yield = scope(node)
        fr.local_names, fr.nonlocals, fr.globals_declared = names, nonloc, globd
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        bound = {}
        if len(args) > len(params) and not a.vararg:
            self.raise_(TypeError, '%s() takes %d positional arguments but %d were given' % (name, len(params), len(args)))
        for p, v in zip(params, args):
            bound[p] = v
        if a.vararg:
            rest = args[len(params):]
            if len(rest) == 1 and getattr(rest[0], 'star_args', False):
                # called as f(*items) with any number of items
                bound[a.vararg.arg] = rest[0]
            else:
                bound[a.vararg.arg] = tuple(rest)
        extra = {}
        for k, v in kwargs.items():
            if k in params or k in [p.arg for p in a.kwonlyargs]:
                if k in bound:
                    self.raise_(TypeError, '%s() got multiple values for argument %r' % (name, k))
                bound[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_(TypeError, '%s() got an unexpected keyword argument %r' % (name, k))
        if a.kwarg:
            bound[a.kwarg.arg] = self.make(extra)
        for p, v in zip(params[len(params) - len(defaults):], defaults):
            bound.setdefault(p, v)
        for p in a.kwonlyargs:
            if p.arg not in bound and p.arg in kw_defaults:
                bound[p.arg] = kw_defaults[p.arg]
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p not in bound:
                self.raise_(TypeError, '%s() missing required argument: %r' % (name, p))
        fr.locals.update(bound)
        fr.first = args[0] if args else None
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, fr)
        if has_yield:
            fr.yields = self.make([])
            try:
                self.block(node.body, fr)
            except Return:
                pass
            return iter_list(fr.yields)
        try:
            self.block(node.body, fr)
        except Return as r:
            return r.value
        return None

    # ------------------------------------------------------------ names
    def load(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Poison):
                    self.unsupported(v.why)
                return v
            if name in f.local_names and f is fr and name not in f.nonlocals:
                self.raise_(UnboundLocalError, name)
            if name in f.cells:
                return f.cells[name]
            f = f.parent
        if name in fr.glob:
            return fr.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, name)
    def store(self, name, value, fr):
        if name in fr.globals_declared:
            self.unsupported('assignment to global %s' % name)
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.locals or name in f.local_names:
                    f.locals[name] = value
                    return
                f = f.parent
            self.unsupported('nonlocal %s' % name)
        fr.locals[name] = value
    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__') and fr.clsname:
            return '_%s%s' % (fr.clsname.lstrip('_'), name)
        return name

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        outer = fr.siblings
        for s in stmts:
            fr.siblings = stmts
            self.stmt(s, fr)
        fr.siblings = outer
    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Budget('more than %d statements on a path' % MAX_STEPS)
        if not self.steps % 50:
            self.ctx.in_time(time.time())
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsupported('statement %s at %s:%s' % (type(s).__name__, fr.name, s.lineno))
        return m(s, fr)
    def s_Expr(self, s, fr):
        self.ev(s.value, fr)
    def s_Pass(self, s, fr):
        pass
    def s_Return(self, s, fr):
        raise Return(self.ev(s.value, fr) if s.value is not None else None)
    def s_Break(self, s, fr):
        raise Break()
    def s_Continue(self, s, fr):
        raise Continue()
    def s_Global(self, s, fr):
        pass
    s_Nonlocal = s_Global
    def s_Assign(self, s, fr):
        value = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, value, fr)
    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)
    def assign(self, t, value, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, value, fr)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.ev(t.value, fr), self.mangle(t.attr, fr), value)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.ev(t.value, fr), self.ev(t.slice, fr), value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(value, None if star else len(t.elts))
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_(ValueError, 'not enough values to unpack')
                items = items[:i] + [self.make(list(items[i:len(items) - after]))] + items[len(items) - after:]
            elif len(items) != len(t.elts):
                self.raise_(ValueError, 'wrong number of values to unpack (expected %d, got %d)' % (len(t.elts), len(items)))
            for e, v in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, v, fr)
        else:
            self.unsupported('assignment target %s' % type(t).__name__)
    def unpack(self, value, n):
        from . import models
        if isinstance(value, (SList, LazyList)) and n is not None:
            length = models.length_term(value)
            if not self.ctx.branch(length == n):
                self.raise_(ValueError, 'wrong number of values to unpack')
            return [models.index_list(self, value, i) for i in range(n)]
        return list(self.iterate_finite(value))
    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            self.store(t.id, self.inplace(s.op, cur, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            name = self.mangle(t.attr, fr)
            cur = self.get_attr(obj, name)
            self.set_attr(obj, name, self.inplace(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            obj, key = self.ev(t.value, fr), self.ev(t.slice, fr)
            cur = self.get_item(obj, key)
            self.set_item(obj, key, self.inplace(s.op, cur, self.ev(s.value, fr)))
    def inplace(self, op, a, b):
        from . import models
        name = INPLACE.get(type(op))
        if isinstance(a, Obj) and name:
            m, owner = mro_lookup(a.cls, name)
            if m is not ABSENT:
                return self.call(Bound(m, a), [b], {})
        if isinstance(op, ast.Add) and (isinstance(a, SList) or (type(a) is list) or hasattr(a, 'list_method')):
            models.list_method(self, a, 'extend', [b], {})
            return a
        if type(a).__name__ == 'ndarray' and id(a) not in self.fresh:
            self.unsupported('in-place change of an array')
        return self.binop(op, a, b)
    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.locals:
                    self.raise_(UnboundLocalError, t.id)
                del fr.locals[t.id]
            elif isinstance(t, ast.Attribute):
                self.del_attr(self.ev(t.value, fr), self.mangle(t.attr, fr))
            elif isinstance(t, ast.Subscript):
                self.del_item(self.ev(t.value, fr), self.ev(t.slice, fr))
            else:
                self.unsupported('del')
    def s_If(self, s, fr):
        self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)
    def s_While(self, s, fr):
        from . import loops
        if loops.while_spec(self, s, fr):
            return
        counting = loops.counting_loop(self, s, fr)
        if counting is not None:
            return self.stmt(counting, fr)
        broke = False
        n = 0
        undecided = 0
        while True:
            before = len(self.ctx.pc)
            if not self.truth(self.ev(s.test, fr)):
                break
            undecided += len(self.ctx.pc) != before
            if undecided > 30:
                raise Budget('while loop in %s over something of unknown length' % fr.name)
            n += 1
            if n > self.ctx.options.get('unroll', 300):
                raise Budget('while loop in %s not bounded' % fr.name)
            try:
                self.block(s.body, fr)
            except Continue:
                continue
            except Break:
                broke = True
                break
        if not broke:
            self.block(s.orelse, fr)
    def s_For(self, s, fr):
        from . import loops
        it = self.ev(s.iter, fr)
        loops.for_loop(self, s, fr, it)
    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            self.unsupported('decorated inner function %s' % s.name)
        self.store(s.name, self.closure(s, fr, s.name), fr)
    def closure(self, node, fr, name):
        a = node.args
        defaults = tuple(self.ev(d, fr) for d in a.defaults)
        kwd = {p.arg: self.ev(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Func(node, fr, fr.glob, '%s.%s' % (fr.name, name), defaults, kwd)
    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            if a.asname:
                self.store(a.asname, mod, fr)
            else:
                self.store(a.name.split('.')[0], importlib.import_module(a.name.split('.')[0]), fr)
    def s_ImportFrom(self, s, fr):
        import importlib
        name = s.module or ''
        if s.level:
            pkg = fr.glob.get('__package__') or fr.glob['__name__'].rpartition('.')[0]
            for i in range(s.level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        try:
            mod = importlib.import_module(name)
        except ImportError as err:
            raise PyExc(type(err), err, err.args)
        for a in s.names:
            if a.name == '*':
                self.unsupported('import * in function')
            if hasattr(mod, a.name):
                v = getattr(mod, a.name)
            else:
                try:
                    v = importlib.import_module(name + '.' + a.name)
                except ImportError as err:
                    raise PyExc(ImportError, err, err.args)
            self.store(a.asname or a.name, v, fr)
    def s_Raise(self, s, fr):
        if s.exc is None:
            if not self.exc_stack:
                self.raise_(RuntimeError, 'No active exception to reraise')
            raise self.exc_stack[-1]
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = v()
        if isinstance(v, BaseException):
            raise PyExc(type(v), v, v.args)
        self.unsupported('raise of %r' % (v,))
    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.raise_(AssertionError)
    def s_With(self, s, fr):
        self.unsupported('with statement in %s' % fr.name)
    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as err:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.ev(h.type, fr)
                        match = issubclass(err.cls, t if not isinstance(t, list) else tuple(t))
                    if match:
                        if h.name:
                            self.store(h.name, err.value if err.value is not None else err.cls(*err.pyargs), fr)
                        self.exc_stack.append(err)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                fr.locals.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyExc, Return, Break, Continue):
            self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unsupported('expression %s at %s:%s' % (type(e).__name__, fr.name, getattr(e, 'lineno', '?')))
        return m(e, fr)
    def e_Constant(self, e, fr):
        return e.value
    def e_Name(self, e, fr):
        return self.load(e.id, fr)
    def e_Attribute(self, e, fr):
        return self.get_attr(self.ev(e.value, fr), self.mangle(e.attr, fr))
    def e_Subscript(self, e, fr):
        return self.get_item(self.ev(e.value, fr), self.ev(e.slice, fr))
    def e_Slice(self, e, fr):
        return slice(*[self.ev(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])
    def e_Index(self, e, fr):
        return self.ev(e.value, fr)
    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))
    def e_List(self, e, fr):
        return self.make(self.elts(e.elts, fr))
    def e_Set(self, e, fr):
        from . import models
        return models.make_set(self, self.elts(e.elts, fr))
    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate_finite(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out
    def e_Dict(self, e, fr):
        d = SDict(False, 'dict')
        d.fresh = True
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_method(d, 'update', [self.ev(v, fr)], {})
            else:
                d.over.append([self.ev(k, fr), self.ev(v, fr)])
        if not any(is_sym(k) or has_sym(k) for k, v in d.over):
            return self.make({k: v for k, v in d.over}) if d.over else d
        return d
    def e_Lambda(self, e, fr):
        return self.closure(e, fr, '<lambda>')
    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)
    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if is_and and not t:
                return v
            if not is_and and t:
                return v
    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.z))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Num):
                return -v
            if isinstance(v, Obj):
                return self.call(self.get_attr(v, '__neg__'), [], {})
            return self.native(operator.neg, [v], {})
        if isinstance(e.op, ast.UAdd):
            return v
        return self.native(operator.invert, [v], {})
    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))
    def binop(self, op, a, b):
        from . import models
        fn, left, right = BINOPS[type(op)]
        for x in (a, b):
            if isinstance(x, Poison):
                self.unsupported(x.why)
        if isinstance(op, ast.Mod) and isinstance(a, (str, bytes, SStr)):
            return models.format_percent(self, a, b)
        if isinstance(a, Obj):
            m, owner = mro_lookup(a.cls, left)
            if m is not ABSENT:
                return self.call(Bound(m, a), [b], {})
        if isinstance(b, Obj):
            m, owner = mro_lookup(b.cls, right)
            if m is not ABSENT:
                return self.call(Bound(m, b), [a], {})
        if isinstance(op, ast.Add):
            if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                if isinstance(a, SStr) or isinstance(b, SStr):
                    return SStr(z3.Concat(string(a), string(b)))
            if isinstance(a, (SList, LazyList)) or isinstance(b, (SList, LazyList)) or isinstance(b, Obj):
                if isinstance(a, (list, SList, LazyList)):
                    return models.list_method(self, a, '__add__', [b], {})
        if isinstance(op, ast.Mult) and hasattr(a, 'list_method'):
            return a.list_method(self, a, '__mul__', [b], {})
        if isinstance(op, ast.Mult) and isinstance(a, (SList, SStr)) and isinstance(b, SInt) and ('repeat', None) in self.class_contracts:
            return self.class_contracts['repeat', None](self, a, b)
        if isinstance(op, ast.Mult) and (isinstance(a, (list, tuple)) or isinstance(b, (list, tuple))) and (isinstance(a, Num) or isinstance(b, Num)):
            self.unsupported('sequence repetition of unknown extent')
        if isinstance(a, Num) or isinstance(b, Num):
            if isinstance(a, (SAny, Heap)) or isinstance(b, (SAny, Heap)):
                self.unsupported('arithmetic of %r and %r' % (a, b))
            try:
                r = fn(a, b)
            except (Unsupported, PathEnd, PyExc):
                raise
            except TypeError as err:
                if isinstance(a, (str, list, tuple, dict, type(None))) or isinstance(b, (str, list, tuple, dict, type(None))):
                    raise PyExc(TypeError, err, err.args)
                raise Unsupported('arithmetic: %s' % err)
            except ZeroDivisionError as err:
                raise PyExc(ZeroDivisionError, err, err.args)
            return r
        if is_sym(a) or is_sym(b):
            self.unsupported('operator %s of %r and %r' % (left, a, b))
        r = self.native(fn, [a, b], {})
        return r
    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        result = True
        for i, (op, right_e) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(right_e, fr)
            r = self.compare(op, left, right)
            if len(e.ops) == 1:
                return r
            if i < len(e.ops) - 1 or True:
                if not self.truth(r):
                    return r
            result = r
            left = right
        return result
    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                self.unsupported(x.why)
        if isinstance(op, ast.Is):
            return self.compare_bool(self.is_(a, b))
        if isinstance(op, ast.IsNot):
            r = self.is_(a, b)
            return (not r) if isinstance(r, bool) else SBool(z3.Not(r))
        if isinstance(op, ast.Eq):
            return self.compare_bool(self.eq(a, b))
        if isinstance(op, ast.NotEq):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    m, owner = mro_lookup(x.cls, '__ne__')
                    if owner is not None and is_repo_class(owner):
                        return self.call(Bound(m, x), [y], {})
            if not is_sym(a) and not is_sym(b) and not has_sym(a) and not has_sym(b):
                return self.native(operator.ne, [a, b], {})
            r = self.eq(a, b)
            if isinstance(r, SBool):
                return SBool(z3.Not(r.z))
            return not self.truth(r)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            r = self.contains(b, a)
            return SBool(z3.Not(r.z)) if isinstance(r, SBool) else not self.truth(r)
        fn, name, swapped = CMPOPS[type(op)]
        if isinstance(a, Obj):
            m, owner = mro_lookup(a.cls, name)
            if m is not ABSENT and owner is not object:
                return self.call(Bound(m, a), [b], {})
        if isinstance(b, Obj):
            m, owner = mro_lookup(b.cls, swapped)
            if m is not ABSENT and owner is not object:
                return self.call(Bound(m, b), [a], {})
        if isinstance(a, Num) or isinstance(b, Num):
            try:
                return fn(a, b)
            except TypeError as err:
                raise Unsupported('comparison: %s' % err)
        if is_sym(a) or is_sym(b):
            handler = self.class_contracts.get(('compare', None))
            if handler:
                return handler(self, name, a, b)
            self.unsupported('comparison %s of %r and %r' % (name, a, b))
        return self.native(fn, [a, b], {})
    def contains(self, container, item):
        from . import models
        if isinstance(container, Obj):
            m, owner = mro_lookup(container.cls, '__contains__')
            if m is not ABSENT:
                return self.call(Bound(m, container), [item], {})
            if container.cls is models.SymSet:
                self.ctx.report.assumptions.add('items of sets are hashable and compare by identity')
                return self.contains(container.items, item)
            return self.contains(self.iterate(container), item)
        if isinstance(container, SDict):
            return self.dict_method(container, '__contains__', [item], {})
        if isinstance(container, SList):
            return models.list_method(self, container, '__contains__', [item], {})
        if hasattr(container, 'list_method'):
            return container.list_method(self, container, '__contains__', [item], {})
        if isinstance(container, LazyList):
            self.unsupported('membership in a list of unknown length')
        if isinstance(container, (str, SStr)):
            if ('word', None) in self.class_contracts and (isinstance(container, SStr) or isinstance(item, SStr)):
                r = self.class_contracts['word', None](self, '__contains__', container, item)
                if r is not NotImplemented:
                    return r
            if isinstance(container, SStr) or isinstance(item, SStr):
                if not isinstance(item, (str, SStr)):
                    self.raise_(TypeError, "'in <string>' requires string as left operand")
                return SBool(z3.Contains(string(container), string(item)))
            return self.native(operator.contains, [container, item], {})
        if isinstance(container, SAny):
            self.unsupported('membership in an opaque value')
        if is_sym(item) or has_sym(item) or has_sym(container):
            for x in list(container):
                if self.truth(self.eq(x, item)):
                    return True
            return False
        return self.native(operator.contains, [container, item], {})
    def get_item(self, obj, key):
        from . import models
        if isinstance(obj, Obj):
            m, owner = mro_lookup(obj.cls, '__getitem__')
            if m is ABSENT:
                self.raise_(TypeError, "'%s' object is not subscriptable" % obj.cls.__name__)
            return self.call(Bound(m, obj), [key], {})
        if isinstance(obj, SDict):
            return self.dict_method(obj, '__getitem__', [key], {})
        if isinstance(obj, (SList, LazyList)):
            return models.list_method(self, obj, '__getitem__', [key], {})
        if isinstance(obj, SStr) or (isinstance(obj, str) and has_sym(key)):
            return models.str_method(self, obj, '__getitem__', [key], {})
        if isinstance(obj, SAny):
            handler = self.class_contracts.get(('getitem', obj.cls))
            if handler:
                return handler(self, obj, key)
            self.unsupported('subscript of an opaque value')
        if isinstance(obj, Poison):
            self.unsupported(obj.why)
        if is_sym(obj):
            self.raise_(TypeError, 'not subscriptable')
        if has_sym(key):
            if isinstance(obj, dict):
                return models.pydict_method(self, obj, '__getitem__', [key], {})
            if isinstance(obj, (list, tuple)) and isinstance(key, (SInt, SBool)):
                return models.list_method(self, obj, '__getitem__', [key], {})
            self.unsupported('subscript with a symbolic index')
        if isinstance(obj, dict) and has_sym(list(obj.keys())):
            return models.pydict_method(self, obj, '__getitem__', [key], {})
        cls = type(obj)
        if is_repo_class(cls):
            m, owner = mro_lookup(cls, '__getitem__')
            if m is not ABSENT and is_repo_func(m):
                return self.call(m, [obj, key], {})
        return self.native(operator.getitem, [obj, key], {})
    def set_item(self, obj, key, value):
        from . import models
        if isinstance(obj, Obj):
            m, owner = mro_lookup(obj.cls, '__setitem__')
            if m is ABSENT:
                self.raise_(TypeError, "'%s' object does not support item assignment" % obj.cls.__name__)
            self.call(Bound(m, obj), [key, value], {})
        elif isinstance(obj, SDict):
            self.dict_method(obj, '__setitem__', [key, value], {})
        elif isinstance(obj, SList) or type(obj) is list or hasattr(obj, 'list_method'):
            models.list_method(self, obj, '__setitem__', [key, value], {})
        elif type(obj) is dict:
            models.pydict_method(self, obj, '__setitem__', [key, value], {})
        elif type(obj).__name__ == 'ndarray' and id(obj) in self.fresh:
            self.native(operator.setitem, [obj, key, value], {})
        elif isinstance(obj, SAny) and ('setitem', obj.cls) in self.class_contracts:
            self.class_contracts['setitem', obj.cls](self, obj, key, value)
        else:
            self.unsupported('item assignment to %r' % (type(obj),))
    def del_item(self, obj, key):
        from . import models
        if isinstance(obj, Obj):
            m, owner = mro_lookup(obj.cls, '__delitem__')
            if m is ABSENT:
                self.raise_(TypeError, "object doesn't support item deletion")
            self.call(Bound(m, obj), [key], {})
        elif isinstance(obj, SDict):
            self.dict_method(obj, '__delitem__', [key], {})
        elif isinstance(obj, SList) or type(obj) is list or hasattr(obj, 'list_method'):
            models.list_method(self, obj, '__delitem__', [key], {})
        elif type(obj) is dict:
            models.pydict_method(self, obj, '__delitem__', [key], {})
        elif isinstance(obj, dict) and id(obj) not in self.fresh and type(obj).__delitem__ is dict.__delitem__:
            # a dictionary of the program, of any content at that time
            if self.ctx.choose([True, False]):
                self.raise_(KeyError, key)
            self.ctx.trace.append(('w', obj, key, ABSENT))
        else:
            self.unsupported('item deletion from %r' % (type(obj),))
    def len_(self, v):
        from . import models
        if isinstance(v, Obj):
            m, owner = mro_lookup(v.cls, '__len__')
            if m is ABSENT:
                self.raise_(TypeError, "object of type '%s' has no len()" % v.cls.__name__)
            return self.call(Bound(m, v), [], {})
        if isinstance(v, (SList, LazyList)):
            return SInt(z3.simplify(models.length_term(v)))
        if isinstance(v, SDict):
            return self.dict_method(v, '__len__', [], {})
        if isinstance(v, SStr):
            return SInt(z3.Length(v.z))
        if isinstance(v, SAny):
            handler = self.class_contracts.get(('len', v.cls))
            if handler:
                return handler(self, v)
            self.unsupported('length of an opaque value')
        if is_sym(v):
            self.raise_(TypeError, 'object has no len()')
        return self.native(len, [v], {})
    def e_Call(self, e, fr):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            cls = self.load('__class__', fr)
            return Super(cls, fr.first)
        f = self.ev(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                it = self.iterate(v)
                if isinstance(it, (SList, LazyList)):
                    handler = self.class_contracts.get(('starcall', id(f)))
                    if handler and a is e.args[-1]:
                        return handler(self, args, it)
                    self.unsupported('call with an argument list of unknown length')
                args.extend(it)
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, SDict):
                    if d.open:
                        handler = self.class_contracts.get(('kwopen', d.label))
                        self.unsupported('call with unknown keyword arguments')
                    items = self.dict_entries(d)
                else:
                    items = d.items()
                for kk, vv in items:
                    if kk in kwargs:
                        self.raise_(TypeError, 'got multiple values for keyword argument %r' % kk)
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        if f is builtins.locals and not args and not kwargs:
            return self.make({k: v for k, v in fr.locals.items() if v is not ABSENT})
        return self.call(f, args, kwargs)
    def e_JoinedStr(self, e, fr):
        from . import models
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                val = self.ev(v.value, fr)
                if has_sym(val):
                    if isinstance(val, SStr) and v.format_spec is None and v.conversion in (-1, 115):
                        parts.append(val)
                    else:
                        parts.append(models.opaque_text(self))
                else:
                    spec = self.ev(v.format_spec, fr) if v.format_spec is not None else ''
                    if v.conversion == 114:
                        val = repr(val)
                    elif v.conversion == 115:
                        val = str(val)
                    parts.append(format(val, spec))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return SStr(z3.Concat(*[string(p) for p in parts])) if len(parts) > 1 else parts[0]
    def e_FormattedValue(self, e, fr):
        return self.ev(e.value, fr)
    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        if fr.yields is None:
            self.unsupported('yield')
        fr.yields.append(v)
        self.ctx.trace.append(('yield', v))
        return None
    def e_YieldFrom(self, e, fr):
        items = self.ev(e.value, fr)
        handler = self.class_contracts.get(('yield from', None))
        if handler and handler(self, fr, items):
            return None
        fr.yields.extend(self.iterate_finite(items))
    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v
    def e_Starred(self, e, fr):
        self.unsupported('starred expression')
    # comprehensions
    def e_ListComp(self, e, fr):
        from . import loops
        return loops.comprehension(self, e, fr, 'list')
    def e_BlockExpr(self, e, fr):
        self.block(e.stmts, fr)
        return self.ev(e.value, fr)
    def e_GeneratorExp(self, e, fr):
        from . import loops
        return loops.comprehension(self, e, fr, 'gen')
    def e_SetComp(self, e, fr):
        from . import loops, models
        return models.make_set(self, list(loops.comprehension(self, e, fr, 'list')))
    def e_DictComp(self, e, fr):
        from . import loops
        return loops.comprehension(self, e, fr, 'dict')
    # iteration
    def iterate(self, v):
        """A finite list of values, or the SList/LazyList it has the items of"""
        from . import models
        if isinstance(v, (SList, LazyList)):
            return v
        if isinstance(v, Obj):
            m, owner = mro_lookup(v.cls, '__iter__')
            if m is not ABSENT and is_repo_class(owner):
                return self.iterate(self.call(Bound(m, v), [], {}))
            if v.payload is not None:
                if isinstance(v.payload, SDict):
                    return self.dict_method(v.payload, '__iter__', [], {})
                return v.payload if isinstance(v.payload, (SList, LazyList)) else list(v.payload)
            self.raise_(TypeError, "'%s' object is not iterable" % v.cls.__name__)
        if isinstance(v, SDict):
            return self.dict_method(v, '__iter__', [], {})
        if isinstance(v, SAny):
            handler = self.class_contracts.get(('iter', v.cls))
            if handler:
                return handler(self, v)
            self.unsupported('iteration over an opaque value')
        if isinstance(v, SStr):
            self.unsupported('iteration over a string of unknown length')
        if is_sym(v):
            self.raise_(TypeError, 'not iterable')
        if isinstance(v, range) and (v.stop - v.start) // v.step > 100000:
            return LazyList(z3.IntVal((v.stop - v.start) // v.step), lambda i, v=v: SInt(z3.simplify(v.start + (i if z3.is_expr(i) else z3.IntVal(i)) * v.step)), repr(v))
        cls = type(v)
        if is_repo_class(cls):
            m, owner = mro_lookup(cls, '__iter__')
            if m is not ABSENT and is_repo_func(m):
                return self.iterate(self.call(m, [v], {}))
        try:
            return list(v)
        except TypeError as err:
            raise PyExc(TypeError, err, err.args)
    def iterate_finite(self, v):
        r = self.iterate(v)
        if isinstance(r, (SList, LazyList)):
            self.unsupported('iteration over a list of unknown length (%s)' % r.label)
        return r
    def isinstance_(self, v, cls):
        """isinstance as bool or z3 Bool"""
        if isinstance(cls, (tuple, list)):
            acc = []
            for c in cls:
                r = self.isinstance_(v, c)
                if r is True:
                    return True
                if r is not False:
                    acc.append(r)
            return z3.Or(*acc) if acc else False
        if isinstance(v, SAny) and v.cls is None:
            handler = self.class_contracts.get(('isinstance', None))
            if handler:
                r = handler(self, v, cls)
                if r is not NotImplemented:
                    return r
            return self.isinst_pred(v, cls)
        t = self.pytype(v)
        if isinstance(v, WeakRef):
            return cls in (weakref.ref, weakref.ReferenceType, object)
        try:
            return issubclass(t, cls)
        except TypeError as err:
            raise PyExc(TypeError, err, err.args)
    def isinst_pred(self, v, cls):
        table = self.isinst.setdefault(v.z.get_id(), {})
        if cls not in table:
            p = z3.Function('isinstance_%s_%x' % (cls.__name__, id(cls)), V, z3.BoolSort())(v.z)
            for other, q in table.items():
                if issubclass(cls, other):
                    self.ctx.assume(z3.Implies(p, q), check=False)
                elif issubclass(other, cls):
                    self.ctx.assume(z3.Implies(q, p), check=False)
                elif exclusive(cls, other):
                    self.ctx.assume(z3.Not(z3.And(p, q)), check=False)
            table[cls] = p
        return table[cls]


BUILTIN_SOLID = (int, float, str, bytes, list, tuple, dict, set, type, type(None), weakref.ref)


def solid(cls):
    """The builtin layout base of a class, if it has one"""
    for b in BUILTIN_SOLID:
        if issubclass(cls, b):
            return b
    if is_repo_class(cls):
        return object
    if cls.__module__ == 'builtins' and cls is not object:
        return cls
    return None


def exclusive(a, b):
    """No object can be an instance of both"""
    x, y = solid(a), solid(b)
    return x is not None and y is not None and x is not y and not issubclass(x, y) and not issubclass(y, x)


_private = {}


def private_sentinel(x):
    """A module's private marker object: an underscore name bound to [] or object()"""
    import sys
    if type(x) not in (list, object) or (type(x) is list and x):
        return False
    if id(x) not in _private:
        found = False
        for name, module in list(sys.modules.items()):
            if name == 'vrml' or name.startswith(('vrml.', 'vrml_accelerate')):
                found = found or any(k.startswith('_') and v is x for k, v in getattr(module, '__dict__', {}).items())
        _private[id(x)] = (found, x)
    return _private[id(x)][0]


def iter_list(items):
    return items
