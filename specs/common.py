"""Shared by the specifications: symbolic set-up and concrete helpers"""
import importlib, math, os, struct


# ------------------------------------------------------------------ symbolic
def all_modules():
    for name in ('vrml.field', 'vrml.fieldtypes', 'vrml.node', 'vrml.route', 'vrml.vrml97.nodetypes',
                 'vrml.vrml97.basenodes', 'vrml.vrml97.scenegraph', 'vrml.vrml97.shaders', 'vrml.vrml97.nurbs',
                 'vrml.vrml97.script'):
        importlib.import_module(name)


def subclasses(cls):
    out = []
    for c in cls.__subclasses__():
        out.append(c)
        out.extend(subclasses(c))
    return out


def field_classes():
    """Every concrete field type of the library"""
    all_modules()
    from vrml import field
    seen = []
    for c in subclasses(field.Field):
        if c not in seen and c.__module__.startswith('vrml'):
            seen.append(c)
    return sorted(seen, key=lambda c: (c.__module__, c.__qualname__))


def is_weak(F):
    from vrml import field
    return issubclass(F, field.WeakField)


def is_list_field(F):
    from vrml import node
    return issubclass(F, node._MFNode)


def value_field_classes():
    return [F for F in field_classes() if not is_weak(F) and not is_list_field(F)]


def imports():
    from pvc import values, engine, interp
    return values, engine, interp


def make_interp(ctx, *contracts):
    from pvc.interp import Interp
    return Interp(ctx, contracts)


def resolved(F, name):
    """The function a method call on an instance of F reaches, unwrapped"""
    for c in F.__mro__:
        if name in c.__dict__:
            f = c.__dict__[name]
            return getattr(f, '__func__', f)
    return None


def sends(ctx):
    return [t for t in ctx.trace if t[0] == 'send']


def dict_writes(ctx):
    """Heap writes, apart from those to objects allocated on the path"""
    return [t for t in ctx.trace if t[0] in ('w', 'l') and not allocated(ctx, t[1])]


def allocated(ctx, o):
    if getattr(o, 'fresh', False) or getattr(o, 'fresh_local', False):
        return True
    if isinstance(o, (list, dict)) and id(o) in ctx.interp.fresh:
        return True
    return False


def abstract_coerce(interp, F, kinds=('ValueError', 'TypeError', 'OverflowError'), cls=None):
    """C04's contract of coerce: a canonical value of the argument, or a refusal"""
    ctx = interp.ctx
    origin = {}
    def handler(interp, args, kwargs):
        value = args[1] if len(args) > 1 else kwargs['value']
        outcome = ctx.choose(['ok'] + list(kinds))
        if outcome != 'ok':
            interp.raise_({'ValueError': ValueError, 'TypeError': TypeError, 'OverflowError': OverflowError}[outcome], 'refused')
        result = ctx.any('canonical', cls)
        origin[id(result)] = (result, value)
        return result
    f = resolved(F, 'coerce')
    interp.contract(f, handler, '%s.coerce (C04)' % F.__name__)
    def origin_of(value):
        seen = 0
        while id(value) in origin:
            value = origin[id(value)][1]
            seen += 1
        return value, seen
    return origin_of


def root_contracts(interp):
    """Root bookkeeping of node fields, decided by C07"""
    from vrml import node
    if not hasattr(node, 'RootScenegraphNode'):
        return
    ctx = interp.ctx
    R = node.RootScenegraphNode
    def fget(interp, args, kwargs):
        return ctx.any('root')
    def fset(interp, args, kwargs):
        ctx.trace.append(('rootset', args[1], args[2] if len(args) > 2 else kwargs.get('value'), args[3] if len(args) > 3 else kwargs.get('notify', 1)))
        return None
    f = resolved(R, 'fset')
    interp.contract(f, fset, 'RootScenegraphNode.fset (C07)')
    from vrml import field
    g = field.WeakField.__dict__['fget']
    interp.contract(g, fget, 'WeakField.fget of the root field (C07)')


def make_field(interp, F, default=None, name=None):
    """A field definition of type F with any name and default"""
    import z3
    ctx = interp.ctx
    if name is None:
        name = ctx.str('name')
        ctx.assume(z3.Length(name.z) > 0)
    f = interp.call(F, [name, 1] + ([default] if default is not None else []))
    ctx.trace[:] = []
    return f, name


def make_client(interp, label='client', cls=None):
    from vrml import node
    return interp.ctx.obj(cls or node.Node, label, open=True)


# ------------------------------------------------------------------ concrete
def float_bits(x):
    return struct.pack('>d', x)


class Recorder(object):
    """Records every dispatcher message while active"""
    def __init__(self):
        self.events = []
    def __call__(self, signal=None, sender=None, **named):
        self.events.append((signal, sender, named))
    def __enter__(self):
        from pydispatch import dispatcher
        dispatcher.connect(self, signal=dispatcher.Any, sender=dispatcher.Any)
        return self
    def __exit__(self, *a):
        from pydispatch import dispatcher
        dispatcher.disconnect(self, signal=dispatcher.Any, sender=dispatcher.Any)


def same(a, b):
    """Equality of field values, with arrays compared by type and bits of value"""
    import numpy
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        if not (isinstance(a, numpy.ndarray) and isinstance(b, numpy.ndarray)):
            return False
        return a.dtype == b.dtype and a.shape == b.shape and bool(numpy.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        if not isinstance(a, list) or not isinstance(b, list):
            return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def node_classes():
    all_modules()
    from vrml import node
    from vrml.vrml97 import basenodes
    out = []
    for c in subclasses(node.Node):
        if c.__module__.startswith('vrml') and c not in out:
            out.append(c)
    return sorted(out, key=lambda c: (c.__module__, c.__name__))


# sample values by field type: (supported, unsupported)
def samples(type_name, rnd):
    import numpy
    f = lambda: rnd.choice([0.0, 1.0, -1.0, 0.5, -2.25, 1e-7, 3e8, rnd.uniform(-10, 10)])
    def vec(n):
        v = [f() for i in range(n)]
        return rnd.choice([tuple(v), list(v), ['nd', 'd', v], ['nd', 'f', v], ['nd', 'i', [int(x) % 100 for x in v]]])
    base = type_name
    dims = {'SFVec2f': 2, 'SFVec3f': 3, 'SFVec4f': 4, 'SFVec2d': 2, 'SFVec3d': 3, 'SFVec4d': 4, 'SFRotation': 4, 'SFColor': 3}
    if base in dims:
        return vec(dims[base])
    mdims = {'MFVec2f': 2, 'MFVec3f': 3, 'MFVec4f': 4, 'MFVec2d': 2, 'MFVec3d': 3, 'MFVec4d': 4, 'MFRotation': 4, 'MFColor': 3}
    if base in mdims:
        return [[f() for i in range(mdims[base])] for j in range(rnd.choice([0, 1, 2, 5]))]
    mats = {'SFMatrix3f': 3, 'SFMatrix4f': 4, 'SFMatrix3d': 3, 'SFMatrix4d': 4}
    if base in mats:
        return [[f() for i in range(mats[base])] for j in range(mats[base])]
    if base in ('MFMatrix3f', 'MFMatrix3d'):
        return [[[f() for i in range(3)] for j in range(3)] for k in range(rnd.choice([1, 2]))]
    if base in ('MFMatrix4f', 'MFMatrix4d'):
        return [[[f() for i in range(4)] for j in range(4)] for k in range(rnd.choice([1, 2]))]
    if base in ('SFFloat', 'SFTime'):
        return rnd.choice([f(), int(f()), str(f())])
    if base == 'SFBool':
        return rnd.choice([0, 1, True, False, 'TRUE', 'false', '0'])
    if base in ('SFInt32',):
        return rnd.choice([0, -5, 2 ** 31 - 1, '17', 3.7])
    if base in ('SFUInt32',):
        return rnd.choice([0, 5, 2 ** 32 - 1, '17'])
    if base in ('MFInt32',):
        return [rnd.randint(-100, 100) for i in range(rnd.choice([0, 1, 4]))]
    if base in ('MFUInt32', 'SFImage'):
        return [rnd.randint(0, 100) for i in range(rnd.choice([0, 1, 4]))]
    if base in ('MFFloat', 'MFFloat32', 'MFTime', 'SFArray', 'SFArray32'):
        return [f() for i in range(rnd.choice([0, 1, 4]))]
    if base == 'SFString':
        return rnd.choice(['', 'x', 'a "b" \\', 'caf\u00e9', ['one'], ['a', 'b']])
    if base == 'MFString':
        return rnd.choice([[], ['x'], ['a', 'b "c"'], 'single'])
    return None


def concrete(v):
    """A sample value from its JSON form"""
    import numpy
    if isinstance(v, list) and len(v) == 3 and v[0] == 'nd':
        return numpy.array(v[2], v[1])
    return v


UNSUPPORTED = {
    'SFFloat': ['not a number', {'x': 1}, [1, 2]], 'SFTime': ['abc', {'x': 1}], 'SFInt32': ['q', {'x': 1}], 'SFUInt32': ['q', {'x': 1}],
    'SFVec2f': [[1], [1, 2, 3], 'a b', {'x': 1}], 'SFVec3f': [[1, 2], [1, 2, 3, 4], 'a b c', {'x': 1}], 'SFVec4f': [[1], 'x', {'x': 1}],
    'SFVec2d': [[1], [1, 2, 3], {'x': 1}], 'SFVec3d': [[1, 2], {'x': 1}], 'SFVec4d': [[1], {'x': 1}],
    'SFRotation': [[1, 2, 3], 'q', {'x': 1}], 'SFColor': [[1, 2], 'no-such-colour', {'x': 1}],
    'MFVec2f': [[1, 2, 3], 'a', {'x': 1}], 'MFVec3f': [[1, 2], 'a', {'x': 1}], 'MFVec2d': [[1, 2, 3], {'x': 1}], 'MFVec3d': [[1, 2], {'x': 1}],
    'MFRotation': [[1, 2, 3], {'x': 1}], 'MFColor': [[1, 2], ['no-such-colour']],
    'MFInt32': [['a'], {'x': 1}, 'a b'], 'MFUInt32': [['a'], {'x': 1}], 'SFImage': [['a'], {'x': 1}],
    'MFFloat': [['a'], {'x': 1}, 'a b'], 'MFFloat32': [['a'], {'x': 1}], 'MFTime': [['a'], {'x': 1}],
}


def public_fields(cls):
    from vrml import protofunctions
    return sorted(protofunctions.getFields(cls), key=lambda f: f.name)
