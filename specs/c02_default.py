PROPERTY = 'C02'
LEVEL = 'proof'
PROOF_MODES = ['pure', 'accel']
CASE_MODES = ['pure', 'accel']
SHARDS = 4
EXPLANATION = ('For each value and single-node field type, in the pure-Python and in the Cython descriptor, __get__/fget/getDefault are executed '
               'symbolically for a field of any name and any default (a value, a callable, or none declared) and two nodes with any stored values: '
               'a stored value is returned itself with no write and no send; otherwise exactly one write, of a coercion result made by this very '
               'read from the declared default (called afresh when callable), which is returned, with no send; two nodes never get the same '
               'result object of coercion; the class read returns the definition. C04 gives that coercion results of array and list types are fresh.')
BOUNDED = ['bounded: every built-in node class and field read twice on two nodes, real pure and compiled builds']
TRUSTED = ['coerce satisfies C04 (checked there)', 'a callable default returns a new object each time (list, OList, _SFVec.defaultDefault)']
ASSUMPTIONS = ['str(field) and str(value) in error messages have no effect']
# --- end of meta
from common import *


def proofs(mode):
    out = []
    for F in value_field_classes():
        for entry in ('__get__', 'fget'):
            out.append(('%s.%s' % (F.__name__, entry), harness(F, entry, True), dict(covers=['stored', 'default', 'refused'])))
        out.append(('%s.__get__ (no default declared)' % F.__name__, harness(F, '__get__', False), dict(covers=['stored', 'default'])))
        out.append(('%s class access' % F.__name__, class_access(F), dict(covers=['class'])))
    return out


def harness(F, entry, declared):
    def run(ctx):
        import z3
        from pvc.engine import PyExc
        from pvc.values import SDict
        interp = make_interp(ctx)
        from vrml import node
        made = []
        default = ctx.any('default') if declared else None
        def called(interp, f, args, kwargs):
            ctx.check('only the default is called, without arguments', f is default and not args and not kwargs, repr(f))
            v = ctx.any('made')
            made.append(v)
            return v
        interp.call_any = called
        f, name = make_field(interp, F, default=default)
        del made[:]
        origin_of = abstract_coerce(interp, F)
        root_contracts(interp)
        def read(client):
            d = client.d
            present = ctx.choose([True, False])
            before = ctx.any('before') if present else None
            if present:
                d.base.append([name, before])
            else:
                from pvc.values import ABSENT
                d.base.append([name, ABSENT])
            mark, calls = len(ctx.trace), len(made)
            try:
                value = interp.call(interp.get_attr(f, entry), [client, node.Node])
            except PyExc as err:
                ctx.cover('refused')
                ctx.check('a stored value is returned', not present)
                ctx.check('only an unacceptable default fails, with ValueError', err.cls is ValueError, str(err))
                ctx.check('a failing default is not stored or announced', len(ctx.trace) == mark)
                return None
            events = ctx.trace[mark:]
            ctx.check('no notification', not [t for t in events if t[0] in ('send', 'rootset')], str(events))
            if present:
                ctx.cover('stored')
                ctx.check('the stored object is returned', value is before, str(value))
                ctx.check('reading a stored value changes nothing', not events and len(made) == calls, str(events))
                return None
            ctx.cover('default')
            writes = [t for t in events if t[0] == 'w']
            ctx.check('exactly the field is stored', len(writes) == 1 and len(events) == 1 and writes[0][1] is client.d and writes[0][2] is name, str(events))
            stored = interp.dict_lookup(client.d, name)
            ctx.check('the stored value is returned', value is stored, '%s %s' % (value, stored))
            what, times = origin_of(stored)
            if declared:
                if len(made) > calls:
                    ctx.check('the canonical form of a new result of the default callable', len(made) == calls + 1 and what is made[-1] and times >= 1, repr(what))
                else:
                    ctx.check('the canonical form of the default', what is default and times >= 1, repr(what))
            else:
                ctx.check('the canonical form of the type default', times >= 1 and default_ok(F, what), '%r' % (what,))
            again = interp.call(interp.get_attr(f, entry), [client, node.Node])
            ctx.check('later reads return the same object', again is stored)
            ctx.check('later reads change nothing', len(ctx.trace) == mark + 1)
            return stored
        a = read(make_client(interp, 'first'))
        if a is not None:
            b = read(make_client(interp, 'second'))
            if b is not None:
                ctx.check('two nodes do not share the coerced default', a is not b)
    return run


def default_ok(F, what):
    import types
    d = F.defaultDefault
    if isinstance(d, types.FunctionType):
        d = d(F('x', 1, 0))
    elif callable(d):
        d = d()
    return same(d, what) and type(d) is type(what)


def class_access(F):
    def run(ctx):
        interp = make_interp(ctx)
        from vrml import node
        f, name = make_field(interp, F, default=ctx.any('default'))
        interp.call_any = lambda *a: ctx.any('made')
        r = interp.call(interp.get_attr(f, '__get__'), [None, node.Node])
        ctx.cover('class')
        ctx.check('reading through the class returns the definition', r is f, repr(r))
        ctx.check('reading through the class changes nothing', not ctx.trace)
    return run


# ------------------------------------------------------------------ bounded cases
def cases(rnd, tier, mode):
    all_modules()
    for cls in node_classes():
        for f in public_fields(cls):
            if is_weak(type(f)) or not hasattr(f, 'coerce') or not hasattr(f, 'defaultobj'):
                continue
            yield dict(kind='default', module=cls.__module__, cls=cls.__name__, field=f.name)
    for F in value_field_classes():
        if not F.nodes:
            yield dict(kind='type', type=F.__name__)
            yield dict(kind='type', type=F.__name__, other=1)
            v = samples(F.__name__, rnd)
            if v is not None:
                yield dict(kind='typedefault', type=F.__name__, value=v)
                # declared by a value which is canonical already (also one that a callable always returns), or nearly so
                yield dict(kind='typedefault', type=F.__name__, value=v, form='canonical')
                yield dict(kind='typedefault', type=F.__name__, value=v, form='same canonical')
                yield dict(kind='typedefault', type=F.__name__, value=v, form='array')
    for name in ('MFFloat', 'MFVec3f', 'SFVec3f', 'MFString', 'MFInt32', 'SFArray'):
        yield dict(kind='callable', type=name, value=samples(name, rnd))


def check_case(case):
    import importlib, numpy
    from vrml import node, protofunctions
    calls = []
    if case['kind'] == 'default':
        cls = getattr(importlib.import_module(case['module']), case['cls'])
        f = protofunctions.getField(cls, case['field'])
    else:
        F = [c for c in value_field_classes() if c.__name__ == case['type']][0]
        if case['kind'] == 'type':
            f = F('prop', 1)
        elif case['kind'] == 'callable':
            shared = concrete(case['value'])
            def make():
                calls.append(1)
                return list(shared) if isinstance(shared, (list, tuple)) else shared
            f = F('prop', 1, make)
        else:
            value = concrete(case['value'])
            form = case.get('form')
            if form:
                value = F('prop', 1).coerce(value)
            if form == 'array':
                value = numpy.array(value)
                if value.dtype.kind not in 'fiu' or F.__name__ in ('SFTime',) or not value.shape:
                    return None
                value = value.astype('d')
            f = F('prop', 1, (lambda: value) if form == 'same canonical' else value)
        # the name a value is stored under may be that of an unrelated class attribute
        cls = type('T', (node.Node,), {'attribute': f, 'prop': 'unrelated'} if case.get('other') else {'prop': f})
    if not case.get('other') and getattr(cls, f.name, f) is not f and case['kind'] != 'default':
        return 'class access does not return the definition'
    if type(f).__get__(f, None, cls) is not f:
        return 'reading through the class does not return the definition'
    a, b = cls.__new__(cls), cls.__new__(cls)
    before = dict(a.__dict__)
    with Recorder() as rec:
        x = type(f).__get__(f, a, cls)
        y = type(f).__get__(f, b, cls)
        x2 = f.fget(a)
    if rec.events:
        return 'reading announced %r' % (rec.events,)
    if a.__dict__.get(f.name) is not x or x2 is not x:
        return 'the default is not stored, or a later read differs'
    extra = set(a.__dict__) - set(before) - {f.name}
    if extra:
        return 'reading stored %r' % (extra,)
    if isinstance(x, (list, numpy.ndarray)):
        if x is y or (isinstance(x, numpy.ndarray) and x.size and numpy.shares_memory(x, y)):
            return 'two nodes share the default %r' % (x,)
        if isinstance(x, numpy.ndarray):
            d = f.defaultobj() if callable(f.defaultobj) else f.defaultobj
            if isinstance(d, numpy.ndarray) and d.size and numpy.shares_memory(x, d):
                return 'the stored default is the declared default object'
        elif x is f.defaultobj:
            return 'the stored default is the declared default object'
    d = f.defaultobj
    if callable(d):
        d = d()
    if not same(f.coerce(d), x):
        return 'read %r, the canonical form of the default %r is %r' % (x, d, f.coerce(d))
    marker = object()
    c = cls.__new__(cls)
    c.__dict__[f.name] = marker
    state = dict(c.__dict__)
    with Recorder() as rec:
        if type(f).__get__(f, c, cls) is not marker or f.fget(c) is not marker:
            return 'a stored value is not returned itself'
    if rec.events or c.__dict__ != state:
        return 'reading a stored value has effects'
    for falsy in (0, [], '', None):
        c.__dict__[f.name] = falsy
        if type(f).__get__(f, c, cls) is not falsy:
            return 'the stored value %r is not returned' % (falsy,)
    return None
