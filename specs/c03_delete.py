PROPERTY = 'C03'
LEVEL = 'proof'
PROOF_MODES = ['pure', 'accel']
CASE_MODES = ['pure', 'accel']
SHARDS = 4
EXPLANATION = ('For every field type, in the pure-Python and in the Cython descriptor, __delete__ and fdel are executed symbolically for a field '
               'of any name and a node with any stored values: with a value exactly that entry is removed and exactly one ("del", field) sent from '
               'the node after the removal (none when silent), and the next read computes the default; without a value AttributeError naming '
               'the field, no write and no send.')
BOUNDED = ['bounded: every built-in node class and field, real pure and compiled builds']
TRUSTED = ['coerce satisfies C04 (checked there)']
ASSUMPTIONS = ['receivers of notifications do not write the field being deleted']
# --- end of meta
from common import *


def proofs(mode):
    out = []
    for F in field_classes():
        for entry in ('__delete__', 'fdel', 'fdel silent'):
            out.append(('%s.%s' % (F.__name__, entry), harness(F, entry), dict(covers=['deleted', 'absent'])))
    return out


def harness(F, entry):
    def run(ctx):
        from pvc.engine import PyExc
        from pvc.values import ABSENT, SStr
        interp = make_interp(ctx)
        from vrml import node
        default = ctx.any('default')
        interp.call_any = lambda *a: ctx.any('made')
        f, name = make_field(interp, F, default=default)
        origin_of = abstract_coerce(interp, F)
        root_contracts(interp)
        client = make_client(interp)
        present = ctx.choose([True, False])
        before = ctx.any('before') if present else ABSENT
        client.d.base.append([name, before])
        try:
            if entry == '__delete__':
                interp.call(interp.get_attr(f, '__delete__'), [client])
            elif entry == 'fdel':
                interp.call(interp.get_attr(f, 'fdel'), [client])
            else:
                interp.call(interp.get_attr(f, 'fdel'), [client], {'notify': 0})
        except PyExc as err:
            ctx.cover('absent')
            ctx.check('deleting a field which has a value succeeds', not present, str(err))
            ctx.check('a missing value raises AttributeError', err.cls is AttributeError, str(err))
            ctx.check('the error names the field', any(a is name for a in err.pyargs) or any(isinstance(a, SStr) and str(name.z) in str(a.z) for a in err.pyargs), str(err))
            ctx.check('an error changes and announces nothing', not ctx.trace, str(ctx.trace))
            return
        ctx.cover('deleted')
        ctx.check('a missing value raises AttributeError', present)
        writes, sent = dict_writes(ctx), sends(ctx)
        ctx.check('exactly the value is removed', len(writes) == 1 and writes[0][1] is client.d and writes[0][2] is name and writes[0][3] is ABSENT, str(writes))
        if entry == 'fdel silent':
            ctx.check('no notification when silent', not sent, str(sent))
        else:
            ctx.check('exactly one notification', len(sent) == 1, str(sent))
            if len(sent) == 1:
                _, signal, sender, args, named = sent[0]
                ctx.check('it is ("del", field)', type(signal) is tuple and len(signal) == 2 and signal[0] == 'del' and signal[1] is f, str(signal))
                ctx.check('from the node', sender is client, str(sender))
                ctx.check('after the removal', [t for t in ctx.trace if t is sent[0] or any(t is w for w in writes)][-1] is sent[0])
        if F in value_field_classes():
            try:
                value = interp.call(interp.get_attr(f, '__get__'), [client, node.Node])
            except PyExc:
                return
            what, times = origin_of(value)
            ctx.check('the field reads as its default again', times >= 1 and what is not before, repr(what))
    return run


# ------------------------------------------------------------------ bounded cases
def cases(rnd, tier, mode):
    all_modules()
    for cls in node_classes():
        for f in public_fields(cls):
            if not hasattr(f, 'fdel'):
                continue
            for entry in ('delete', 'fdel', 'silent'):
                yield dict(kind='delete', module=cls.__module__, cls=cls.__name__, field=f.name, entry=entry)
    for F in field_classes():
        for entry in ('delete', 'fdel', 'silent'):
            yield dict(kind='type', type=F.__name__, entry=entry)


def check_case(case):
    import importlib
    from vrml import node, protofunctions
    if case['kind'] == 'delete':
        cls = getattr(importlib.import_module(case['module']), case['cls'])
        f = protofunctions.getField(cls, case['field'])
    else:
        F = [c for c in field_classes() if c.__name__ == case['type']][0]
        f = F('prop', 1)
        cls = type('T', (node.Node,), {'prop': f})
    def remove(n):
        if case['entry'] == 'delete':
            type(f).__delete__(f, n)
        elif case['entry'] == 'fdel':
            f.fdel(n)
        else:
            f.fdel(n, notify=0)
    n = cls.__new__(cls)
    n.__dict__['unrelated'] = 5
    before = dict(n.__dict__)
    with Recorder() as rec:
        try:
            remove(n)
        except AttributeError as err:
            if f.name not in str(err):
                return 'the error does not name the field: %s' % err
        except Exception as err:
            return 'deleting an unset field raised %s: %s' % (type(err).__name__, err)
        else:
            return 'deleting an unset field raised nothing'
    if rec.events or n.__dict__ != before:
        return 'deleting an unset field had effects: %r %r' % (rec.events, n.__dict__)
    for marker in (object(), 0, [], None, False):
        n.__dict__[f.name] = marker
        with Recorder() as rec:
            remove(n)
        if n.__dict__ != before:
            return 'after deletion of %r: %r' % (marker, n.__dict__)
        if case['entry'] == 'silent':
            if rec.events:
                return 'announced although silence was asked for'
        elif len(rec.events) != 1:
            return '%d notifications' % len(rec.events)
        else:
            signal, sender, named = rec.events[0]
            if not (isinstance(signal, tuple) and signal[0] == 'del' and signal[1] is f and sender is n):
                return 'notification %r from %r' % (signal, sender)
    if not is_weak(type(f)) and not f.nodes:
        other = cls.__new__(cls)
        with Recorder() as rec:
            if not same(type(f).__get__(f, n, cls), type(f).__get__(f, other, cls)) and not f.nodes:
                return 'the field does not read as its default again'
        if rec.events:
            return 'reading the default announced %r' % (rec.events,)
    return None
