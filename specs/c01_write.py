PROPERTY = 'C01'
LEVEL = 'proof'
PROOF_MODES = ['pure', 'accel']
CASE_MODES = ['pure', 'accel']
SHARDS = 4
EXPLANATION = ('For each value and single-node field type, in the pure-Python and in the Cython descriptor, __set__ and fset are executed '
               'symbolically for a field of any name, a node with any stored values and any written value, against the contract: one write of '
               'the canonical value under the field\'s name, then exactly one ("set", field) send carrying that value (none when silent), or '
               'ValueError with no write and no send. coerce is used by its contract (C04). Bounded cases run the same contract on the real code.')
BOUNDED = ['bounded: every built-in node class and field with sample values, real pure and compiled builds (replay of the contracts)']
TRUSTED = ['coerce satisfies C04 (checked there)', 'root bookkeeping of node fields satisfies C07']
ASSUMPTIONS = ['receivers of notifications do not write the field being written', 'str(field) and str(value) in error messages have no effect']
# --- end of meta
from common import *


def proofs(mode):
    out = []
    for F in value_field_classes():
        for entry in ('__set__', 'fset', 'fset silent'):
            out.append(('%s.%s' % (F.__name__, entry), harness(F, entry), dict(covers=['stored', 'refused'])))
    return out


def harness(F, entry):
    def run(ctx):
        from pvc.engine import PyExc
        interp = make_interp(ctx)
        from vrml import node
        isnode = issubclass(F, node._SFNode)
        f, name = make_field(interp, F, default=ctx.any('default'))
        origin_of = abstract_coerce(interp, F)
        root_contracts(interp)
        client = make_client(interp)
        value = ctx.any('value')
        notify = entry != 'fset silent'
        try:
            if entry == '__set__':
                interp.call(interp.get_attr(f, '__set__'), [client, value])
                result = None
            elif entry == 'fset':
                result = interp.call(interp.get_attr(f, 'fset'), [client, value])
            else:
                result = interp.call(interp.get_attr(f, 'fset'), [client, value], {'notify': 0})
        except PyExc as err:
            ctx.cover('refused')
            ctx.check('a refusal raises ValueError', err.cls is ValueError, str(err))
            ctx.check('a refusal changes nothing', not dict_writes(ctx), str(ctx.trace))
            ctx.check('a refusal announces nothing', not sends(ctx), str(ctx.trace))
            return
        ctx.cover('stored')
        writes, sent = dict_writes(ctx), sends(ctx)
        names = [w[2] for w in writes]
        ctx.check('only the field is written', all(w[0] == 'w' and w[1] is client.d and w[2] is name for w in writes) and writes, str(writes))
        stored = interp.dict_lookup(client.d, name)
        what, times = origin_of(stored)
        ctx.check('the canonical form of the written value is stored', what is value and times >= 1, str(stored))
        if notify:
            ctx.check('exactly one notification', len(sent) == 1, str(sent))
            if len(sent) == 1:
                _, signal, sender, args, named = sent[0]
                ctx.check('it is ("set", field)', type(signal) is tuple and len(signal) == 2 and signal[0] == 'set' and signal[1] is f, str(signal))
                ctx.check('from the node', sender is client, str(sender))
                ctx.check('carrying the stored value', named.get('value') is stored and not args, str(named))
                ctx.check('after the value is stored', [t for t in ctx.trace if t is sent[0] or any(t is w for w in writes)][-1] is sent[0])
        else:
            ctx.check('no notification when silent', not sent, str(sent))
        if entry != '__set__':
            ctx.check('fset returns the stored value', result is stored, str(result))
        mark = len(ctx.trace)
        again = interp.call(interp.get_attr(f, '__get__'), [client, node.Node])
        ctx.check('the next read returns the stored value', again is stored, str(again))
        ctx.check('reading it changes and announces nothing', len(ctx.trace) == mark, str(ctx.trace[mark:]))
    return run


# ------------------------------------------------------------------ bounded cases
def cases(rnd, tier, mode):
    all_modules()
    todo = []
    for cls in node_classes():
        for f in public_fields(cls):
            F = type(f)
            if F not in value_field_classes() or f.nodes or f.name.startswith(' root') :
                continue
            key = (F.__name__)
            todo.append((cls.__module__, cls.__name__, f.name, F.__name__))
    rnd.shuffle(todo)
    seen = {}
    for module, cname, fname, tname in todo:
        n = seen.get(tname, 0)
        if tier == 'quick' and n >= 12:
            continue
        seen[tname] = n + 1
        for entry in ('set', 'fset', 'silent'):
            yield dict(kind='write', module=module, cls=cname, field=fname, entry=entry, value=samples(tname, rnd))
        for bad in UNSUPPORTED.get(tname, ())[:(2 if tier == 'quick' else 9)]:
            yield dict(kind='refuse', module=module, cls=cname, field=fname, entry=rnd.choice(['set', 'fset']), value=bad)
    # stand-alone types, which no built-in node uses
    for F in value_field_classes():
        if F.nodes:
            continue
        for i in range(3 if tier == 'quick' else 12):
            v = samples(F.__name__, rnd)
            if v is None:
                continue
            yield dict(kind='type', type=F.__name__, entry=rnd.choice(['set', 'fset', 'silent']), value=v)
        for bad in UNSUPPORTED.get(F.__name__, ()):
            yield dict(kind='typerefuse', type=F.__name__, entry=rnd.choice(['set', 'fset']), value=bad)
    for entry in ('set', 'fset', 'silent'):
        yield dict(kind='node', entry=entry, value='Box')
        yield dict(kind='node', entry=entry, value='NULL')
        yield dict(kind='noderefuse', entry=entry, value='str')


def build(case):
    import importlib
    from vrml import field, node, fieldtypes
    if case['kind'] in ('type', 'typerefuse'):
        F = [c for c in value_field_classes() if c.__name__ == case['type']][0]
        f = F('prop', 1)
        other = fieldtypes.SFFloat('other', 1, 2.5)
        cls = type('T', (node.Node,), {'prop': f, 'other': other})
        n = cls(other=4.0)
        return n, f
    if case['kind'].startswith('node'):
        from vrml.vrml97 import basenodes
        n = basenodes.Shape()
        return n, basenodes.Shape.geometry
    cls = getattr(importlib.import_module(case['module']), case['cls'])
    n = cls.__new__(cls)
    from vrml import protofunctions
    return n, protofunctions.getField(cls, case['field'])


def value_of(case):
    from vrml import node
    from vrml.vrml97 import basenodes
    if case['kind'].startswith('node'):
        return {'Box': basenodes.Box(), 'NULL': None, 'str': 'a box'}[case['value']]
    return concrete(case['value'])


def check_case(case):
    from vrml import field
    n, f = build(case)
    value = value_of(case)
    before = dict(n.__dict__)
    refuse = case['kind'].endswith('refuse')
    with Recorder() as rec:
        try:
            if case['entry'] == 'set':
                type(f).__set__(f, n, value)
            elif case['entry'] == 'fset':
                r = f.fset(n, value)
            else:
                r = f.fset(n, value, notify=0)
        except ValueError:
            if not refuse:
                return 'supported value refused: %r' % (case,)
            if n.__dict__ != before:
                return 'a refused value changed the node'
            if rec.events:
                return 'a refused value was announced'
            return None
        except Exception as err:
            return 'raised %s: %s' % (type(err).__name__, err)
    if refuse:
        return 'unsupported value %r accepted as %r' % (value, n.__dict__.get(f.name))
    if f.name not in n.__dict__:
        return 'value not stored'
    stored = n.__dict__[f.name]
    rest = {k: v for k, v in n.__dict__.items() if k != f.name}
    if case['kind'].startswith('node'):
        rest.pop(' root', None)        # bookkeeping of the root scenegraph (C07)
    if set(rest) != set(k for k in before if k != f.name) or any(rest[k] is not before[k] for k in rest):
        return 'other attributes changed: %r' % (sorted(n.__dict__),)
    if not same(f.coerce(value), stored) and stored is not value:
        return 'stored %r is not the canonical form of %r' % (stored, value)
    if case['entry'] == 'silent':
        if rec.events:
            return 'announced although silence was asked for: %r' % (rec.events,)
    else:
        if len(rec.events) != 1:
            return '%d notifications: %r' % (len(rec.events), rec.events)
        signal, sender, named = rec.events[0]
        if not (isinstance(signal, tuple) and signal[0] == 'set' and signal[1] is f):
            return 'signal %r' % (signal,)
        if sender is not n:
            return 'sender %r' % (sender,)
        if named.get('value') is not stored:
            return 'notification carries %r, stored %r' % (named.get('value'), stored)
    if case['entry'] != 'set' and r is not stored:
        return 'fset returned %r' % (r,)
    with Recorder() as rec:
        if type(f).__get__(f, n, type(n)) is not stored:
            return 'the next read does not return the stored value'
    if rec.events:
        return 'reading announced %r' % (rec.events,)
    return None
