PROPERTY = 'C23'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure', 'accel']
EXPLANATION = ('For every event type, __set__ and __get__ are executed symbolically for a port of any name, a node with any stored values and with or '
               'without a handler (which may fail), and any value: the handler of that name is called exactly once with the value before anything is '
               'stored or sent, then the value is stored under the port name and one ("set", port) is sent from the node (none when silent); a failing '
               'handler leaves no write and no send; an unset port raises AttributeError on reading.')
BOUNDED = ['bounded: every event type with present, absent and failing handlers on the real code']
TRUSTED = ['robustApply calls the handler exactly once with the value']
ASSUMPTIONS = ['handlers do not themselves send to the same port']
# --- end of meta
from common import *


def event_classes():
    all_modules()
    from vrml import field
    return [field.Event] + sorted((c for c in subclasses(field.Event) if c.__module__.startswith('vrml')), key=lambda c: c.__name__)


def proofs(mode):
    out = []
    for E in event_classes():
        out.append(('%s.__set__' % E.__name__, setting(E, 'default'), dict(covers=['handled', 'unhandled', 'failed'])))
        out.append(('%s.__set__ silent' % E.__name__, setting(E, 'silent'), dict(covers=['handled', 'unhandled', 'failed'])))
        out.append(('%s.__set__ notify' % E.__name__, setting(E, 'notify'), dict(covers=['handled', 'unhandled', 'failed'])))
        out.append(('%s.__get__' % E.__name__, getting(E), dict(covers=['value', 'unset', 'class'])))
    return out


def make_event(interp, E):
    import z3
    ctx = interp.ctx
    name = ctx.str('name')
    ctx.assume(z3.Length(name.z) > 0)
    e = interp.call(E, [name, ctx.choose([0, 1])])
    ctx.trace[:] = []
    return e, name


def setting(E, how):
    def run(ctx):
        import z3
        from pvc.engine import PyExc
        from pvc.values import Model, string
        interp = make_interp(ctx)
        from vrml import node
        e, name = make_event(interp, E)
        client = make_client(interp)
        value = ctx.any('value')
        kind = ctx.choose(['handled', 'unhandled', 'failed'])
        calls = []
        def handler(interp, args, kwargs):
            calls.append((args, kwargs, len(ctx.trace)))
            ctx.trace.append(('handler',))
            if kind == 'failed':
                interp.raise_(KeyError, 'handler')
            return ctx.any('handled')
        method = Model(handler, 'handler')
        asked = []
        def getattr_(interp, obj, attr, *default):
            asked.append((obj, attr))
            ctx.check('the handler of this event is looked up', z3.And(z3.BoolVal(obj is client), string(attr) == z3.Concat(z3.StringVal('on_'), name.z)), repr(attr))
            if kind == 'unhandled':
                if not default:
                    interp.raise_(AttributeError, attr)
                return default[0]
            return method
        interp.class_contracts['getattr', None] = getattr_
        from pydispatch import robustapply
        def robust(interp, args, kwargs):
            ctx.check('the handler is applied', args[0] is method, repr(args[0]))
            return interp.call(args[0], args[1:], {})
        interp.contract(robustapply.robustApply, robust, 'pydispatch.robustapply.robustApply')
        args = {'default': [], 'silent': [0], 'notify': [1]}[how]
        try:
            interp.call(interp.get_attr(e, '__set__'), [client, value] + args)
        except PyExc as err:
            ctx.cover('failed')
            ctx.check('only a failing handler fails the write', kind == 'failed' and err.cls is KeyError, str(err))
            ctx.check('a failing handler leaves the port unchanged and unannounced', ctx.trace == [('handler',)], str(ctx.trace))
            return
        ctx.check('a failing handler is not ignored', kind != 'failed')
        ctx.cover(kind)
        if kind == 'handled':
            ctx.check('the handler is called exactly once', len(calls) == 1)
            if calls:
                ctx.check('with that value', len(calls[0][0]) == 1 and calls[0][0][0] is value, str(calls))
                ctx.check('before anything else', calls[0][2] == 0, str(ctx.trace))
        else:
            ctx.check('nothing is called without a handler', not calls)
        events = [t for t in ctx.trace if t[0] != 'handler']
        writes = [t for t in events if t[0] == 'w' and not allocated(ctx, t[1])]
        sent = [t for t in events if t[0] == 'send']
        ctx.check('the value becomes the last value, and nothing else changes', len(writes) == 1 and writes[0][1] is client.d and writes[0][2] is name and writes[0][3] is value, str(writes))
        if how == 'silent':
            ctx.check('no announcement when silent', not sent)
        else:
            ctx.check('exactly one announcement', len(sent) == 1, str(sent))
            if len(sent) == 1:
                _, signal, sender, a, named = sent[0]
                ctx.check('it is ("set", port) from the node with the value', type(signal) is tuple and len(signal) == 2 and signal[0] == 'set' and signal[1] is e and sender is client and named.get('value') is value, str(sent))
                ctx.check('after the value is stored', events[-1] is sent[0], str(events))
        mark = len(ctx.trace)
        ctx.check('the port reads as the value', interp.call(interp.get_attr(e, '__get__'), [client, node.Node]) is value)
        ctx.check('reading has no effect', len(ctx.trace) == mark)
    return run


def getting(E):
    def run(ctx):
        from pvc.engine import PyExc
        from pvc.values import ABSENT
        interp = make_interp(ctx)
        from vrml import node
        e, name = make_event(interp, E)
        if ctx.choose([True, False]):
            ctx.cover('class')
            ctx.check('reading through the class gives the port', interp.call(interp.get_attr(e, '__get__'), [None, node.Node]) is e)
            return
        client = make_client(interp)
        present = ctx.choose([True, False])
        last = ctx.any('last') if present else ABSENT
        client.d.base.append([name, last])
        try:
            r = interp.call(interp.get_attr(e, '__get__'), [client, node.Node])
        except PyExc as err:
            ctx.cover('unset')
            ctx.check('a port with a value can be read', not present)
            ctx.check('an unset port raises AttributeError', err.cls is AttributeError, str(err))
        else:
            ctx.cover('value')
            ctx.check('the last value is read', present and r is last, repr(r))
        ctx.check('reading has no effect', not ctx.trace)
    return run


def cases(rnd, tier, mode):
    for E in event_classes():
        for handler in ('absent', 'present', 'event', 'failing'):
            for direction in (0, 1):
                for entry in ('attribute', 'notify', 'silent'):
                    yield dict(kind='send', type=E.__name__, handler=handler, direction=direction, entry=entry)


def check_case(case):
    from vrml import node
    E = [c for c in event_classes() if c.__name__ == case['type']][0]
    e = E('port', case['direction'])
    log = []
    class Failure(Exception):
        pass
    body = {'port': e}
    if case['handler'] == 'present':
        def on_port(self, value):
            log.append(('handler', value, self.__dict__.get('port')))
        body['on_port'] = on_port
    elif case['handler'] == 'event':
        def on_port(self, value, event):
            log.append(('handler', value, self.__dict__.get('port')))
            if event is not e:
                log.append(('wrong event', event))
        body['on_port'] = on_port
    elif case['handler'] == 'failing':
        def on_port(self, value):
            raise Failure()
        body['on_port'] = on_port
    cls = type('T', (node.Node,), body)
    n = cls()
    n.__dict__['other'] = 3
    if cls.port is not e:
        return 'reading through the class does not give the port'
    try:
        n.port
    except AttributeError:
        pass
    else:
        return 'an unset port reads as %r' % (n.port,)
    for round_, value in enumerate([object(), None, 0, [1]]):
        del log[:]
        before = dict(n.__dict__)
        with Recorder() as rec:
            try:
                if case['entry'] == 'attribute':
                    n.port = value
                elif case['entry'] == 'notify':
                    E.__set__(e, n, value, 1)
                else:
                    E.__set__(e, n, value, notify=0)
            except Failure:
                if case['handler'] != 'failing':
                    return 'failed'
                if rec.events or n.__dict__ != before:
                    return 'a failing handler left changes'
                continue
            if case['handler'] == 'failing':
                return 'the failure of the handler was swallowed'
        if case['handler'] != 'absent':
            if len(log) != 1 or log[0][1] is not value:
                return 'handler calls: %r' % (log,)
            if log[0][2] is not before.get('port'):
                return 'the handler was called after the value was stored'
        if n.port is not value:
            return 'the port reads as %r' % (n.port,)
        if set(n.__dict__) != set(before) | {'port'}:
            return 'other attributes changed'
        if case['entry'] == 'silent':
            if rec.events:
                return 'announced although silence was asked for'
        elif len(rec.events) != 1:
            return '%d announcements' % len(rec.events)
        else:
            signal, sender, named = rec.events[0]
            if not (signal[0] == 'set' and signal[1] is e and sender is n and named.get('value') is value):
                return 'announcement %r' % (rec.events,)
    return None
