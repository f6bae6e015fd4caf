"""Dictionaries seen from one arbitrary key.

KeyedDict abstracts a dictionary to what it holds under one fixed, arbitrary
key (a symbolic text); Entries is what iterating over such a dictionary (or
its keys, values, items) gives.  A loop or comprehension over Entries is
decided by two obligations: an iteration over any other entry must leave what
is known of the key alone, and the iteration over the entry of the key (if it
has one) is executed.  What is proved of the key holds of every key.
"""
import ast
import z3
from .values import *
from .engine import *
from .interp import Break, Continue, Poison


class Key(object):
    def __init__(self, ctx, name='key'):
        self.ctx = ctx
        self.text = ctx.str(name)
        self.dicts = []
    def is_key(self, interp, v):
        if isinstance(v, str):
            return self.ctx.branch(self.text.z == z3.StringVal(v))
        if not isinstance(v, SStr):
            interp.unsupported('a key which is no text')
        if z3.eq(v.z, self.text.z):
            return True
        return self.ctx.branch(v.z == self.text.z)
    def other(self):
        k = self.ctx.str('other')
        self.ctx.assume(k.z != self.text.z, check=False)
        return k
    def known(self):
        return [(d, str(d.present), str(d.value)) for d in self.dicts]


class Entries(LazyList):
    """The entries of a dictionary: kind is 'items', 'keys' or 'values'"""
    cls = list
    def __init__(self, key, kind, present, value, label='entries'):
        self.key, self.kind, self.present, self.value, self.label = key, kind, present, value, label
        self.n = z3.Int(key.ctx.name('entries'))
        key.ctx.assume(self.n >= 0, check=False)
        self.source = None
    def item(self, i):
        raise Unsupported('an item of %s by its position' % self.label)
    def element(self, k, v):
        return {'items': (k, v), 'keys': k, 'values': v}[self.kind]
    def there(self):
        return self.present if isinstance(self.present, bool) else self.key.ctx.branch(self.present)
    def copy_list(self, interp):
        return Entries(self.key, self.kind, self.present, self.value, self.label)
    def list_method(self, interp, target, name, args, kwargs):
        if name == '__iter__':
            return self
        interp.unsupported('%s of %s' % (name, self.label))
    def as_dict(self, interp):
        if self.kind != 'items':
            interp.unsupported('a dictionary made of %s' % self.kind)
        return KeyedDict(self.key, self.present, self.value)
    def comprehend(self, interp, e, inner, g, kind):
        ctx, key = self.key.ctx, self.key
        saved = dict(inner.locals)
        def one(k, v):
            inner.locals = dict(saved)
            interp.assign(g.target, self.element(k, v), inner)
            for c in g.ifs:
                if not interp.truth(interp.ev(c, inner)):
                    return None
            if kind == 'dict':
                return (interp.ev(e.key, inner), interp.ev(e.value, inner))
            return (interp.ev(e.elt, inner),)
        def shape(r, k, v):
            if kind == 'dict' or isinstance(r[0], tuple) and len(r[0]) == 2:
                a, b = r if kind == 'dict' else r[0]
                if not (isinstance(a, SStr) and z3.eq(a.z, k.z)):
                    interp.unsupported('comprehension which changes the keys')
                return 'items', b
            if isinstance(r[0], SStr) and z3.eq(r[0].z, k.z):
                return 'keys', v
            return 'values', r[0]
        if ctx.choose(['all', 'another entry']) == 'another entry':
            mark, before = len(ctx.trace), key.known()
            k, v = key.other(), ctx.any('value')
            r = one(k, v)
            if r is not None:
                shape(r, k, v)
            if key.known() != before or [t for t in ctx.trace[mark:] if t[0] in ('w', 'l', 'send')]:
                interp.unsupported('comprehension with effects')
            raise PathEnd('another entry')
        r = one(key.text, self.value) if self.there() else None
        inner.locals = saved
        # of which kind the result is does not depend on the entry
        what, value = shape(r, key.text, self.value) if r is not None else ('items' if kind == 'dict' or isinstance(e.elt, ast.Tuple) else 'any', self.value)
        result = Entries(key, what, r is not None, value, 'comprehension')
        return result.as_dict(interp) if kind == 'dict' else result


class KeyedDict(SDict):
    def __init__(self, key, present, value, label='dictionary'):
        SDict.__init__(self, False, label)
        self.key, self.present, self.value, self.others = key, present, value, {}
        key.dicts.append(self)
    def there(self):
        return self.present if isinstance(self.present, bool) else self.key.ctx.branch(self.present)
    def known_of(self, k):
        """(present, value) under another key"""
        seen = self.others
        at = str(k.z if isinstance(k, SStr) else k)
        if at not in seen:
            seen[at] = self.key.ctx.any('value') if self.key.ctx.choose([True, False]) else None
        return seen[at]
    def method(self, interp, name, args, kwargs):
        key = self.key
        if kwargs:
            interp.unsupported('dict.%s with keywords' % name)
        if name in ('items', 'keys', 'values', '__iter__'):
            return Entries(key, 'keys' if name == '__iter__' else name, self.present, self.value, 'dict.' + name)
        if name == 'copy':
            return KeyedDict(key, self.present, self.value)
        if name == 'update' and len(args) == 1:
            d = args[0]
            if isinstance(d, Entries):
                d = d.as_dict(interp)
            if isinstance(d, dict) and not d:
                return None
            if not isinstance(d, KeyedDict):
                interp.unsupported('update with %r' % (d,))
            if d.there():
                self.present, self.value = True, d.value
            self.others = {}
            return None
        if name == 'clear':
            self.present = False
            self.others = {}
            return None
        if name in ('__getitem__', 'get', '__contains__', 'setdefault', '__setitem__', '__delitem__', 'pop'):
            mine = key.is_key(interp, args[0])
            if mine:
                found = self.value if self.there() else None
            elif name == '__setitem__':
                found = None
            else:
                found = self.known_of(args[0])
            if name == '__contains__':
                return found is not None
            if name == '__setitem__':
                new = args[1]
            elif name in ('__getitem__', 'get'):
                if found is None and name == '__getitem__':
                    interp.raise_(KeyError, args[0])
                return found if found is not None else args[1] if len(args) > 1 else None
            elif name == 'setdefault':
                if found is not None:
                    return found
                new = args[1] if len(args) > 1 else None
            else:
                if found is None:
                    if name == 'pop' and len(args) > 1:
                        return args[1]
                    interp.raise_(KeyError, args[0])
                new = ABSENT
            if mine:
                self.present, self.value = new is not ABSENT, self.value if new is ABSENT else new
            else:
                self.known_of(args[0])
                self.others[str(args[0].z if isinstance(args[0], SStr) else args[0])] = None if new is ABSENT else new
            return found if name == 'pop' else new if name == 'setdefault' else None
        interp.unsupported('dict.%s on a dictionary seen from one key' % name)


def see_from(key, fr, interp):
    """Dictionaries the frame has made are seen from the key, too"""
    seen = {}
    for name, v in list(fr.locals.items()):
        if id(v) in seen:
            fr.locals[name] = seen[id(v)]
            continue
        if type(v) is dict and id(v) in interp.fresh and all(type(k) is str for k in v):
            entries = list(v.items())
        elif type(v) is SDict and not v.open and not v.base and all(type(k) is str and x is not ABSENT for k, x in v.over):
            entries = [(k, x) for k, x in v.over]
        else:
            continue
        d = KeyedDict(key, False, None, name)
        for k, x in entries:
            if key.is_key(interp, k):
                d.present, d.value = True, x
            else:
                d.others[k] = x
        fr.locals[name] = seen[id(v)] = d


def entries_rule(key):
    """Loops over Entries"""
    def rule(interp, s, fr, items):
        from .loops import assigned, target_names
        if not isinstance(items, Entries) or not isinstance(s, ast.For):
            return NotImplemented
        ctx = key.ctx
        see_from(key, fr, interp)
        names = assigned(s.body) | target_names(s.target)
        def body(k, v):
            mark = len(ctx.trace)
            for name in names:
                fr.locals[name] = Poison('value of %s carried around a loop of %s' % (name, fr.name))
            interp.assign(s.target, items.element(k, v), fr)
            try:
                interp.block(s.body, fr)
            except Continue:
                pass
            except Break:
                interp.unsupported('loop over a dictionary which ends early')
            if [t for t in ctx.trace[mark:] if t[0] in ('w', 'l', 'send')]:
                interp.unsupported('loop over a dictionary with effects')
        if ctx.choose(['all', 'another entry']) == 'another entry':
            if ctx.choose(['before', 'after']) == 'after' and items.there():
                body(key.text, items.value)
            before = key.known()
            body(key.other(), ctx.any('value'))
            if key.known()[:len(before)] != before:
                interp.unsupported('loop in %s: an iteration over one entry concerns others' % fr.name)
            raise PathEnd('another entry')
        if items.there():
            body(key.text, items.value)
        for d in key.dicts:
            d.others = {}
        for name in names:
            fr.locals[name] = Poison('value of %s after a loop of %s' % (name, fr.name))
        interp.block(s.orelse, fr)
        return True
    return rule
