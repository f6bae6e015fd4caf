PROPERTY = 'C04'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure', 'accel']
SHARDS = 2
EXPLANATION = ('The coerce method of every field type is executed for any value of every kind (text, number, array of any element type and shape, list or tuple of any length and '
               'nesting, anything else) against contracts of numpy that track element type, shape, storage and where the numbers come from: what is returned has the type\'s element '
               'type and shape, the numbers of the value in order, each converted once to the type, and storage of its own; refusals are ValueError, TypeError or (numbers beyond '
               'the range) OverflowError, and the value itself is not changed. Values which are canonical already are arrays of that element type and shape, and come back with the '
               'same numbers. _collapse is proved to flatten lists of any length and nesting by invariants of both of its loops.')
BOUNDED = ['bounded: random values of every field type (quick 25000, thorough 150000, in both builds) against an independent conversion: element type, shape, numbers, refusal, idempotence, no storage shared '
           'in either direction or with an equal value stored before']
TRUSTED = ['numpy array, asarray, astype, ravel, reshape, zeros, clip', 'float(), int(), str(), str.replace and str.split of CPython']
ASSUMPTIONS = ['elements of arrays are real numbers within the range of the field type (numpy converts other elements silently)', 'lists are acyclic',
               'None among numbers is a NaN where numpy has it so (SFArray)', 'None and other false values stand for an empty list where the type holds a list of numbers']
# --- end of meta
from common import *


def coercers():
    """Field types by the function which coerces their values"""
    from vrml import fieldtypes, field, node
    groups = {}
    for F in value_field_classes():
        if F.__module__ != 'vrml.fieldtypes' or issubclass(F, fieldtypes._MFColor):     # C05
            continue
        groups.setdefault(F, None)
    return sorted(groups, key=lambda F: F.__name__)


class World(object):
    """numpy by contract: element type, shape, storage and origin of the numbers of every array"""
    def __init__(self, ctx, interp):
        import z3, numpy
        from pvc.values import V, SAny, SStr, SReal, SInt, SList, LazyList, SBool, Model, Num, string, real
        from vrml import arrays
        self.ctx, self.interp, self.numpy = ctx, interp, numpy
        self.info = {}
        self.fresh = 0
        self.replaced = {}
        self.tokens = {}
        self.IsBad = {k: z3.Function('bad_' + k, V, z3.BoolSort()) for k in ('float', 'int')}
        self.IsOver = {k: z3.Function('over_' + k, V, z3.BoolSort()) for k in ('float', 'int')}
        self.IsWrong = {k: z3.Function('wrong_' + k, V, z3.BoolSort()) for k in ('float', 'int')}
        self.Number = {'float': z3.Function('to_float', V, z3.RealSort()), 'int': z3.Function('to_int', V, z3.IntSort())}
        self.TextBad = {k: z3.Function('textbad_' + k, z3.StringSort(), z3.BoolSort()) for k in ('float', 'int')}
        self.TextNumber = {'float': z3.Function('text_float', z3.StringSort(), z3.RealSort()), 'int': z3.Function('text_int', z3.StringSort(), z3.IntSort())}
        self.Flat = z3.Function('flat', V, z3.SeqSort(V))
        W = self
        def number(kind):
            wrap = {'float': SReal, 'int': SInt}[kind]
            def handler(interp, v, *base):
                if isinstance(v, SStr):
                    if ctx.branch(W.TextBad[kind](v.z)):
                        interp.raise_(ValueError, 'could not convert string')
                    return wrap(W.TextNumber[kind](v.z))
                if id(v) in W.info or v.cls in (dict,):
                    if ctx.choose([True, False]):
                        interp.raise_(TypeError, 'only one-element arrays')
                    return ctx.real('number') if kind == 'float' else ctx.int('number')
                if ctx.branch(W.IsBad[kind](v.z)):
                    interp.raise_(ValueError, 'could not convert')
                if ctx.branch(W.IsWrong[kind](v.z)):
                    interp.raise_(TypeError, 'must be a string or a real number')
                if ctx.branch(W.IsOver[kind](v.z)):
                    interp.raise_(OverflowError, 'out of range')
                return wrap(W.Number[kind](v.z))
            return handler
        for key in (str, None):
            interp.class_contracts['float', key] = number('float')
            interp.class_contracts['int', key] = number('int')
        # text
        def replace(interp, s, args, kwargs):
            a, b = args
            r = ctx.str('replaced')
            self.replaced[r.z.get_id()] = (s, a, b, r)
            return r
        def split(interp, s, args, kwargs):
            if args or kwargs:
                interp.unsupported('split at characters')
            n = ctx.int('tokens').z
            ctx.assume(n >= 0, check=False)
            T = z3.Function(ctx.name('token'), z3.IntSort(), z3.StringSort())
            r = LazyList(n, lambda j: SStr(T(j if z3.is_expr(j) else z3.IntVal(j))), 'tokens')
            self.tokens[id(r)] = (s, T, r)
            return r
        interp.class_contracts['str', 'replace'] = replace
        interp.class_contracts['str', 'split'] = split
        # numpy
        nd = numpy.ndarray
        def attr(name):
            def deco(fn):
                interp.class_contracts['attr', nd, name] = fn
                return fn
            return deco
        @attr('dtype')
        def dtype(interp, a):
            r = ctx.any('dtype', numpy.dtype)
            self.info[id(r)] = dict(char=self.of(a)['dtype'], keep=r)
            return r
        interp.class_contracts['attr', numpy.dtype, 'char'] = lambda interp, d: self.info[id(d)]['char']
        interp.class_contracts['attr', nd, 'shape'] = lambda interp, a: self.of(a)['shape']
        def method(name):
            def deco(fn):
                interp.class_contracts['attr', nd, name] = lambda interp, a: Model(lambda interp, args, kwargs: fn(a, *args, **kwargs), 'ndarray.' + name)
                return fn
            return deco
        @method('astype')
        def astype(a, t, copy=True):
            if copy is not True:
                interp.unsupported('astype without copy')
            return self.converted(a, t)
        @method('copy')
        def copy(a, order='C'):
            return self.array(dict(self.of(a), storage=self.new()))
        @method('reshape')
        def reshape(a, *shape):
            shape = shape[0] if len(shape) == 1 else shape
            return self.reshaped(a, shape)
        @method('ravel')
        def ravel(a):
            return self.array(dict(self.of(a), shape='flat'))
        interp.contract(arrays.ravel, lambda interp, args, kwargs: ravel(args[0]), 'numpy.ravel')
        interp.contract(arrays.reshape, lambda interp, args, kwargs: self.reshaped(args[0], args[1] if len(args) > 1 else kwargs.get('newshape', kwargs.get('shape'))), 'numpy.reshape')
        def np_array(interp, args, kwargs):
            names = dict(zip(['object', 'dtype'], args), **kwargs)
            return self.make(names['object'], names.get('dtype'), names.get('copy', True) is not False)
        def np_asarray(interp, args, kwargs):
            names = dict(zip(['a', 'dtype'], args), **kwargs)
            return self.make(names['a'], names.get('dtype'), False)
        interp.contract(numpy.array, np_array, 'numpy.array')
        interp.contract(numpy.asarray, np_asarray, 'numpy.asarray')
        if hasattr(numpy, 'ascontiguousarray'):
            interp.contract(numpy.ascontiguousarray, np_asarray, 'numpy.ascontiguousarray')
        def zeros(interp, args, kwargs):
            names = dict(zip(['shape', 'dtype'], args), **kwargs)
            return self.array(dict(dtype=names.get('dtype', 'd'), shape=names['shape'], storage=self.new(), content=('zeros',), conv=()))
        interp.contract(numpy.zeros, zeros, 'numpy.zeros')
        def setitem(interp, a, key, value):
            i = self.of(a)
            if not (isinstance(key, slice) and key == slice(None)) or not isinstance(value, (Num, float, int)):
                interp.unsupported('assignment to parts of an array')
            ctx.trace.append(('fill', a, value))
            if i['storage'] == 'given':
                ctx.check('the value itself is not changed', False, 'filled in place')
            i['content'] = ('fill', value)
        interp.class_contracts['setitem', nd] = setitem
        def clip(interp, args, kwargs):
            names = dict(zip(['a', 'a_min', 'a_max'], args), **kwargs)
            ctx.cover('clipped')
            i = self.of(names['a'])
            # floats are clipped to floats of the same type (NEP 50)
            return self.array(dict(i, storage=self.new(), content=('clip', i['content'], names.get('a_min'), names.get('a_max'))))
        interp.contract(numpy.clip, clip, 'numpy.clip')
        # arrays have no truth value unless they have one element
        interp.class_contracts['len', nd] = lambda interp, a: ctx.int('len')

    def new(self):
        self.fresh += 1
        return 'new%d' % self.fresh
    def array(self, info):
        r = self.ctx.any('array', self.numpy.ndarray)
        info['keep'] = r
        self.info[id(r)] = info
        return r
    def given(self, label='value'):
        """An array of the caller, of any element type and shape"""
        c = self.ctx
        r = self.array(dict(dtype=c.str('dtype'), shape='given', storage='given', content=('given',), conv=()))
        return r
    def of(self, a):
        return self.info[id(a)]
    def is_array(self, v):
        return id(v) in self.info and 'storage' in self.info[id(v)]
    def same_type(self, a, t):
        d = self.of(a)['dtype']
        if isinstance(d, str) and isinstance(t, str):
            return d == t
        return self.interp.truth(self.interp.eq(d, t))
    def converted(self, a, t):
        i = self.of(a)
        if not isinstance(t, str):
            # the array's own element type
            if t is i['dtype']:
                return self.array(dict(i, storage=self.new()))
            self.interp.unsupported('conversion to %r' % (t,))
        if self.ctx.choose([True, False]):
            self.interp.raise_(self.ctx.choose([ValueError, TypeError]), 'no numbers')
        return self.array(dict(i, dtype=t, storage=self.new(), conv=i['conv'] + (t,)))
    def reshaped(self, a, shape):
        i = self.of(a)
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        if self.ctx.choose([True, False]):
            self.interp.raise_(ValueError, 'cannot reshape')
        return self.array(dict(i, shape=shape))
    def make(self, v, t, copy):
        from pvc.values import Num, SList, LazyList, SAny, SReal, SInt
        ctx, interp = self.ctx, self.interp
        if self.is_array(v):
            i = self.of(v)
            if t is None or t is i['dtype'] or (isinstance(t, str) and self.same_type(v, t)):
                return self.array(dict(i, storage=self.new())) if copy else v
            return self.converted(v, t)
        if v is None:
            return self.array(dict(dtype=t, shape=(), storage=self.new(), content=('object', v), conv=(t,)))
        if isinstance(v, Num) or type(v) in (int, float, bool):
            return self.array(dict(dtype=t, shape=(), storage=self.new(), content=('fill', v), conv=(t,)))
        if type(v) is list and all(isinstance(x, Num) or type(x) in (int, float, bool) for x in v):
            if v and self.overflows(v[0], t):
                interp.raise_(OverflowError, 'out of range')
            return self.array(dict(dtype=t, shape=(len(v),), storage=self.new(), content=('list', v), conv=(t,)))
        if isinstance(v, LazyList) or isinstance(v, SList):
            j = self.ctx.int('at').z
            if isinstance(v, LazyList):
                if t in ('i', 'I') and ctx.choose([True, False]):
                    interp.raise_(OverflowError, 'out of range')
            else:
                k = ctx.choose(['ok', ValueError, TypeError, OverflowError])
                if k != 'ok':
                    interp.raise_(k, 'no numbers')
            return self.array(dict(dtype=t, shape='of list', storage=self.new(), content=('list', v), conv=(t,)))
        if isinstance(v, SAny):
            k = ctx.choose(['ok', ValueError, TypeError])
            if k != 'ok':
                interp.raise_(k, 'no array')
            return self.array(dict(dtype=t, shape='given', storage=self.new(), content=('object', v), conv=(t,)))
        interp.unsupported('array of %r' % (v,))
    def overflows(self, x, t):
        return t in ('i', 'I') and self.ctx.choose([False, True])
    def separators(self, s):
        """The characters of a text which were replaced by blanks, and the text"""
        chars = set()
        while s.z.get_id() in self.replaced:
            s, a, b, keep = self.replaced[s.z.get_id()]
            if b != ' ':
                return s, None
            chars.add(a)
        return s, chars


def proofs(mode):
    import z3, numpy
    from vrml import fieldtypes as ft, field
    from pvc.values import SStr, SAny, SReal, SInt, SList, LazyList, SBool, V, string, real, Num, integer, Truthy
    from pvc.engine import PyExc, PathEnd
    from pvc import loops, models
    out = []

    # ------------------------------------------------------------ flattening
    def collapse(ctx):
        interp = make_interp(ctx)
        Flat = z3.Function('flat', z3.SeqSort(V), z3.SeqSort(V))
        Content = z3.Function('content', V, z3.SeqSort(V))
        L = ctx.slist('inlist')
        start = L.seq
        interp.class_contracts['iter', None] = lambda interp, v: SList(Content(v.z), 'sub-list')
        NoLists = z3.Function('no_lists', z3.SeqSort(V), z3.BoolSort())
        def is_list(x):
            p = interp.isinst_pred(interp.from_v(x), list)
            return p if z3.is_expr(p) else z3.BoolVal(bool(p))
        def first(seq, k):
            return z3.SubSeq(seq, 0, k)
        def content(fr):
            # the list being flattened is whatever the name or parameter holds
            return models.content(interp, L)
        known = []
        def state(k, what):
            s = content(None)
            ctx.check(what + ': the flattened content stays', isinstance(s, SList) and Flat(s.seq) == Flat(start))
            ctx.check(what + ': there are as many items', z3.Length(s.seq) >= k)
            ctx.check(what + ': no lists before the index', NoLists(first(s.seq, k)))
        def any_state(k):
            s = ctx.slist('state')
            ctx.assume(z3.And(Flat(s.seq) == Flat(start), z3.Length(s.seq) >= k, NoLists(first(s.seq, k))), check=False)
            # definition: no lists in a longer part if there are none in the shorter one and the item between them is none
            ctx.assume(z3.Implies(z3.Length(s.seq) > k, NoLists(first(s.seq, k + 1)) == z3.And(NoLists(first(s.seq, k)), z3.Not(is_list(s.seq[k])))), check=False)
            known.append((k, s.seq))
            mark = len(ctx.trace)
            models.set_content(interp, L, s)
            del ctx.trace[mark:]
            return s
        def rule(interp, stmt, fr, items):
            if items is not None:
                if not isinstance(items, LazyList):
                    return NotImplemented
                def establish():
                    ctx.assume(NoLists(z3.Empty(z3.SeqSort(V))), check=False)
                    state(z3.IntVal(0), 'before the loop')
                def havoc(k):
                    any_state(k)
                def preserved(k):
                    ctx.cover('outer step')
                    state(k + 1, 'after a step')
                return loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
            # the inner loop: while the item at the index is a list
            names = [v for v in fr.locals.values() if isinstance(v, SInt)]
            if len(names) != 1:
                return NotImplemented
            k = names[0].z
            state(k, 'before the inner loop')
            s = any_state(k)
            if interp.truth(interp.ev(stmt.test, fr)):
                x = s.seq[k]
                a, b = z3.SubSeq(s.seq, 0, k), z3.SubSeq(s.seq, k + 1, z3.Length(s.seq) - k - 1)
                # definition of the flattened content of a list with a list in it
                whole = z3.Concat(Flat(a), Flat(Content(x)), Flat(b))
                ctx.assume(z3.Implies(is_list(x), Flat(s.seq) == whole), check=False)
                ctx.assume(Flat(z3.Concat(a, Content(x), b)) == whole, check=False)
                interp.block(stmt.body, fr)
                ctx.cover('inner step')
                state(k, 'after an inner step')
                raise PathEnd('step of the invariant')
        interp.loop_specs.insert(0, rule)
        try:
            r = interp.call(ft._collapse, [L])
        except PyExc as err:
            ctx.check('it does not fail', False, str(err))
            return
        s = content(None)
        ctx.check('the list itself is returned', r is L, repr(r))
        k = known[-1][0]
        if ctx.branch(k >= 2 ** 40):
            return
        ctx.cover('result')
        ctx.check('nothing is a list', NoLists(s.seq))
        ctx.check('the flattened content is that of the argument', Flat(s.seq) == Flat(start))
    out.append(('_collapse', collapse, dict(covers=['outer step', 'inner step', 'result'])))

    def collapse_copy(ctx):
        interp = make_interp(ctx)
        L = ctx.slist('inlist')
        start = L.seq
        got = []
        result = ctx.any('flat')
        def inner(interp, args, kwargs):
            now = models.content(interp, args[0])
            got.append((args[0], getattr(now, 'seq', None)))
            models.set_content(interp, args[0], ctx.slist('flattened'))
            return args[0]
        interp.contract(ft._collapse, inner, '_collapse (proved)')
        r = interp.call(ft.collapse, [L])
        ctx.check('a copy of the argument is flattened', len(got) == 1 and r is got[0][0] and r is not L and got[0][1] is not None and got[0][1].eq(start), repr(got))
        ctx.check('the argument stays as it was', isinstance(models.content(interp, L), SList) and models.content(interp, L).seq.eq(start))
    out.append(('collapse', collapse_copy, {}))

    # ------------------------------------------------------------ arrays
    KINDS = ['text', 'int', 'float', 'bool', 'array', 'list', 'other', 'None']

    def value_of(ctx, W, kind):
        if kind == 'text':
            return ctx.str('value')
        if kind == 'int':
            return ctx.int('value')
        if kind == 'float':
            return ctx.real('value')
        if kind == 'bool':
            return ctx.choose([True, False])
        if kind == 'array':
            return W.given()
        if kind == 'list':
            return ctx.slist('value')
        if kind == 'None':
            return None
        return ctx.any('value', ctx.choose([dict, bytes, object]))

    def number_of(x, W, kind):
        """x as the number float() or int() makes of it, as a z3 term"""
        if isinstance(x, SStr):
            return W.TextNumber[kind](x.z)
        if isinstance(x, SAny):
            return W.Number[kind](x.z)
        return real(x) if kind == 'float' else integer(x)

    def array_type(F):
        multiple = issubclass(F, (ft._MFInt32, ft._MFFloat))
        vectors = issubclass(F, ft._MFVec)
        single = issubclass(F, ft._SFVec)
        colour = issubclass(F, ft._Color)
        integral = issubclass(F, ft._MFInt32)
        def run(ctx):
            interp = make_interp(ctx)
            W = World(ctx, interp)
            kind = ctx.choose(KINDS)
            value = value_of(ctx, W, kind)
            if colour and kind == 'text':
                return          # C05
            before = value.seq if kind == 'list' else None
            flat = {}
            def flatten(interp, args, kwargs):
                v = args[0]
                seq = getattr(models.content(interp, v), 'seq', None)
                if kind == 'list' and seq is not None and seq.eq(before):
                    n = ctx.int('n').z
                    ctx.assume(n >= 0, check=False)
                    E = z3.Function('flat_item', z3.IntSort(), V)
                    r = LazyList(n, lambda j: interp.from_v(E(j if z3.is_expr(j) else z3.IntVal(j))), 'flat')
                    flat[id(r)] = (E, r)
                    return r
                # a list of numbers is flat
                return v
            interp.contract(ft.collapse, flatten, 'collapse (proved)')
            f = interp.call(F, ['field', 1, list])
            ctx.trace[:] = []
            try:
                r = interp.call(resolved(F, 'coerce'), [f, value])
            except PyExc as err:
                ctx.cover('refused')
                ctx.check('refused with ValueError, TypeError or OverflowError', issubclass(err.cls, (ValueError, TypeError, OverflowError)), '%s for %s' % (err, kind))
                ctx.check('numbers are not refused', not (kind in ('int', 'float', 'bool') and single), str(err))
                return
            ctx.cover(kind)
            ctx.check('an array is stored', W.is_array(r), '%r for %s' % (r, kind))
            if not W.is_array(r):
                return
            i = W.of(r)
            target = F.arrayDataType if integral else F.targetType
            special = not single and not multiple and not vectors       # SFArray: structured arrays and any shape
            structured = False
            if special and not isinstance(i['dtype'], str):
                structured = interp.truth(interp.eq(i['dtype'], 'V'))
            if structured:
                ctx.cover('structured')
            else:
                ctx.check('the element type is that of the field type', interp.compare_bool(interp.eq(i['dtype'], target)), '%r for %s' % (i['dtype'], kind))
            ctx.check('numbers are converted to the type of the field only', all(c == target or c is None for c in i['conv']), repr(i['conv']))
            ctx.check('the storage is its own', i['storage'] != 'given', kind)
            content = i['content']
            clip = None
            if content[0] == 'clip':
                clip, content = content[2:], content[1]
            ctx.check('only colours are limited, to 0 and 1', (clip == (0.0, 1.0)) if colour else clip is None, repr(clip))
            shape = i['shape']
            if single:
                ctx.check('the shape is that of the field type', shape == F.dimension, repr(shape))
            elif vectors:
                ctx.check('the shape is any number of the vectors of the field type', shape == (-1,) + F.dimension, repr(shape))
            elif multiple:
                ctx.check('the array is flat', shape == 'flat' or (isinstance(shape, tuple) and len(shape) == 1) or (shape == 'of list' and id(content[1]) not in ()), repr(shape))
            elif kind == 'array':
                ctx.check('the shape is kept', shape == 'given', repr(shape))
            # where the numbers come from
            if kind in ('int', 'float', 'bool'):
                got = None
                if content[0] == 'fill':
                    got = content[1]
                elif content[0] == 'list' and type(content[1]) is list and len(content[1]) == 1:
                    got = content[1][0]
                if got is None:
                    # a single number is no vector list
                    ctx.check('the number is stored', content[0] == 'list' and vectors, repr(content))
                else:
                    wants = [real(x) for x in ([value] if not integral else [value, models.c_int(interp, [value], {})])]
                    ctx.check('the number is stored', z3.Or(*[real(got) == w for w in wants]), repr(content))
                    if integral and kind == 'float' and isinstance(got, SReal):
                        ctx.check('numbers are made whole', False, repr(got))
            elif kind == 'array':
                ctx.check('the numbers are those of the array', content == ('given',), repr(content))
            elif kind == 'list':
                if content[0] == 'list' and content[1] is value:
                    ctx.check('a nested list is converted as a whole where its shape is any', not single and not multiple)
                    ctx.cover('nested')
                else:
                    ctx.check('a list of numbers is converted', content[0] == 'list' and isinstance(content[1], LazyList), repr(content))
                    items = content[1]
                    j = ctx.int('j').z
                    ctx.assume(z3.And(j >= 0, j < models.length_term(items)))
                    ctx.instantiate(j)
                    x = items.item(j)
                    want = [(E(j), l.n) for E, l in flat.values()] or [(before[j], z3.Length(before))]
                    w, n = want[0]
                    if not flat:
                        ctx.check('a list may be nested', integral or special or vectors)
                    ctx.check('as many numbers as the value has', models.length_term(items) == n)
                    k = 'int' if integral else 'float'
                    ctx.check('every number in its place', isinstance(x, Num) and real(x) == real({'float': SReal, 'int': SInt}[k](W.Number[k](w))), repr(x))
                ctx.check('the value itself is not changed', isinstance(models.content(interp, value), SList) and models.content(interp, value).seq.eq(before))
            elif kind == 'text':
                items = content[1] if content[0] == 'list' else None
                ctx.check('a list of numbers is converted', isinstance(items, LazyList), repr(content))
                if not isinstance(items, LazyList):
                    return
                base = items
                while id(base) not in W.tokens and getattr(base, 'source', None) is not None:
                    base = base.source
                ctx.check('the numbers are those in the text', id(base) in W.tokens, repr(base))
                if id(base) not in W.tokens:
                    return
                s, T, _ = W.tokens[id(base)]
                s, chars = W.separators(s)
                ctx.check('it is the text given, commas being blanks', s is value and chars is not None and ',' in chars and chars <= set(',[]'), repr(chars))
                j = ctx.int('j').z
                ctx.assume(z3.And(j >= 0, j < models.length_term(items)))
                ctx.instantiate(j)
                x = items.item(j)
                k = 'int' if integral else 'float'
                ctx.check('as many numbers as the text has', models.length_term(items) == base.n)
                ctx.check('every number in its place', isinstance(x, Num) and real(x) == real({'float': SReal, 'int': SInt}[k](W.TextNumber[k](T(j)))), repr(x))
            elif kind == 'None' or kind == 'other':
                if content[0] == 'list' and content[1] == []:
                    ctx.check('only false values are an empty list', value is None or z3.Not(Truthy(value.z)), repr(value))
                    ctx.check('only lists may be empty', multiple)
                else:
                    ctx.check('other objects are converted by numpy as a whole', content[0] == 'object' and content[1] is value or (value is None and content[0] != 'given'), repr(content))
            # an equal value stored elsewhere has storage of its own
            try:
                again = interp.call(resolved(F, 'coerce'), [f, value])
            except PyExc:
                return
            ctx.check('no storage is shared with an equal value stored before', W.is_array(again) and W.of(again)['storage'] not in ('given', i['storage']), kind)
        return run
    for F in coercers():
        if issubclass(F, (ft._MFInt32, ft._MFFloat, ft._SFVec, ft._SFArray)):
            covers = ['array', 'list', 'refused'] + ([] if issubclass(F, ft._Color) else ['text'])
            out.append(('%s.coerce' % F.__name__, array_type(F), dict(covers=covers)))

    # ------------------------------------------------------------ scalars
    def scalar(F):
        def run(ctx):
            interp = make_interp(ctx)
            W = World(ctx, interp)
            kind = ctx.choose(KINDS)
            value = value_of(ctx, W, kind)
            word = None
            lower = {}
            def to_lower(interp, s, args, kwargs):
                if s.z.get_id() not in lower:
                    lower[s.z.get_id()] = (s, ctx.str('lower'))
                return lower[s.z.get_id()][1]
            interp.class_contracts['str', 'lower'] = to_lower
            f = interp.call(F, ['field', 1, 0])
            ctx.trace[:] = []
            k = 'float' if issubclass(F, ft._SFFloat) else 'int'
            try:
                r = interp.call(resolved(F, 'coerce'), [f, value])
            except PyExc as err:
                ctx.cover('refused')
                ctx.check('refused with ValueError, TypeError or OverflowError', issubclass(err.cls, (ValueError, TypeError, OverflowError)), '%s for %s' % (err, kind))
                ctx.check('numbers are not refused', kind not in ('int', 'float', 'bool'), str(err))
                return
            ctx.cover(kind)
            if issubclass(F, ft._SFBool):
                ctx.check('the value is 0 or 1', type(r) in (int, bool) and r in (0, 1), repr(r))
                if kind == 'text':
                    number = W.TextNumber['int'](value.z)
                    bad = W.TextBad['int'](value.z)
                    if ctx.branch(bad):
                        ctx.check('the text is compared without case', bool(lower) and all(v[0] is value for v in lower.values()), repr(lower))
                        for s, l in lower.values():
                            t, e = l.z == z3.StringVal('true'), l.z == z3.StringVal('false')
                            if ctx.branch(t):
                                ctx.check('true is true', bool(r))
                            elif ctx.branch(e):
                                ctx.check('false is false', not r)
                            else:
                                ctx.check('any other text is true unless it is empty', (z3.Length(value.z) > 0) if r else z3.Length(value.z) == 0)
                    else:
                        ctx.check('a number in a text counts as the number', (number != 0) if r else number == 0)
                elif kind in ('int', 'float'):
                    ctx.check('numbers are true unless zero', (value.z != 0) if r else value.z == 0)
                elif kind == 'bool':
                    ctx.check('truth values are kept', bool(r) == value)
                elif kind == 'None':
                    ctx.check('None is false', not r)
                elif kind == 'list':
                    ctx.check('lists are true unless empty', (z3.Length(value.seq) > 0) if r else z3.Length(value.seq) == 0)
                else:
                    ctx.check('objects have the truth they have', Truthy(value.z) if r else z3.Not(Truthy(value.z)))
                return
            wanted = SReal if k == 'float' else SInt
            ctx.check('the value is a %s' % k, isinstance(r, wanted) or type(r) in (({'float': float, 'int': int}[k],)) or (k == 'float' and isinstance(r, SReal)), repr(r))
            if not isinstance(r, Num) and type(r) not in (int, float):
                return
            if kind == 'text':
                ctx.check('the value is the number in the text', real(r) == real(wanted(W.TextNumber[k](value.z))), repr(r))
            elif kind == 'int':
                ctx.check('the value is the number', real(r) == real(value))
            elif kind == 'float' and k == 'float':
                ctx.check('the value is the number', r.z == value.z)
            elif kind == 'float':
                d = real(r) - value.z
                ctx.check('the value is the number without its fraction', z3.And(d < 1, d > -1, z3.Implies(value.z >= 0, d <= 0), z3.Implies(value.z <= 0, d >= 0)))
            elif kind == 'bool':
                ctx.check('the value is the number', r == value)
            elif kind in ('list', 'None'):
                ctx.check('lists and None are refused', False, repr(r))
            elif kind == 'other' and value.cls is not dict:
                ctx.check('the value is the number of the object', real(r) == real(wanted(W.Number[k](value.z))), repr(r))
        return run
    for F in coercers():
        if issubclass(F, (ft._SFFloat, ft._SFInt32, ft._SFBool)):
            out.append(('%s.coerce' % F.__name__, scalar(F), dict(covers=['text', 'int', 'float'] + ([] if issubclass(F, ft._SFBool) else ['refused']))))

    # ------------------------------------------------------------ texts
    Text = z3.Function('text_of', V, z3.StringSort())
    def texts(ctx, interp):
        made = []
        def decode_attr(interp, b):
            from pvc.values import Model
            def decode(interp, args, kwargs):
                ctx.check('bytes are UTF-8', list(args) in (['utf-8'], ['utf8']) or kwargs.get('encoding') == 'utf-8' or not args, repr(args))
                if ctx.choose([True, False]):
                    interp.raise_(UnicodeDecodeError, 'utf-8', b'x', 0, 1, 'undecodable')
                r = ctx.str('decoded')
                made.append(('decoded', b, r))
                return r
            return Model(decode, 'bytes.decode')
        interp.class_contracts['attr', bytes, 'decode'] = decode_attr
        def to_str(interp, args, kwargs):
            v = args[0]
            if isinstance(v, SStr):
                return v
            r = ctx.str('text')
            made.append(('text', v, r))
            return r
        interp.contract(str, to_str, 'str() of an object')
        def join(interp, s, args, kwargs):
            v = args[0]
            k = ctx.choose(['ok', 'TypeError'])
            if k != 'ok':
                interp.raise_(TypeError, 'expected str instance')
            r = ctx.str('joined')
            made.append(('joined', s, v, r))
            return r
        return made

    def string_type(ctx):
        F = ft.SFString
        interp = make_interp(ctx)
        made = texts(ctx, interp)
        kind = ctx.choose(['text', 'bytes', 'object', 'empty', 'one', 'two'])
        a, b = ctx.str('a'), ctx.str('b')
        value = {'text': lambda: ctx.str('value'), 'bytes': lambda: ctx.any('value', bytes), 'object': lambda: ctx.any('value', ctx.choose([object, dict, int, float])),
                 'empty': lambda: ctx.choose([[], ()]), 'one': lambda: ctx.choose([[a], (a,)]), 'two': lambda: ctx.choose([[a, b], (a, b)])}[kind]()
        f = interp.call(F, ['field', 1, ''])
        del made[:]
        try:
            r = interp.call(interp.get_attr(f, 'coerce'), [value])
        except PyExc as err:
            ctx.cover('refused')
            ctx.check('only bytes which are no UTF-8 are refused, with ValueError', kind == 'bytes' and issubclass(err.cls, ValueError), str(err))
            return
        ctx.cover(kind)
        ctx.check('a text is stored', isinstance(r, (str, SStr)), repr(r))
        if kind == 'text':
            ctx.check('text is kept', r is value, repr(r))
        elif kind == 'bytes':
            ctx.check('bytes are decoded', made == [('decoded', value, r)], repr(made))
        elif kind == 'object':
            ctx.check('objects are written as text', made == [('text', value, r)], repr(made))
        elif kind == 'empty':
            ctx.check('no texts are the empty text', isinstance(r, (str, SStr)) and string(r) == z3.StringVal(''), repr(r))
        elif kind == 'one':
            ctx.check('a single text stands for itself', string(r) == a.z, repr(r))
        else:
            ctx.check('texts are joined', string(r) == z3.Concat(a.z, b.z), repr(r))
    out.append(('SFString.coerce', string_type, dict(covers=['text', 'bytes', 'object', 'empty', 'one', 'two', 'refused'])))

    def strings_type(ctx):
        F = ft.MFString
        interp = make_interp(ctx)
        Item = z3.Function('text_item', V, z3.StringSort())
        Bad = z3.Function('bad_item', V, z3.BoolSort())
        Wrong = z3.Function('wrong_item', V, z3.BoolSort())
        def one(interp, args, kwargs):
            v = args[-1]
            if isinstance(v, SStr):
                return v
            if ctx.branch(Bad(v.z)):
                interp.raise_(ValueError, 'undecodable')
            if ctx.branch(Wrong(v.z)):
                interp.raise_(TypeError, 'expected str instance')
            return SStr(Item(v.z))
        interp.contract(resolved(ft.SFString, 'coerce'), one, 'SFString.coerce (proved)')
        kind = ctx.choose(['text', 'list'])
        value = ctx.str('value') if kind == 'text' else ctx.slist('value')
        before = value.seq if kind == 'list' else None
        f = interp.call(F, ['field', 1, list])
        try:
            r = interp.call(interp.get_attr(f, 'coerce'), [value])
        except PyExc as err:
            ctx.cover('refused')
            ctx.check('refused with ValueError or TypeError', issubclass(err.cls, (ValueError, TypeError)), str(err))
            ctx.check('texts are not refused', kind != 'text')
            return
        ctx.cover(kind)
        if kind == 'text':
            ctx.check('a text is a list of one text', isinstance(r, list) and len(r) == 1 and r[0] is value, repr(r))
            return
        ctx.check('the list is a new one', r is not value and isinstance(r, (LazyList, SList, list)), repr(r))
        n = models.length_term(r)
        ctx.check('as many texts as items', n == z3.Length(before))
        if isinstance(r, list):
            return
        j = ctx.int('j').z
        ctx.assume(z3.And(j >= 0, j < n))
        ctx.instantiate(j)
        x = models.index_list(interp, r, j)
        ctx.check('every item as text, in its place', isinstance(x, SStr) and x.z == Item(before[j]), repr(x))
        ctx.check('the value itself is not changed', isinstance(models.content(interp, value), SList) and models.content(interp, value).seq.eq(before))
    out.append(('MFString.coerce', strings_type, dict(covers=['text', 'list', 'refused'])))
    return out


# ------------------------------------------------------------------ concrete
# element type and shape of every array type: one value of that shape, or any number of them
SINGLE = {'SFVec2f': ('f', (2,)), 'SFVec3f': ('f', (3,)), 'SFVec4f': ('f', (4,)), 'SFVec2d': ('d', (2,)), 'SFVec3d': ('d', (3,)), 'SFVec4d': ('d', (4,)),
          'SFRotation': ('f', (4,)), 'SFColor': ('f', (3,)), 'SFMatrix3f': ('f', (3, 3)), 'SFMatrix4f': ('f', (4, 4)), 'SFMatrix3d': ('d', (3, 3)), 'SFMatrix4d': ('d', (4, 4))}
MANY = {'MFVec2f': ('f', (2,)), 'MFVec3f': ('f', (3,)), 'MFVec4f': ('f', (4,)), 'MFVec2d': ('d', (2,)), 'MFVec3d': ('d', (3,)), 'MFVec4d': ('d', (4,)),
        'MFRotation': ('d', (4,)), 'MFColor': ('f', (3,)), 'MFMatrix3f': ('f', (3, 3)), 'MFMatrix4f': ('f', (4, 4)), 'MFMatrix3d': ('d', (3, 3)), 'MFMatrix4d': ('d', (4, 4))}
FLAT = {'MFFloat': 'd', 'MFFloat32': 'f', 'MFTime': 'd', 'MFInt32': 'i', 'MFUInt32': 'I', 'SFImage': 'I'}
FREE = {'SFArray': 'd', 'SFArray32': 'f'}
SCALAR = {'SFFloat': float, 'SFTime': float, 'SFInt32': int, 'SFUInt32': int}
OTHER = ['SFBool', 'SFString', 'MFString']


def a_number(rnd, kind):
    if kind == 'I':
        return rnd.choice([0, 1, 7, 255, 2 ** 31, 2 ** 32 - 1, rnd.randint(0, 1000)])
    if kind == 'i':
        return rnd.choice([0, 1, -1, 7, -200, 2 ** 31 - 1, -2 ** 31, rnd.randint(-1000, 1000)])
    return rnd.choice([0.0, -0.0, 1.0, -1.0, 0.5, .1, -2.25, 1e-7, 3e8, 1e30, 7, -3, 123456789, rnd.uniform(-10, 10)])


def nest(rnd, shape, number, outer):
    """Nested sequences of that shape"""
    if not shape:
        return number()
    items = [nest(rnd, shape[1:], number, outer) for i in range(shape[0])]
    return {'tuple': items} if rnd.random() < outer else items


def cases(rnd, tier, mode):
    names = sorted(SINGLE) + sorted(MANY) + sorted(FLAT) * 2 + sorted(FREE) + sorted(SCALAR) * 2 + OTHER * 2
    count = 25000 if tier == 'quick' else 150000
    for i in range(count):
        name = names[i % len(names)]
        case = dict(kind='coerce', type=name, write=rnd.random() < .35, evt=rnd.random() < .2)
        kind = (SINGLE.get(name) or MANY.get(name) or (FLAT.get(name) or FREE.get(name) or {'SFInt32': 'i', 'SFUInt32': 'I'}.get(name, 'd'),))[0]
        number = lambda: a_number(rnd, kind)
        if rnd.random() < .08:
            bad = rnd.choice(['x', 'a b', {'dict': 1}, {'object': 1}, ['q'], [1, 'q'], {'tuple': ['q', 'r', 's']}, [[1, 2], [3]], {'none': 1}, [{'none': 1}], '1 2 x', [[]],
                              {'big': 400}, [{'big': 400}], {'bytes': 'q'}, {'set': 1}])
            case['value'] = bad
        elif name == 'SFBool':
            case['value'] = rnd.choice([0, 1, True, False, 'TRUE', 'true', 'False', 'FALSE', '0', '1', '17', '', 'yes', 2.5, -1, [], [0], {'none': 1}, 'tRuE', 'fAlSe', '-0'])
        elif name in ('SFString', 'MFString'):
            text = lambda: rnd.choice(['', 'x', 'a b', '"quoted"', 'back\\slash', 'caf\u00e9', '\u4e2d', '1', ',', '[]'])
            some = lambda: rnd.choice([text, text, text, lambda: {'bytes': text()}, lambda: rnd.choice([1, 2.5, True])])()
            if name == 'SFString':
                case['value'] = rnd.choice([text, some, lambda: [text() for k in range(rnd.choice([0, 1, 2, 3]))], lambda: {'tuple': [text() for k in range(2)]}, lambda: {'rawbytes': [255, 254]}])()
            else:
                case['value'] = rnd.choice([text, lambda: [some() for k in range(rnd.choice([0, 1, 2, 5]))], lambda: {'tuple': [text(), text()]}, lambda: [[text(), text()], text()],
                                            lambda: [{'rawbytes': [255]}]])()
        elif name in SCALAR:
            case['value'] = rnd.choice([lambda: number(), lambda: str(number()), lambda: {'np': rnd.choice([0, 1, -3, 100, 7]), 'dtype': rnd.choice('dfqbi')}, lambda: rnd.uniform(-100, 100),
                                        lambda: rnd.choice([True, False]), lambda: ' %s ' % number(), lambda: '1_000', lambda: '2.5', lambda: '1e3', lambda: [1], lambda: {'tuple': [1, 2]},
                                        lambda: rnd.choice([3.999, -3.999, 2 ** 40, -2 ** 40])])()
        else:
            if name in SINGLE:
                shape = SINGLE[name][1]
                size = product(shape)
                given = rnd.choice([shape, shape, (size,), (1,) + shape, (size, 1), (size + 1,), (size - 1,), (2,) + shape, ()])
            elif name in MANY:
                dim = MANY[name][1]
                size = product(dim)
                n = rnd.choice([0, 1, 1, 2, 3, 7])
                given = rnd.choice([(n,) + dim, (n,) + dim, (n,) + dim, (n * size,), (1, n) + dim, (n * size + 1,), dim, (2, n) + dim, ()])
            else:
                given = rnd.choice([(rnd.choice([0, 1, 2, 6]),), (rnd.choice([0, 1, 2, 6]),), (2, 3), (3, 1, 2), ()]) if rnd.random() < .995 else (1200, 2)
            how = rnd.choice(['nested', 'nested', 'array', 'array', 'text'])
            if name in ('SFColor', 'MFColor') and rnd.random() < .2:
                colours = ['red', 'Lime', '#0f0', '#a0b0c0', 'rgb(1, 2, 3)', 'navy']
                case['value'] = rnd.choice(colours) if name == 'SFColor' else rnd.choice([lambda: [rnd.choice(colours) for k in range(rnd.choice([1, 2, 3]))], lambda: rnd.choice(colours)])()
                yield case
                continue
            if how == 'text':
                numbers = [str(number()) for k in range(product(given))]
                sep = rnd.choice([' ', ', ', ',', '  ', '\n', ' , ', '\t'])
                text = sep.join(numbers)
                if name in MANY or name in FREE:
                    text = rnd.choice([text, '[%s]' % text, '[ %s ]' % text])
                case['value'] = rnd.choice([text, text, ' %s ' % text, text + ' '])
            elif how == 'nested':
                if rnd.random() < .15:
                    inner = number
                    number = lambda: rnd.choice([inner, lambda: str(inner()), lambda: {'np': inner(), 'dtype': 'd'}, lambda: True])()
                case['value'] = nest(rnd, given, number, rnd.choice([0, 0, 0, .3, 1]))
            else:
                dtype = rnd.choice({'f': 'fffdiqIlbB?', 'd': 'dddfiqIlbB?', 'i': 'iiiqdfhb', 'I': 'IIIQqidB'}[kind])
                low, high = {'b': (-100, 100), 'h': (-30000, 30000), 'B': (0, 200), '?': (0, 1), 'I': (0, 2 ** 31), 'i': (-2 ** 30, 2 ** 30)}.get(dtype, (-2 ** 30, 2 ** 30))
                if kind == 'I':
                    low = 0
                data = [rnd.choice([rnd.uniform(-50, 50) if dtype in 'fd' and kind != 'I' else rnd.randint(low, min(high, 60)), rnd.randint(low, high)]) for k in range(product(given))]
                case['value'] = dict(array=data, dtype=dtype, shape=list(given), order=rnd.choice(['C', 'C', 'F', 'strided', 'reversed', 'readonly', 'swapped', 'C']))
                if name in FREE and rnd.random() < .15:
                    case['value'] = dict(structured=[[rnd.randint(0, 9), rnd.uniform(0, 1)] for k in range(3)])
        yield case


def product(shape):
    n = 1
    for x in shape:
        n *= x
    return n


class Plain(object):
    def __repr__(self):
        return '<plain object>'


def build(v):
    import numpy
    if isinstance(v, list):
        return [build(x) for x in v]
    if not isinstance(v, dict):
        return v
    if 'tuple' in v:
        return tuple(build(x) for x in v['tuple'])
    if 'np' in v:
        return numpy.dtype(v['dtype']).type(v['np'])
    if 'none' in v:
        return None
    if 'object' in v:
        return Plain()
    if 'big' in v:
        return 10 ** v['big']
    if 'bytes' in v:
        return v['bytes'].encode('utf-8')
    if 'rawbytes' in v:
        return bytes(v['rawbytes'])
    if 'set' in v:
        return {1, 2, 3}
    if 'structured' in v:
        return numpy.array([tuple(x) for x in v['structured']], dtype=[('a', 'i4'), ('b', 'f8')])
    if 'array' in v:
        a = numpy.array(v['array'], v['dtype']).reshape(v['shape'])
        o = v['order']
        if o == 'F':
            return numpy.asfortranarray(a)
        if o == 'strided' and a.ndim:
            b = numpy.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
            b[..., ::2] = a
            return b[..., ::2]
        if o == 'reversed' and a.ndim:
            return numpy.array(a[::-1])[::-1]
        if o == 'readonly':
            a.flags.writeable = False
        if o == 'swapped':
            return a.astype(a.dtype.newbyteorder())
        return a
    return dict(v)


def leaves(v):
    """The numbers in nested sequences in order, and their shape (None when ragged)"""
    if isinstance(v, (list, tuple)):
        parts = [leaves(x) for x in v]
        shapes = [s for _, s in parts]
        shape = None if any(s is None or s != shapes[0] for s in shapes) else (len(v),) + (shapes[0] if shapes else ())
        return [x for p, _ in parts for x in p], shape
    return [v], ()


def to_number(x, kind):
    """The number x denotes, or None"""
    import numpy
    if isinstance(x, (bool, int, float, numpy.number)):
        x = x.item() if isinstance(x, numpy.number) else x
    elif not isinstance(x, str):
        return None
    try:
        return int(x) if kind in 'iI' else float(x)
    except (ValueError, OverflowError):
        return None


def numbers_of(v, name, kind):
    """(numbers, shape, tuples inside?) of a value, or None if it has none"""
    import numpy
    if isinstance(v, str):
        if name in MANY or name in FREE:
            if ('[' in v or ']' in v):
                v = v.replace('[', ' ').replace(']', ' ')
        v = v.replace(',', ' ').split()
        strict = True
    elif isinstance(v, numpy.ndarray):
        return [x for x in v.ravel().tolist()], v.shape
    elif isinstance(v, (list, tuple)):
        strict = False
    elif isinstance(v, (bool, int, float, numpy.number)):
        n = to_number(v, kind)
        return None if n is None else ([n], ())
    else:
        return None
    xs, shape = leaves(v)
    xs = [to_number(x, kind) for x in xs]
    if any(x is None for x in xs):
        return None
    return xs, shape


def in_range(xs, kind):
    low, high = {'i': (-2 ** 31, 2 ** 31 - 1), 'I': (0, 2 ** 32 - 1)}.get(kind, (-1e300, 1e300))
    if kind == 'f':
        low, high = -3e38, 3e38
    return all(low <= x <= high for x in xs)


def expected(name, v):
    """('ok', array) where the value denotes one, ('no',) where it must be refused, ('maybe', array or None) where it may be either"""
    import numpy
    kind, dim = SINGLE.get(name) or MANY.get(name) or (FLAT.get(name) or FREE.get(name), None)
    scalar = isinstance(v, (bool, int, float, numpy.number))
    single = name in SINGLE
    if isinstance(v, (str, list, tuple)) and name in ('SFColor', 'MFColor') and (isinstance(v, str) or any(isinstance(x, str) for x in leaves(v)[0])):
        return ('any',)     # C05
    if v is None or (not isinstance(v, (str, list, tuple, numpy.ndarray)) and not scalar and not isinstance(v, (dict, Plain, bytes, set))):
        return ('any',)
    if name in FLAT and isinstance(v, (dict, bytes, set)) and not v:
        return ('any',)
    if isinstance(v, (dict, Plain, set)):
        return ('any',) if name == 'MFColor' else ('no',)
    if isinstance(v, bytes):
        return ('no',) if v == b'q' else ('any',)
    if isinstance(v, (list, tuple)) and any(x is None or isinstance(x, bytes) for x in leaves(v)[0]):
        return ('any',)
    got = numbers_of(v, name, kind)
    if got is None:
        return ('no',)
    xs, shape = got
    if kind in 'iI' and not isinstance(v, numpy.ndarray) and any(not isinstance(x, int) for x in xs):
        xs = [int(x) for x in xs]
    if kind in 'iI' and isinstance(v, numpy.ndarray):
        xs = [int(x) for x in xs]
    if not in_range(xs, kind):
        return ('no',) if not isinstance(v, numpy.ndarray) and (kind in 'iI' or max(map(abs, xs)) > 1e300) else ('any',)
    a = numpy.array(xs, kind) if xs else numpy.zeros((0,), kind)
    if name == 'SFColor' or name == 'MFColor':
        a = numpy.clip(a, 0, 1)
    plain_list = isinstance(v, (str, numpy.ndarray)) or not has_inner_tuple(v)
    if single:
        if scalar:
            return ('ok', numpy.full(dim, a[0], kind))
        if len(xs) != product(dim):
            return ('no',)
        return ('ok' if plain_list else 'maybe', a.reshape(dim))
    if name in MANY:
        if not isinstance(v, str) and shape is None:
            return ('maybe', a.reshape((-1,) + dim) if len(xs) % product(dim) == 0 else None)
        if len(xs) % product(dim):
            return ('no',)
        if name == 'MFColor' and isinstance(v, (list, tuple)) and shape == ():
            return ('any',)
        return ('ok', a.reshape((len(xs) // product(dim),) + dim))
    if name in FREE:
        if isinstance(v, str):
            return ('ok', a)
        if shape is None:
            return ('no',)
        return ('ok', a.reshape(shape if not scalar else (1,)))
    if kind in 'iI':
        if isinstance(v, (list, tuple)) and any(isinstance(x, (list, tuple)) for x in v):
            return ('maybe', a)
        return ('ok', a)
    return ('ok' if plain_list else 'maybe', a)


def has_inner_tuple(v):
    return isinstance(v, (list, tuple)) and any(isinstance(x, tuple) or has_inner_tuple(x) for x in v)


def snapshot(v):
    import numpy
    if isinstance(v, numpy.ndarray):
        return ('array', v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [snapshot(x) for x in v])
    return repr(v)


def disturb(v):
    """Change a value in place: everything in it which can be changed"""
    import numpy
    if isinstance(v, numpy.ndarray):
        base = v if v.flags.writeable else None
        if base is None and v.base is None:
            v.flags.writeable = True
            base = v
        if base is not None:
            if base.dtype.fields:
                base['a'] += 1
            elif base.dtype.char == '?':
                base[...] = ~base
            else:
                base[...] = base + 1
    elif isinstance(v, list):
        for x in v:
            disturb(x)
        v.append(99)


def holder(name, evt):
    from vrml import field, node, fieldtypes as ft
    F = getattr(ft, name)
    default = {'MFString': list}.get(name, '' if name == 'SFString' else list if not name.startswith('SF') or name in ('SFArray', 'SFArray32', 'SFImage') else 0)
    f = F('value', 1, default)
    H = type('Holder', (node.Node,), dict(value=f, PROTO='Holder'))
    return f, H


def check_case(case):
    import numpy, warnings
    warnings.simplefilter('ignore')
    from vrml import fieldtypes as ft
    name = case['type']
    value = build(case['value'])
    before = snapshot(value)
    f, H = holder(name, case['evt'])
    if case['write']:
        h = H()
        def coerce(v):
            h.value = v
            return h.value
    elif case['evt'] and hasattr(ft, name + 'Evt'):
        coerce = getattr(ft, name + 'Evt')('value', 1).coerce
    else:
        coerce = f.coerce
    try:
        got, err = coerce(value), None
    except (ValueError, TypeError) as e:
        got, err = None, e
    except OverflowError as e:
        if case['write']:
            return 'writing %r raised %r' % (value, e)
        got, err = None, e
    if snapshot(value) != before:
        return 'coercing changed the value to %r' % (value,)
    if name in SCALAR:
        why = check_scalar(name, value, got, err)
        if why or err is not None:
            return why
        again = coerce(got)
        return None if type(again) is type(got) and (again == got or again != again) else 'coercing %r again gives %r' % (got, again)
    if name in OTHER:
        why = check_other(name, value, got, err)
        if why or err is not None:
            return why
        again = coerce(got)
        if again != got or type(again) is not type(got):
            return 'coercing %r again gives %r' % (got, again)
        if isinstance(value, list) and isinstance(got, list):
            kept = list(got)
            disturb(value)
            if got != kept:
                return 'the stored list changed with the list given'
            value = build(case['value'])
            got = coerce(value)
            disturb(got)
            if snapshot(value) != before:
                return 'the list given changed with the stored list'
            value = build(case['value'])
            if holder(name, False)[0].coerce(value) != kept:
                return 'after a change of the list stored for %r, another is stored' % (value,)
        return None
    want = ('structured',) if isinstance(value, numpy.ndarray) and value.dtype.fields else expected(name, value)
    if err is not None:
        if want[0] in ('ok', 'structured'):
            return '%r was refused for %s: %s' % (value, name, err)
        return None
    if want[0] == 'no':
        return '%r was accepted for %s as %r' % (value, name, got)
    if not isinstance(got, numpy.ndarray):
        return '%s stores %r for %r' % (name, got, value)
    if want[0] == 'structured':
        if got.dtype != value.dtype or got.tobytes() != value.tobytes():
            return 'the structured array became %r' % (got,)
    else:
        kind, dim = SINGLE.get(name) or MANY.get(name) or (FLAT.get(name) or FREE.get(name), None)
        if got.dtype != numpy.dtype(kind):
            return '%s stores elements %r for %r' % (name, got.dtype, value)
        if (name in SINGLE and got.shape != dim) or (name in MANY and got.shape[1:] != dim) or (name in FLAT and got.ndim != 1):
            return '%s stores the shape %r for %r' % (name, got.shape, value)
        if want[0] in ('ok', 'maybe'):
            if want[1] is None:
                return '%r was accepted for %s as %r' % (value, name, got)
            if got.shape != want[1].shape or not numpy.array_equal(got, want[1]):
                return '%s stores %r for %r, not %r' % (name, got, value, want[1])
    if not got.flags.forc or not got.flags.writeable:
        return '%s stores an array which is not contiguous or not writeable for %r' % (name, value)
    kept = snapshot(got)
    again = coerce(got)
    if snapshot(again) != kept:
        return 'coercing %r again gives %r' % (got, again)
    if again.size and numpy.shares_memory(again, got):
        return 'an array coerced for %s shares its storage' % (name,)
    disturb(value)
    if snapshot(again) != kept or snapshot(got) != kept:
        return 'the value stored for %s changed with the value given' % (name,)
    value = build(case['value'])
    got = coerce(value)
    disturb(got)
    if snapshot(value) != before:
        return 'the value given changed with the value stored for %s' % (name,)
    # an equal value stored elsewhere has nothing in common with it
    fresh = holder(name, False)[0].coerce(build(case['value']))
    if snapshot(fresh) != kept:
        return 'after a change of the value stored for %r, %s stores %r' % (value, name, fresh)
    if fresh.size and numpy.shares_memory(fresh, got):
        return 'two values stored for %r in fields of %s share their storage' % (value, name)
    return None


def check_scalar(name, value, got, err):
    import numpy
    kind = 'd' if SCALAR[name] is float else 'i'
    want = None
    if isinstance(value, (bool, int, float, str, numpy.number)):
        want = to_number(value, kind)
    if isinstance(value, numpy.ndarray) or isinstance(value, bytes):
        return None
    if want is None:
        return None if err is not None else '%r was accepted for %s as %r' % (value, name, got)
    if err is not None:
        return '%r was refused for %s: %s' % (value, name, err)
    if type(got) is not SCALAR[name]:
        return '%s stores %r for %r' % (name, got, value)
    if got != want and want == want:
        return '%s stores %r for %r' % (name, got, value)
    return None


def check_other(name, value, got, err):
    import numpy
    if name == 'SFBool':
        want = value
        if isinstance(value, str):
            try:
                want = int(value)
            except ValueError:
                want = {'true': True, 'false': False}.get(value.lower(), value)
        if isinstance(value, numpy.ndarray):
            return None
        if err is not None:
            return '%r was refused: %s' % (value, err)
        return None if type(got) in (int, bool) and got == (1 if want else 0) else 'SFBool stores %r for %r' % (got, value)
    def text(v):
        """The text of a value, or None if it must be refused"""
        if isinstance(v, str):
            return v
        if isinstance(v, bytes):
            try:
                return v.decode('utf-8')
            except UnicodeDecodeError:
                return None
        if isinstance(v, (list, tuple)):
            parts = [text(v[0])] if len(v) == 1 else v
            return ''.join(parts) if all(isinstance(p, str) for p in parts) else None
        return str(v)
    if name == 'SFString' and isinstance(value, (list, tuple)) and len(value) == 1 and isinstance(value[0], (list, tuple)):
        return None
    elif name == 'SFString':
        want = text(value)
    elif isinstance(value, str):
        want = [value]
    elif isinstance(value, (list, tuple)):
        want = [text(v) for v in value]
        want = None if any(w is None for w in want) else want
    else:
        return None if err is not None or (type(got) is list and all(type(x) is str for x in got)) else 'MFString stores %r for %r' % (got, value)
    if want is None:
        return None if err is not None else '%r was accepted for %s as %r' % (value, name, got)
    if err is not None:
        return '%r was refused for %s: %s' % (value, name, err)
    if type(got) is not type(want) or got != want or (isinstance(got, list) and any(type(x) is not str for x in got)):
        return '%s stores %r for %r' % (name, got, value)
    return None
