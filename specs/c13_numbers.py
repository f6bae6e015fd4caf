PROPERTY = 'C13'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure']
SHARDS = 6
EXPLANATION = ('Writing: SFFloat_vrmlstr and the functions it calls are executed on any number; the text str gives is known to be a decimal literal which reads back as the number (float32: only if '
               'that is checked by the code), and what is written is proved to be such a literal, at most without a zero that does not change its value. MFSimple_vrmlstr and the vrmlstr methods of the '
               'vector, list, array and scalar types are executed on any number of items: every item is written once, in order, separated by blanks. Reading: the productions Field and SFNumber '
               'of the grammar in /repo are executed on any literal followed by anything that can follow it, and on any list of literals; the handlers of every numeric type in parseprocessor.py are '
               'executed on any number of elements and give the number of each element, in order. Arrays of any dimension (SFArray, SFArray32): what vrmlstr writes of an array is, by induction on its dimension '
               '(the call for an item by contract), the text the handler of the type reads as the same nested lists. Storing the numbers read is the subject of C04.')
BOUNDED = ['bounded: numbers of every type (every exponent, neighbours of powers of two and ten, subnormals, both zeros, the single-precision number whose shortest text is rounded twice, random bit patterns), '
           'arrays of every length up to 320 and of random lengths up to 3000, written, parsed and compared bit for bit']
TRUSTED = ['str of an int, a float and a numpy number gives a decimal literal that float (int) reads as the same number, for float32 the same up to its precision (CPython, numpy)',
           'float depends on the number a literal denotes and its sign only', 'converting a single-precision number to double precision is exact', 'str.join', 'simpleparse: meaning of the elements of the grammar as documented']
ASSUMPTIONS = ['numbers are finite, integers have fewer than 4300 digits', 'arrays of SFArray have a dimension, and no empty dimension before another one',
               'the separators the lineariser is configured with are blanks, line feeds, tabs and commas, and not empty', 'no field is called like a keyword of VRML97']
# --- end of meta
from common import *

BLANK = ' \t\n,'
DIGITS = '0123456789'
NODES = ('SFNode', 'MFNode', 'WeakSFNode', 'RootScenegraphNode', 'SFString', 'MFString')


def numeric_types():
    """Names of the numeric field types and the events"""
    all_modules()
    from vrml import field
    return sorted(t for t in field.baseFieldTypes if t not in NODES)


def numbers(ctx, interp, T, kind):
    """Contracts of str, float, int and numpy.float32 on numbers of one kind: (text, read, acceptable)"""
    import z3, numpy
    from pvc.values import SAny, SStr, V, string
    types = dict(float64=numpy.float64, float32=numpy.float32, int=numpy.int32, bool=bool)
    S = z3.StringSort()
    Text, Number = z3.Function('text', V, S), z3.Function('number', S, V)
    Double, Single, Whole, Integer = [z3.Function(x, V, V) for x in ('double', 'single', 'whole', 'integer')]
    parts = {}
    from texts import Words
    from grammar import Char, Run, CharSet, lit
    W = Words(ctx, interp, T)
    def type_of(z):
        name = z.decl().name() if z3.is_app(z) else ''
        return {'double': float, 'number': float, 'single': numpy.float32, 'integer': int}.get(name, types[kind])
    def isinst(interp, v, cls):
        if isinstance(v, SAny):
            return issubclass(type_of(v.z), cls)
        return NotImplemented
    def text(interp, v):
        z = z3.simplify(Text(v.z))
        t = type_of(v.z)
        if z.get_id() not in parts:
            floating = issubclass(t, (float, numpy.floating))
            if not floating:
                ctx.assume(Number(z) == Integer(v.z), check=False)
            elif not issubclass(t, numpy.float32):
                ctx.assume(Number(z) == v.z, check=False)
            parts[z.get_id()] = [z, None]
            def shaped():
                # the form of the text, by cases, once it matters
                if parts[z.get_id()][1] is None:
                    digits = lambda: [Char(DIGITS), Run(DIGITS)]
                    sign = lit('-') if ctx.choose([True, False]) else []
                    whole = lit('0') if ctx.choose([True, False]) else [Char('123456789'), Run(DIGITS)]
                    point = exponent = ()
                    if floating:
                        shape = ctx.choose(['point', 'exponent', 'both'])
                        if shape != 'exponent':
                            point = lit('.') + digits()
                        if shape != 'point':
                            exponent = lit('e') + [Char('+-')] + digits()
                    parts[z.get_id()][1] = [list(x) for x in (sign, whole, point, exponent)]
                return [c for x in parts[z.get_id()][1] for c in x]
            W.put(z, shaped)
        return SStr(z)
    def to_float(interp, v):
        if isinstance(v, SStr):
            return SAny(Number(v.z), None, 'number')
        t = type_of(v.z)
        if issubclass(t, float):
            return v
        if issubclass(t, numpy.float32):
            d = Double(v.z)
            ctx.assume(Single(d) == v.z, check=False)
            return SAny(d, None, 'double')
        interp.unsupported('float of an integer')
    def to_single(interp, args, kwargs):
        (v,) = args
        if issubclass(type_of(v.z), numpy.float32):
            return v
        return SAny(Single(v.z), None, 'single')
    def to_int(interp, v, *base):
        if base and base != (0,) and base != (10,):
            interp.unsupported('int with a base')
        if isinstance(v, SStr):
            return SAny(Number(v.z), None, 'number')
        if issubclass(type_of(v.z), (int, numpy.integer)):
            d = Integer(v.z)
            return SAny(d, None, 'integer')
        interp.unsupported('int of a float')
    cc = interp.class_contracts
    cc['isinstance', None] = isinst
    cc['text', None] = text
    cc['float', None] = cc['float', str] = to_float
    cc['int', None] = cc['int', str] = to_int
    interp.contract(numpy.float32, to_single, 'numpy.float32')
    interp.contract(numpy.float64, lambda interp, args, kwargs: to_float(interp, args[0]), 'numpy.float64')
    def reduce(interp, args, kwargs):
        import functools
        from pvc.values import has_sym
        if has_sym(args):
            interp.unsupported('reduce')
        return functools.reduce(*args, **kwargs)
    interp.contract(__import__('functools').reduce, reduce, 'functools.reduce')
    def reads(z, x):
        """The text z reads as the number x of the kind"""
        if kind == 'float32':
            return Single(Number(z)) == x
        if kind == 'int':
            return Number(z) == Integer(x)
        return Number(z) == x
    def exact(r, x):
        """r is one of the texts, and reads as x"""
        r = string(r)
        return z3.Or(*[z3.And(r == z, reads(z, x)) for z, _ in parts.values()]) if parts else z3.BoolVal(False)
    def literal(r, x):
        """r denotes the same number as a text which reads as x"""
        got = W.of(r)
        if got is None:
            return False
        ok = []
        for z, shape in parts.values():
            if shape is None:
                continue
            sign, whole, point, exponent = [W.normal(x) for x in shape]
            forms = [sign + whole + point + exponent]
            if only(whole, '0') and point:
                forms.append(sign + point + exponent)
            if only(point, '.0'):
                forms.append(sign + whole + exponent)
            if any(len(f) == len(got) and all(a is b or (singleton(a) and singleton(a) == singleton(b)) for a, b in zip(f, got)) for f in forms):
                ok.append(reads(z, x))
        return z3.Or(*ok) if ok else False
    def singleton(c):
        return None if not isinstance(c, Char) or c.set.negative or len(c.set.chars) != 1 else list(c.set.chars)[0]
    def only(segments, text):
        return [singleton(c) for c in segments] == list(text)
    return exact, literal


def literal_segments(ctx, whole=True, lead=True):
    """Any literal: sign, digits, fraction, exponent, as the segments of a text"""
    from grammar import Char, Run, lit
    out = list(lit('-')) if ctx.choose([True, False]) else []
    digits = lambda: [Char(DIGITS), Run(DIGITS)]
    kind = ctx.choose(['integer', 'fraction', 'no integer'])
    if kind == 'integer':
        out += digits()
    elif kind == 'fraction':
        out += digits() + lit('.') + digits()
    else:
        out += lit('.') + digits()
    if ctx.choose([True, False]):
        out += lit('e') + [Char('+-')] + digits()
    return out


def any_literal():
    from grammar import Atom
    return Atom('SFNumber', '-.' + DIGITS, 'number')


def follow(ctx):
    """What may come after the value of an attribute: another attribute, or the end of the node"""
    import c12_strings
    return c12_strings.follow(ctx)


def linvalues(ctx, T):
    """What the lineariser is configured with; separators are not empty"""
    from grammar import Run, Char
    from pvc.values import SStr
    out = {}
    for key, chars, least in [('subelspacer', BLANK, 1), ('courtesyspace', ' ', 0), ('curindent', ' \t', 0), ('indent', ' \t', 0), ('numsep', BLANK, 1), ('full_element_separator', BLANK, 1), ('mffieldsep', BLANK, 1)]:
        s = ctx.str(key)
        T.known(s.z, lambda chars=chars, least=least: [Char(chars)] * 0 + ([Char(chars)] if least else []) + [Run(chars)])
        out[key] = s
    return out


def configured(ctx, interp, T):
    from vrml.vrml97 import linearise
    from pvc import models
    L = models.new_instance(interp, linearise.Lineariser)
    values = linvalues(ctx, T)
    interp.set_attr(L, 'linvalues', values)
    return L


class ListOf(object):
    """What a list of texts is made of: dims lengths, items in order"""
    def __init__(self, n, inner):
        self.n, self.inner = n, inner


def layout(ctx, interp, T, v, counts, item, exact, chunks):
    """The segments of a text that is to hold the numbers item(i, ...) in order, 0 <= i < counts[0], ...

    Checked: every number is written once and in order. Returns the segments with an Atom for each number.
    """
    import z3
    from pvc.values import LazyList, SStr
    from pvc import models
    from grammar import Run, Char, Star, CharSet, lit
    def separator(v, name):
        segs = T.segments(v)
        ctx.check('numbers are separated', any(isinstance(s, Char) for s in segs) and all(isinstance(s, (Char, Run)) and s.set.within(CharSet(BLANK)) for s in segs), '%s: %r' % (name, segs))
        return segs
    def items_of(L, index, depth):
        """Checks that L has the items of that depth in order; gives (separators inside)"""
        n = counts[depth]
        ctx.check('as many items are written', models.length_term(L) == n if isinstance(L, LazyList) else z3.IntVal(len(L)) == n, repr(L))
        j = ctx.int('j').z
        ctx.assume(z3.And(j >= 0, j < n))
        x = models.index_list(interp, L, j)
        if not isinstance(x, (str, SStr)):
            ctx.check('texts are joined', False, repr(x))
            return []
        if depth + 1 == len(counts):
            ctx.check('every number is written so that it reads back', exact(x, item(*(index + (j,)))), repr(x))
            ctx.cover('item')
            return []
        return inside(x, index + (j,), depth + 1)
    def inside(x, index, depth):
        parts = T.parts(x)
        ctx.check('the numbers of an item are joined', len(parts) == 1 and not isinstance(parts[0], str) and parts[0].get_id() in T.joins, repr(x))
        if len(parts) != 1 or isinstance(parts[0], str) or parts[0].get_id() not in T.joins:
            return []
        sep, L, _ = T.joins[parts[0].get_id()]
        return [separator(sep, 'numbers')] + items_of(L, index, depth)
    out, found = [], 0
    for p in T.parts(v):
        if isinstance(p, str):
            out += lit(p)
        elif p.get_id() in T.joins:
            sep, L, _ = T.joins[p.get_id()]
            found += 1
            seps = [separator(sep, 'items')]
            if id(L) in chunks:
                c = chunks[id(L)]
                seps += [separator(s, 'items of a chunk') for s in c.separators] + items_of(c.root, (), 0)
            else:
                seps += items_of(L, (), 0)
            def make(star, seps=seps):
                # the separators are those of the text, whichever
                return [([any_literal()] + copy_of(s), None) for s in seps]
            out += [Star(make, None, 'numbers'), any_literal()]
        else:
            out += T.segments(SStr(p))
    ctx.check('the items are written once', found == 1, repr(v))
    return out


def copy_of(segs):
    from grammar import Char, Run
    return [type(s)(s.set) for s in segs]


def chunked(ctx, interp, T, chunks):
    """A rule for 'while items: out.append(sep.join(items[:n])); del items[:n]' and the like"""
    import ast, z3
    from pvc.values import LazyList, SStr
    from pvc.engine import PathEnd
    from pvc.interp import Poison, Continue, Break
    from pvc import loops, models

    class Rest(LazyList):
        """What is left of the items"""
        def __init__(self, root, at):
            LazyList.__init__(self, z3.simplify(root.n - at), lambda j: root.item(z3.simplify(self.at + j)), 'rest')
            self.root, self.at = root, at
        def list_method(self, interp, target, name, args, kwargs):
            if name == '__delitem__' and isinstance(args[0], slice):
                a, b = models.slice_bounds(interp, args[0], self.n)
                if not (z3.is_int_value(a) and a.as_long() == 0):
                    interp.unsupported('deletion inside of the rest')
                self.at = z3.simplify(self.at + b)
                self.n = z3.simplify(self.n - b)
                return None
            if name == '__getitem__' and isinstance(args[0], slice):
                a, b = models.slice_bounds(interp, args[0], self.n)
                at = z3.simplify(self.at + a)
                root = self.root
                r = LazyList(z3.simplify(b - a), lambda j: root.item(z3.simplify(at + j)), 'slice')
                r.part = (root, at)
                return r
            return models.lazy_method(interp, target, self, name, args, kwargs)

    class Chunks(LazyList):
        """The texts of the chunks so far"""
        def __init__(self, root):
            C = z3.Function(ctx.name('chunk'), z3.IntSort(), z3.StringSort())
            LazyList.__init__(self, ctx.int('chunks').z, lambda j: SStr(C(j)), 'chunks')
            self.root, self.added, self.separators = root, [], []
        def list_method(self, interp, target, name, args, kwargs):
            if name == 'append':
                self.added.append(args[0])
                return None
            return models.lazy_method(interp, target, self, name, args, kwargs)

    def rule(interp, stmt, fr, items):
        if items is not None or not isinstance(stmt, ast.While):
            return NotImplemented
        names = {x.id for x in ast.walk(stmt) if isinstance(x, ast.Name)}
        sources = {k: v for k, v in fr.locals.items() if k in names and isinstance(v, LazyList)}
        outs = {k: v for k, v in fr.locals.items() if k in names and type(v) is list and not v}
        if len(sources) != 1 or len(outs) != 1:
            return NotImplemented
        (sname, root), (oname, _) = list(sources.items())[0], list(outs.items())[0]
        at = ctx.int('done').z
        ctx.assume(z3.And(at >= 0, at <= root.n), check=False)
        for n in loops.assigned(stmt.body):
            fr.locals[n] = Poison('value of %s carried around a loop of %s' % (n, fr.name))
        rest, out = Rest(root, at), Chunks(root)
        # before the first step there is no chunk, later there are some
        ctx.assume(z3.If(at == 0, out.n == 0, out.n >= 1), check=False)
        fr.locals[sname], fr.locals[oname] = rest, out
        if interp.truth(interp.ev(stmt.test, fr)):
            interp.block(stmt.body, fr)
            ctx.cover('chunk')
            if fr.locals[oname] is not out or len(out.added) != 1:
                interp.unsupported('loop which does not add one chunk in each step')
            left = fr.locals[sname]
            if isinstance(left, Rest):
                at2, whole = left.at, left.n
            elif getattr(left, 'part', None) is not None and left.part[0] is root:
                at2, whole = left.part[1], left.n
            else:
                interp.unsupported('loop which keeps the items left otherwise')
            parts = T.parts(out.added[0])
            if len(parts) != 1 or isinstance(parts[0], str) or parts[0].get_id() not in T.joins:
                interp.unsupported('chunk which is no join of items')
            sep, L, _ = T.joins[parts[0].get_id()]
            part = getattr(L, 'part', None)
            if part is None or part[0] is not root:
                interp.unsupported('chunk which is no slice of the items')
            ctx.check('a chunk begins where the last one ended', part[1] == at)
            ctx.check('a chunk is not empty', L.n >= 1)
            ctx.check('the items of the chunk, and no others, are taken off', z3.And(at2 == part[1] + L.n, whole == root.n - at2))
            segs = T.segments(sep)
            from grammar import Char, Run, CharSet
            ctx.check('numbers are separated', any(isinstance(s, Char) for s in segs) and all(isinstance(s, (Char, Run)) and s.set.within(CharSet(BLANK)) for s in segs), repr(segs))
            raise PathEnd('step of the invariant')
        ctx.check('all items are in chunks', at == root.n)
        ctx.assume(at == root.n, check=False)
        from grammar import Char, Run
        # proved above: blanks
        S = ctx.str('separator in a chunk')
        T.known(S.z, lambda: [Char(BLANK), Run(BLANK)])
        out.separators.append(S)
        chunks[id(out)] = out
        chunks['keep', id(out)] = out
        interp.block(stmt.orelse, fr)
        return None
    interp.loop_specs.insert(0, rule)


def reading(ctx, segments, check):
    """Run the production Field on a value and what may follow: the parts of the tree"""
    import grammar as g
    from pvc.engine import Unsupported
    after, first = follow(ctx)
    text = g.Text(ctx, segments + after)
    peg = g.Peg(ctx, text, on_item=check)
    try:
        r = peg.production('Field', text.start)
    except g.Refused as err:
        ctx.check('what is written is no syntax error', False, str(err))
        return None
    except g.Unknown as err:
        raise Unsupported('grammar: %s' % err)
    ctx.check('what is written is a value', r is not None)
    if r is None:
        return None
    end = text.ahead(r[0])
    ctx.check('the value is read up to what follows it', isinstance(end, g.Char) and end.set.within(g.CharSet(first)), repr(end))
    return r[1].children


def proofs(mode):
    import z3, numpy
    from vrml import fieldtypes as ft, field, arrays
    from vrml.vrml97 import parseprocessor
    from pvc.values import SStr, SInt, SAny, LazyList, V, string
    from pvc.engine import PyExc, PathEnd, Unsupported
    from pvc import loops, models
    import grammar as g
    from texts import Texts
    import c12_strings
    out = []

    # ------------------------------------------------------------ one number
    def one(kind):
        def run(ctx):
            interp = make_interp(ctx)
            T = Texts(ctx, interp)
            exact, literal = numbers(ctx, interp, T, kind)
            x = ctx.any('value')
            try:
                r = interp.call(ft.SFFloat_vrmlstr, [x, configured(ctx, interp, T)])
            except PyExc as err:
                ctx.check('writing does not fail', False, str(err))
                return
            ctx.cover('written')
            ctx.check('a text is written', isinstance(r, (str, SStr)), repr(r))
            if isinstance(r, (str, SStr)):
                ctx.check('the text denotes the number', literal(r, x.z), repr(r))
        return run
    for kind in ('float64', 'float32'):
        out.append(('writing a number (%s)' % kind, one(kind), dict(covers=['written'], wall=200)))

    def read_one(ctx):
        """A literal is read as one number, whatever follows"""
        segs = literal_segments(ctx)
        after = ctx.choose([[g.Char(BLANK + ']')], g.lit('\n')])
        text = g.Text(ctx, segs + after)
        try:
            r = g.Peg(ctx, text).production('SFNumber', text.start)
        except g.Refused as err:
            ctx.check('a number is no syntax error', False, str(err))
            return
        except g.Unknown as err:
            raise Unsupported('grammar: %s' % err)
        ctx.cover('read')
        ctx.check('a number is read', r is not None)
        if r is not None:
            end = text.ahead(r[0])
            ctx.check('a number is read completely and nothing else', end is text.resolve(after[0]), repr(end))
    out.append(('reading a number', read_one, dict(covers=['read'])))

    out.append(('names end numbers', c12_strings.names_end_values('0'), dict(covers=['name'])))

    def types(base):
        return [t for t in numeric_types() if issubclass(field.baseFieldTypes[t], base)]

    # ------------------------------------------------------------ lists
    def item_check(ctx):
        def item(text, s, nodes):
            ctx.cover('item read')
            ctx.check('a number of a list is read as one number', len(nodes) == 1 and nodes[0].tag == 'SFNumber' and isinstance(text.ahead(nodes[0].start), g.Atom), repr(nodes))
        return item

    def whole_list(ctx, r, counts, item, exact, T, interp, chunks):
        if isinstance(r, str):
            # nothing but brackets
            ctx.cover('empty')
            ctx.check('nothing is written only for nothing', z3.Or(*[c == 0 for c in counts]), r)
            children = reading(ctx, g.lit(r), None)
            if children is not None:
                ctx.check('an empty list is read', children == [], repr(children))
            return
        segs = layout(ctx, interp, T, r, counts, item, exact, chunks)
        children = reading(ctx, segs, item_check(ctx))
        if children is None:
            return
        ctx.cover('list read')
        ok = len(children) == 2 and isinstance(children[0], g.Many) and children[1].tag == 'SFNumber' and isinstance(children[1].start, g.Atom)
        ctx.check('the numbers are read, and nothing else', ok, repr(children))

    def simple(t, kind, empty):
        def run(ctx):
            interp = make_interp(ctx)
            T = Texts(ctx, interp)
            exact, literal = numbers(ctx, interp, T, kind)
            n = ctx.int('n').z
            ctx.assume(n == 0 if empty else n >= 1)
            Item = z3.Function('item', z3.IntSort(), V)
            value = LazyList(n, lambda j: SAny(Item(j), None, 'item'), 'value')
            chunks = {}
            chunked(ctx, interp, T, chunks)
            try:
                f = interp.call(field.baseFieldTypes[t], ['field', 1, list])
                r = interp.call(interp.get_attr(f, 'vrmlstr'), [value, configured(ctx, interp, T)])
            except PyExc as err:
                ctx.check('writing does not fail', False, str(err))
                return
            ctx.cover('written')
            if empty:
                ctx.check('an empty list is written', isinstance(r, (str, SStr)))
                children = reading(ctx, [s for s in T.segments(r)], None)
                if children is not None:
                    ctx.check('an empty list is read', children == [], repr(children))
                return
            whole_list(ctx, r, [n], lambda j: Item(j), exact, T, interp, chunks)
        return run
    for t in types((ft._MFInt32, ft._MFFloat)):
        kind = 'int' if issubclass(field.baseFieldTypes[t], ft._MFInt32) else 'float32' if field.baseFieldTypes[t].targetType == 'f' else 'float64'
        out.append(('writing and reading %s' % t, simple(t, kind, False), dict(covers=['written', 'item', 'list read', 'item read'], wall=200)))
        out.append(('writing and reading %s without numbers' % t, simple(t, kind, True), dict(covers=['written'])))

    # ------------------------------------------------------------ vectors
    def vector(F, kind):
        size = int(numpy.prod(F.dimension))
        def run(ctx):
            interp = make_interp(ctx)
            T = Texts(ctx, interp)
            exact, literal = numbers(ctx, interp, T, kind)
            Item = z3.Function('item', z3.IntSort(), V)
            Lit = z3.Function('literal', V, z3.StringSort())
            interp.contract(ft.SFFloat_vrmlstr, lambda interp, args, kwargs: SStr(Lit(args[0].z)), 'SFFloat_vrmlstr (proved)')
            array = ctx.any('value', numpy.ndarray)
            flat = [SAny(Item(z3.IntVal(i)), None, 'item%d' % i) for i in range(size)]
            def iterate(interp, a):
                if len(F.dimension) > 1:
                    interp.unsupported('rows of a matrix')
                return list(flat)
            interp.class_contracts['iter', numpy.ndarray] = iterate
            interp.class_contracts['attr', numpy.ndarray, 'flat'] = lambda interp, a: list(flat)
            from pvc.values import Model
            for name in ('ravel', 'flatten'):
                interp.class_contracts['attr', numpy.ndarray, name] = lambda interp, a: Model(lambda interp, args, kwargs: interp.make(list(flat)), name)
            for f in (numpy.ravel, arrays.ravel):
                interp.contract(f, lambda interp, args, kwargs: interp.make(list(flat)), 'numpy.ravel')
            f = interp.call(F, ['field', 1, [0.0] * size])
            try:
                r = interp.call(interp.get_attr(f, 'vrmlstr'), [array, configured(ctx, interp, T)])
            except PyExc as err:
                ctx.check('writing does not fail', False, str(err))
                return
            ctx.cover('written')
            # literals alternate with separators
            parts = T.parts(r)
            seen, segs = [], []
            for p in parts:
                if not isinstance(p, str) and p.decl().name() == 'literal':
                    ctx.check('numbers are separated', not seen or any(isinstance(s, g.Char) for s in gap), repr(parts))
                    seen.append(p)
                    segs.append(any_literal())
                    gap = []
                else:
                    gap = T.segments(p if isinstance(p, str) else SStr(p))
                    ctx.check('separators are blanks', all(isinstance(s, (g.Char, g.Run)) and s.set.within(g.CharSet(BLANK)) for s in gap), repr(gap))
                    segs += gap
            ctx.check('all components are written in order', len(seen) == size and all(z3.eq(z3.simplify(p), z3.simplify(Lit(Item(z3.IntVal(i))))) for i, p in enumerate(seen)), repr(parts))
            children = reading(ctx, segs, None)
            if children is None:
                return
            ctx.cover('read')
            ctx.check('the components are read, and nothing else', len(children) == size and all(c.tag == 'SFNumber' and isinstance(c.start, g.Atom) for c in children), repr(children))
        return run
    for t in types(ft._SFVec):
        F = field.baseFieldTypes[t]
        out.append(('writing and reading %s' % t, vector(F, 'float32'), dict(covers=['written', 'read'], wall=100)))

    def vectors(F, kind):
        size = int(numpy.prod(F.dimension))
        def run(ctx):
            interp = make_interp(ctx)
            T = Texts(ctx, interp)
            exact, literal = numbers(ctx, interp, T, kind)
            n = ctx.int('n').z
            ctx.assume(n >= 0)
            Item = z3.Function('item', z3.IntSort(), z3.IntSort(), V)
            rows = {}
            def row(j):
                key = j.get_id()
                if key not in rows:
                    r = ctx.any('row', numpy.matrix)
                    rows[key] = (r, j)
                    rows[r.z.get_id(), 'row'] = j
                return rows[key][0]
            def elements(interp, r):
                j = rows[r.z.get_id(), 'row']
                return LazyList(z3.IntVal(size), lambda m: SAny(Item(j, m), None, 'number'), 'numbers')
            value = LazyList(n, row, 'value')
            from pvc.values import Model
            for name in ('ravel', 'flatten'):
                interp.class_contracts['attr', numpy.matrix, name] = lambda interp, a: Model(lambda interp, args, kwargs: elements(interp, a), name)
            interp.class_contracts['attr', numpy.matrix, 'flat'] = elements
            if len(F.dimension) == 1:
                interp.class_contracts['iter', numpy.matrix] = elements
            interp.contract(arrays.ravel, lambda interp, args, kwargs: elements(interp, args[0]), 'numpy.ravel')
            chunks = {}
            chunked(ctx, interp, T, chunks)
            f = interp.call(F, ['field', 1, list])
            try:
                r = interp.call(interp.get_attr(f, 'vrmlstr'), [value, configured(ctx, interp, T)])
            except PyExc as err:
                ctx.check('writing does not fail', False, str(err))
                return
            ctx.cover('written')
            whole_list(ctx, r, [n, z3.IntVal(size)], lambda j, m: Item(j, m), exact, T, interp, chunks)
        return run
    for t in types(ft._MFVec):
        F = field.baseFieldTypes[t]
        kind = 'float32' if F.targetType == 'f' else 'float64'
        out.append(('writing and reading %s' % t, vectors(F, kind), dict(covers=['written', 'item', 'empty', 'list read', 'item read', 'chunk'], wall=200)))

    # ------------------------------------------------------------ arrays of any dimension
    def nested(t):
        """One level of an array: its items are numbers, or arrays which are written and read (by induction on the dimension)"""
        F = field.baseFieldTypes[t]
        write = resolved(F, 'vrmlstr')
        kind = 'float32' if F.targetType == 'f' else 'float64'
        def run(ctx):
            interp = make_interp(ctx)
            T = Texts(ctx, interp)
            exact, literal = numbers(ctx, interp, T, kind)
            what = ctx.choose(['number', 'numbers', 'arrays', 'nothing'])
            n = ctx.int('n').z
            ctx.assume(n == 0 if what == 'nothing' else n >= 1)
            Item = z3.Function('item', z3.IntSort(), V)
            Text = z3.Function('text_of_item', V, z3.StringSort())
            value = ctx.any('value') if what == 'number' else LazyList(n, lambda j: SAny(Item(j), None, 'item'), 'value')
            shape = {'number': (), 'numbers': (SInt(n),), 'nothing': (0,), 'arrays': (SInt(n), SInt(ctx.int('columns').z))}[what]
            def shape_of(interp, args, kwargs):
                if args[0] is not value:
                    interp.unsupported('the shape of an item')
                return shape
            interp.contract(arrays.shape, shape_of, 'numpy.shape')
            interp.class_contracts['attr', None, 'shape'] = lambda interp, o: shape
            outer = [True]
            known = {}
            def recursive(interp, args, kwargs):
                if outer[0]:
                    outer[0] = False
                    return interp.call_live(write, args, kwargs)
                x = args[1]
                if not (isinstance(x, SAny) and z3.is_app(x.z) and x.z.decl().name() == 'item'):
                    interp.unsupported('writing of %r' % (x,))
                ctx.check('items are written as the array is', len(args) + len(kwargs) == 3 and (list(args[2:]) + list(kwargs.values()))[0] is L, repr((args, kwargs)))
                return SStr(Text(x.z))
            interp.contract(write, recursive, 'vrmlstr (by induction)')
            f = interp.call(F, ['field', 1, list])
            L = configured(ctx, interp, T)
            try:
                r = interp.call(interp.get_attr(f, 'vrmlstr'), [value, L])
            except PyExc as err:
                ctx.check('writing does not fail', False, str(err))
                return
            ctx.cover('written')
            if what == 'number':
                ctx.check('the text denotes the number', literal(r, value.z), repr(r))
                return
            def phrase():
                # what is written for an item, by induction
                return [any_literal()] if what == 'numbers' else g.lit('[') + [g.Rest('vector')]
            if what == 'nothing':
                ctx.cover('empty')
                ctx.check('a text is written', isinstance(r, (str, SStr)), repr(r))
                segs = list(T.segments(r))
            else:
                segs, found = [], 0
                for p in T.parts(r):
                    if isinstance(p, str):
                        segs += g.lit(p)
                        continue
                    if p.get_id() not in T.joins:
                        segs += T.segments(SStr(p))
                        continue
                    sep, M, _ = T.joins[p.get_id()]
                    found += 1
                    seps = T.segments(sep)
                    ctx.check('items are separated by blanks', any(isinstance(x, g.Char) for x in seps) and all(isinstance(x, (g.Char, g.Run)) and x.set.within(g.CharSet(BLANK)) for x in seps), repr(seps))
                    ctx.check('as many items are written', models.length_term(M) == n, repr(M))
                    j = ctx.int('j').z
                    ctx.assume(z3.And(j >= 0, j < n))
                    x = models.index_list(interp, M, j)
                    ctx.check('every item is written once, in order', isinstance(x, SStr) and z3.eq(z3.simplify(x.z), z3.simplify(Text(Item(j)))), repr(x))
                    segs += [g.Star(lambda star: [(phrase() + copy_of(seps), None)], None, 'items')] + phrase()
                ctx.check('the items are written once', found == 1, repr(r))
            def item(text, star, nodes):
                ctx.cover('item')
                ctx.check('an item is read as one', len(nodes) == 1 and nodes[0].tag == ('SFNumber' if what == 'numbers' else 'vector'), repr(nodes))
            production = ctx.choose(['Field', 'vector'])
            after, first = follow(ctx) if production == 'Field' else (ctx.choose([g.lit(']'), [g.Char(BLANK)] + g.lit(']')]), None)
            text = g.Text(ctx, segs + after)
            try:
                read = g.Peg(ctx, text, on_item=item).production(production, text.start)
            except g.Refused as err:
                ctx.check('what is written is no syntax error', False, str(err))
                return
            except g.Unknown as err:
                raise Unsupported('grammar: %s' % err)
            ctx.check('what is written is read', read is not None, repr(segs))
            if read is None:
                return
            ctx.cover(production)
            end = text.ahead(read[0])
            if production == 'Field':
                ctx.check('the value is read up to what follows it', isinstance(end, g.Char) and end.set.within(g.CharSet(first)), repr(end))
            else:
                ctx.check('the array is read up to what follows it', end is text.ahead(after[0]), repr(end))
            kids = read[1].children
            if what == 'nothing':
                ctx.check('nothing is read', kids == [], repr(kids))
            else:
                ctx.check('the items are read, and nothing else', len(kids) == 2 and isinstance(kids[0], g.Many) and kids[1].tag == ('SFNumber' if what == 'numbers' else 'vector'), repr(kids))
        return run
    def nested_read(t):
        F = field.baseFieldTypes[t]
        handle = parseprocessor.ParseProcessor.__dict__[t]
        def run(ctx):
            interp = make_interp(ctx)
            buffer, Slice = c12_strings.slices(interp, ctx)
            Number, Sub = z3.Function('number', z3.StringSort(), V), z3.Function('array_of', V, V)
            Children = z3.Function('children', z3.IntSort(), V)
            interp.class_contracts['float', str] = lambda interp, v: SAny(Number(v.z), None, 'number')
            P = c12_strings.processor(interp, t)
            A, B = [z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('from', 'to')]
            n = ctx.int('n').z
            ctx.assume(n >= 0)
            kind = ctx.choose(['numbers', 'arrays'])
            tables = LazyList(n, lambda j: ('SFNumber', SInt(A(j)), SInt(B(j)), interp.make([])) if kind == 'numbers' else ('vector', SInt(A(j)), SInt(B(j)), SAny(Children(j), None, 'children')), 'parts')
            outer = [True]
            level = ctx.choose(['whole', 'part'])
            def recursive(interp, args, kwargs):
                if outer[0]:
                    outer[0] = False
                    return interp.call_live(handle, args, kwargs)
                kw = dict(zip(('self', 'values', 'buffer', 'final'), args), **kwargs)
                ctx.check('parts are read from the same text, as parts', kw['self'] is P and kw['buffer'] is buffer and not kw.get('final', True) and isinstance(kw['values'], SAny), repr(kw))
                return SAny(Sub(kw['values'].z), None, 'array')
            interp.contract(handle, recursive, '%s (by induction)' % t)
            made = []
            def make(interp, args, kwargs):
                ctx.check('the array holds doubles', [numpy.dtype(x) for x in list(args[1:2]) + [kwargs.get('dtype')][:1 if 'dtype' in kwargs else 0]] == [numpy.dtype('d')], repr((args, kwargs)))
                made.append(args[0])
                return ctx.any('array')
            interp.contract(parseprocessor.array, make, 'numpy.array')
            try:
                if level == 'whole':
                    r = interp.call(interp.get_attr(P, 'Field'), [('Field', 0, 1, tables), buffer])
                else:
                    r = interp.call(interp.get_attr(P, t), [tables, buffer], dict(final=False))
            except PyExc as err:
                ctx.check('reading does not fail', False, str(err))
                return
            ctx.cover(level)
            if level == 'whole':
                ctx.check('one array is made of what is read', len(made) == 1, repr(made))
                if len(made) != 1:
                    return
                r = made[0]
            else:
                ctx.check('parts are no arrays yet', not made)
            got = interp.iterate(r) if not isinstance(r, (list, LazyList)) else r
            ctx.check('as many items', models.length_term(got) == n, repr(r))
            j = ctx.int('j').z
            ctx.assume(z3.And(j >= 0, j < n))
            x = models.index_list(interp, got, j)
            want = Number(Slice(A(j), B(j))) if kind == 'numbers' else Sub(Children(j))
            ctx.cover(kind)
            ctx.check('every item is read, in order', isinstance(x, SAny) and z3.eq(z3.simplify(x.z), z3.simplify(want)), repr(x))
        return run
    for t in numeric_types():
        F = field.baseFieldTypes[t]
        if issubclass(F, ft._SFArray) and not issubclass(F, ft._MFVec):
            out.append(('writing and reading %s' % t, nested(t), dict(covers=['written', 'empty', 'item', 'Field', 'vector'], wall=200)))
            out.append(('handler of %s' % t, nested_read(t), dict(covers=['whole', 'part', 'numbers', 'arrays'])))

    # ------------------------------------------------------------ scalars
    def scalar(t):
        F = field.baseFieldTypes[t]
        def run(ctx):
            interp = make_interp(ctx)
            T = Texts(ctx, interp)
            f = interp.call(F, ['field', 1, 0])
            if issubclass(F, ft._SFBool):
                x = ctx.choose([0, 1, True, False])
                r = interp.call(interp.get_attr(f, 'vrmlstr'), [x, configured(ctx, interp, T)])
                ctx.cover('written')
                ctx.check('a truth value is written', r == ('TRUE' if x else 'FALSE'), repr(r))
                segs = g.lit(r)
            else:
                kind = 'float64' if issubclass(F, ft._SFFloat) else 'int'
                exact, literal = numbers(ctx, interp, T, kind)
                x = ctx.any('value')
                try:
                    r = interp.call(interp.get_attr(f, 'vrmlstr'), [x, configured(ctx, interp, T)])
                except PyExc as err:
                    ctx.check('writing does not fail', False, str(err))
                    return
                ctx.cover('written')
                if kind == 'int':
                    parts = T.parts(r)
                    name = parts[0].decl().name() if len(parts) == 1 and not isinstance(parts[0], str) else ''
                    ctx.check('an integer is written', name == 'text' and (z3.eq(parts[0].arg(0), x.z) or (parts[0].arg(0).decl().name() == 'integer' and z3.eq(parts[0].arg(0).arg(0), x.z))), repr(r))
                else:
                    ctx.check('the text denotes the number', literal(r, x.z), repr(r))
                segs = [any_literal()]
            children = reading(ctx, segs, None)
            if children is None:
                return
            ctx.cover('read')
            ctx.check('one value is read', len(children) == 1 and children[0].tag == ('SFBool' if issubclass(F, ft._SFBool) else 'SFNumber'), repr(children))
        return run
    for t in types((ft._SFBool, ft._SFInt32, ft._SFFloat)):
        out.append(('writing and reading %s' % t, scalar(t), dict(covers=['written', 'read'], wall=200)))

    # ------------------------------------------------------------ handlers
    def handler(t):
        F = field.baseFieldTypes[t]
        def run(ctx):
            interp = make_interp(ctx)
            buffer, Slice = c12_strings.slices(interp, ctx)
            Number, Whole = z3.Function('number', z3.StringSort(), V), z3.Function('whole', z3.StringSort(), V)
            cc = interp.class_contracts
            cc['float', str] = lambda interp, v: SAny(Number(v.z), None, 'number')
            def to_int(interp, v, *base):
                if base not in ((), (0,), (10,)):
                    interp.unsupported('int with a base')
                return SAny(Whole(v.z), None, 'number')
            cc['int', str] = to_int
            integral = issubclass(F, (ft._SFInt32, ft._MFInt32))
            want = Whole if integral else Number
            P = c12_strings.processor(interp, t)
            A, B = [z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('from', 'to')]
            single = issubclass(F, (ft._SFBool, ft._SFInt32, ft._SFFloat))
            if single:
                n = z3.IntVal(1)
                tables = interp.make([('SFBool' if issubclass(F, ft._SFBool) else 'SFNumber', SInt(A(z3.IntVal(0))), SInt(B(z3.IntVal(0))), interp.make([]))])
            elif issubclass(F, ft._SFVec):
                size = int(numpy.prod(F.dimension))
                n = z3.IntVal(size)
                tables = interp.make([('SFNumber', SInt(A(z3.IntVal(j))), SInt(B(z3.IntVal(j))), interp.make([])) for j in range(size)])
            else:
                n = ctx.int('n').z
                ctx.assume(n >= 0)
                tables = LazyList(n, lambda j: ('SFNumber', SInt(A(j)), SInt(B(j)), interp.make([])), 'numbers')
            try:
                r = interp.call(interp.get_attr(P, 'Field'), [('Field', 0, 1, tables), buffer])
            except PyExc as err:
                ctx.check('reading does not fail', False, str(err))
                return
            ctx.cover('result')
            part = lambda j: Slice(A(j), B(j))
            if issubclass(F, ft._SFBool):
                truth = interp.truth(r)
                ctx.check('TRUE is true, FALSE is false', z3.Implies(z3.Or(part(z3.IntVal(0)) == z3.StringVal('TRUE'), part(z3.IntVal(0)) == z3.StringVal('FALSE')),
                                                                    (part(z3.IntVal(0)) == z3.StringVal('TRUE')) == z3.BoolVal(bool(truth))), repr(r))
                return
            if single:
                ctx.check('the number is read', isinstance(r, SAny) and z3.eq(z3.simplify(r.z), z3.simplify(want(part(z3.IntVal(0))))), repr(r))
                return
            ok = isinstance(r, (list, LazyList)) and not isinstance(r, str)
            ctx.check('a list is read', ok, repr(r))
            if not ok:
                return
            ctx.check('as many numbers', (r.n if isinstance(r, LazyList) else z3.IntVal(len(r))) == n, repr(r))
            j = ctx.int('j').z
            ctx.assume(z3.And(j >= 0, j < n))
            if isinstance(r, list):
                for i, x in enumerate(r):
                    ctx.check('every number is read, in order', isinstance(x, SAny) and z3.eq(z3.simplify(x.z), z3.simplify(want(part(z3.IntVal(i))))), repr(x))
            else:
                x = r.item(j)
                ctx.check('every number is read, in order', isinstance(x, SAny) and z3.eq(z3.simplify(x.z), z3.simplify(want(part(j)))), repr(x))
        return run
    for t in numeric_types():
        if not (issubclass(field.baseFieldTypes[t], ft._SFArray) and not issubclass(field.baseFieldTypes[t], ft._MFVec)):
            out.append(('handler of %s' % t, handler(t), dict(covers=['result'])))
    return out


# ---------------------------------------------------------------- whole scenes
def shape_of(t):
    """(number of items is free, dimension, letter of the numbers)"""
    from vrml import fieldtypes as ft, field
    F = field.baseFieldTypes[t]
    if issubclass(F, (ft._SFBool, ft._SFInt32, ft._SFFloat)):
        return False, (), 'b' if issubclass(F, ft._SFBool) else 'u' if issubclass(F, ft._SFUInt32) else 'i' if issubclass(F, ft._SFInt32) else 'd'
    if issubclass(F, (ft._MFInt32, ft._MFFloat)):
        return True, (), ('u' if issubclass(F, ft._MFUInt32) else 'i') if issubclass(F, ft._MFInt32) else F.targetType
    if issubclass(F, (ft._SFVec, ft._MFVec)):
        return not issubclass(F, ft._SFVec), F.dimension, F.targetType
    return True, None, F.targetType


def bits(rnd, letter):
    """A number as the bits of its representation"""
    if letter == 'b':
        return rnd.getrandbits(1)
    if letter in 'iu':
        n = rnd.choice([rnd.getrandbits(32), rnd.getrandbits(8), 1 << rnd.randrange(32), (1 << rnd.randrange(32)) - 1, 0, 0x7fffffff, 0x80000000, 0xffffffff])
        return n
    exponent, mantissa, size = dict(d=(11, 52, 64), f=(8, 23, 32))[letter]
    kind = rnd.random()
    if kind < .5:
        # any
        b = rnd.getrandbits(size)
    elif kind < .6:
        # subnormal
        b = rnd.getrandbits(rnd.randrange(1, mantissa + 1))
    elif kind < .75:
        # next to a power of two
        b = ((rnd.randrange(1 << exponent) << mantissa) + rnd.choice([0, 0, 1, -1, 2, -2])) % (1 << (size - 1))
    elif kind < .95:
        # decimal numbers and their neighbours
        import struct
        x = rnd.choice([1, -1]) * rnd.choice([1, rnd.randrange(1000), rnd.randrange(10 ** 6)]) * 10.0 ** rnd.choice([rnd.randrange(-38, 33), rnd.randrange(-5, 5), rnd.randrange(-300, 300) if letter == 'd' else 0])
        try:
            b = struct.unpack('<Q' if letter == 'd' else '<I', struct.pack('<' + letter, x))[0] + rnd.choice([0, 0, 0, 1, -1])
        except OverflowError:
            b = 0
    else:
        b = rnd.choice([0, 1 << (size - 1), ((1 << exponent) - 2 << mantissa) | ((1 << mantissa) - 1), 1, 0x15ae43fd if letter == 'f' else 1 << mantissa])
    b %= 1 << size
    if (b >> mantissa) & ((1 << exponent) - 1) == (1 << exponent) - 1:
        b ^= 1 << mantissa
    return b


def cases(rnd, tier, mode):
    def case(t, n=None, lead=(), **more):
        free, dimension, letter = shape_of(t)
        if dimension is None:
            dimension = tuple(rnd.randrange(1, 4) for i in range(rnd.choice([0, 0, 1, 1, 2]))) if n != 0 else ()
        size = 1
        for d in dimension:
            size *= d
        if free:
            size *= n
        values = list(lead[:size]) + [bits(rnd, letter) for i in range(size - len(lead[:size]))]
        return dict(dict(kind='proto', type=t, shape=([n] if free else []) + list(dimension), bits=values, style=rnd.choice(['default', 'default', 'minimal', 'tabs'])), **more)
    types = numeric_types()
    for t in types:
        free, dimension, letter = shape_of(t)
        for n in (range(0, 9) if free else range(6)):
            yield case(t, n)
        if letter in 'df':
            # every exponent
            exponent, mantissa, size = dict(d=(11, 52, 64), f=(8, 23, 32))[letter]
            step = 1 if tier == 'thorough' or letter == 'f' else 8
            row = [s | (e << mantissa) | m for e in range(0, (1 << exponent) - 1, step) for s in (0, 1 << (size - 1)) for m in (0, 1, (1 << mantissa) - 1)]
            if free and dimension == ():
                for i in range(0, len(row), 500):
                    yield case(t, len(row[i:i + 500]), row[i:i + 500])
    for x in [0x15ae43fd, 0x95ae43fd, 0x15ae43fc, 0x15ae43fe]:
        for t in types:
            if shape_of(t)[2] == 'f':
                yield case(t, 2, [x] * 40)
    for n in range(0, 321):
        t = rnd.choice([t for t in types if shape_of(t)[0]])
        yield case(t, n)
        yield case(rnd.choice(['MFVec2f', 'MFVec3f', 'MFInt32', 'MFFloat', 'MFColor', 'MFVec4f']), n)
    for n in (96, 97, 98, 99, 100, 101, 102, 199, 200, 201, 24, 25, 26, 33, 34, 50, 51):
        for t in types:
            if shape_of(t)[0]:
                yield case(t, n)
    for i in range(700 if tier == 'quick' else 20000):
        t = rnd.choice(types)
        yield case(t, rnd.choice([0, 1, 1, 2, 3, 5, 10, rnd.randrange(100), rnd.randrange(400)] + ([rnd.randrange(3000)] if i % 20 == 0 else [])),
                   lead=(), kind=rnd.choice(['proto', 'proto', 'default', 'after', 'script']), depth=rnd.choice([0, 0, 1, 4]))
    names = builtin_numbers()
    for i in range(len(names) if tier == 'quick' else 30 * len(names)):
        node, name, t = names[i % len(names)]
        yield case(t, rnd.choice([0, 1, 2, 3, 30, 120]), kind='node', node=node, field=name, depth=rnd.choice([0, 1, 3]))


def builtin_numbers():
    from vrml.vrml97 import basenodes
    from vrml import protofunctions
    out = []
    numeric = set(numeric_types())
    for name in sorted(vars(basenodes)):
        C = getattr(basenodes, name)
        if not isinstance(C, type) or C.__module__ != basenodes.__name__ or name.startswith('_'):
            continue
        try:
            fields = protofunctions.getFields(C)
        except Exception:
            continue
        for f in fields:
            if f.name and f.name[0] != ' ' and f.typeName() in numeric and not protofunctions.getField(C, f.name).__class__.__name__.endswith('Evt'):
                out.append((name, f.name, f.typeName()))
    return sorted(out)


def value_of(t, shape, values):
    """The value whose numbers have the bits given"""
    import numpy
    free, dimension, letter = shape_of(t)
    kind = dict(b='?', i='i4', u='u4', d='f8', f='f4')[letter]
    if letter == 'b':
        return bool(values[0])
    a = numpy.array(values, dict(i='u4', u='u4', d='u8', f='u4')[letter]).view(kind)
    if not free and dimension == ():
        return a[0].item()
    if letter == 'f':
        # no signalling numbers: conversions would change them
        a = a.copy()
    return a.reshape(shape)


def alike(a, b):
    import numpy, struct
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        if type(a) is not type(b) or a.dtype != b.dtype or a.shape != b.shape:
            return False
        return a.tobytes() == b.tobytes()
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack('<d', a) == struct.pack('<d', b)
    return type(a) is type(b) and a == b


def check_case(case):
    import numpy
    from vrml import node, field, protofunctions
    from vrml.vrml97 import basenodes, linearise, scenegraph
    import c12_strings
    t, kind = case['type'], case['kind']
    value = value_of(t, case['shape'], case['bits'])
    styles = dict(default=linearise.defaults, minimal=linearise.minimal1,
                  tabs=dict(linearise.defaults, numsep='\t', subelspacer='\n', indent=' '))
    if kind == 'node':
        n = getattr(basenodes, case['node'])()
        name = case['field']
        setattr(n, name, value)
        scene = scenegraph.SceneGraph()
    elif kind == 'script':
        from vrml.vrml97 import script
        n = script.Script((field.newField('f', t, 0, value),))
        name = 'f'
        scene = scenegraph.SceneGraph()
    else:
        default = value if kind == 'default' else None
        fields = [field.newField('f', t, 1, default) if kind == 'default' else field.newField('f', t, 1)]
        if kind == 'after':
            fields += [field.newField('e', t, 0), field.newField('g', t, 1)]
        P = node.prototype('P', fields)
        protofunctions.setSceneGraph(P, scenegraph.SceneGraph())
        scene = scenegraph.SceneGraph()
        scene.addProto(P)
        n = P()
        name = 'f'
        if kind != 'default':
            n.f = value
        if kind == 'after':
            n.e, n.g = value, value
    want = getattr(n, name)
    top = n
    for i in range(case.get('depth', 0)):
        top = basenodes.Transform(children=[top])
    scene.children.append(top)
    if kind != 'script' and not (isinstance(want, numpy.ndarray) and isinstance(value, numpy.ndarray) and numpy.issubdtype(value.dtype, numpy.floating) and 'Color' in t):
        # what is stored is C04's subject; here it only has to be the value meant
        if isinstance(want, numpy.ndarray) and isinstance(value, numpy.ndarray) and want.dtype == value.dtype and want.shape == value.shape and want.tobytes() != value.tobytes():
            return 'the value stored differs from the one given'
    style = styles[case['style']]
    text = linearise.linearise(scene, linvalues=dict(style))
    try:
        m = c12_strings.parse(text).children[0]
    except Exception as err:
        return 'what is written for %s cannot be read: %s: %s\n%s' % (t, type(err).__name__, err, text[:300])
    for i in range(case.get('depth', 0)):
        m = m.children[0]
    names = [name] + (['e', 'g'] if kind == 'after' else [])
    for a in names:
        got = getattr(m, a)
        if not alike(want, got):
            # an attribute equal to its default is not written at all (C14): 0.0 stands for -0.0 then
            if kind != 'script':
                default = getattr(type(m)(), a)
                if numpy.array_equal(want, default) and alike(default, got):
                    continue
            return '%s: %s is read as %s' % (t, short(want), short(got))
    return None


def short(x):
    import numpy
    with numpy.printoptions(precision=20):
        return repr(x)[:200]
