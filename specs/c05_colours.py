PROPERTY = 'C05'
LEVEL = 'proof'
PROOF_MODES = ['pure']
CASE_MODES = ['pure', 'accel']
EXPLANATION = ('stringToColor is executed for any text, against the contracts of lower and of int with base 16 and the bit arithmetic of toFloat: a text whose lower-case form '
               'is a colour name gives the entry of that name, # followed by hexadecimal digits gives the digit pairs over 255, everything else is refused with ValueError. '
               'SFColor.coerce converts any text by it and any other value as a vector and clips every result to 0 and 1. MFColor.coerce is verified by a loop invariant over '
               'a list of any length: before each item the result holds the colours of the items so far and fewer than three numbers are pending; a text while numbers are pending, '
               'or numbers left over at the end, are refused. All entries of the name table are compared with the CSS values.')
BOUNDED = ['exhaustive: the 140 names of the table against the CSS values', 'bounded: random texts, number triples and mixtures of any accepted and refused notation on the real '
           'code, both builds (quick 10000, thorough 60000)']
TRUSTED = ['str.lower, str.strip and int(text, 16) of CPython', 'vector coercion (C04)', 'numpy.clip, minimum and maximum']
ASSUMPTIONS = ['numbers are numbers (no NaN)', 'components of names are given to four decimals by the table', 'components are rounded to 32 bits when stored']
# --- end of meta
from common import *

HEX = '0123456789abcdef'


def text_contracts(ctx, interp):
    """lower, strip(characters) and int(text, 16)"""
    import z3
    from pvc.values import SStr, SInt, string
    from vrml import csscolors
    Lower = z3.Function('str_lower', z3.StringSort(), z3.StringSort())
    sets = {}
    def consists(z, chars):
        """Text z has only these characters"""
        chars = ''.join(sorted(set(chars)))
        if chars not in sets:
            sets[chars] = z3.Function('only_%d' % len(sets), z3.StringSort(), z3.BoolSort())
            ctx.assume(sets[chars](z3.StringVal('')), check=False)
        return sets[chars](z)
    def lower(interp, s, args, kwargs):
        return SStr(Lower(string(s)))
    def strip(interp, s, args, kwargs):
        if len(args) != 1 or kwargs or not isinstance(args[0], str):
            interp.unsupported('strip of blanks')
        z = z3.simplify(string(s))
        if ctx.branch(consists(z, args[0])):
            return ''
        r = ctx.str('stripped')
        ctx.assume(z3.Length(r.z) > 0, check=False)
        return r
    numbers = []
    def to_int(interp, s, base=10):
        if base != 16:
            interp.unsupported('int with base %r' % (base,))
        z = z3.simplify(string(s))
        if ctx.branch(z3.And(consists(z, HEX), z3.Length(z) > 0)):
            n = ctx.int('number')
            ctx.assume(n.z >= 0, check=False)
        elif ctx.choose([True, False]):
            interp.raise_(ValueError, 'invalid literal for int() with base 16')
        else:
            # blanks, signs, underscores and a 0x prefix
            ctx.assume(z3.Length(z) > 0)
            n = ctx.int('number')
        numbers.append((z, n.z))
        return n
    interp.class_contracts['str', 'strip'] = strip
    interp.class_contracts['str', 'lower'] = lower
    interp.class_contracts['int', str] = to_int
    return Lower, numbers, consists


def proofs(mode):
    import z3
    from vrml import csscolors, fieldtypes as ft, arrays
    from pvc.values import SStr, SAny, SReal, SList, LazyList, V, string, real
    from pvc.engine import PyExc
    from pvc import loops
    out = []

    def names(ctx):
        interp = make_interp(ctx)
        value = ctx.str('value')
        Lower, numbers, consists = text_contracts(ctx, interp)
        low = Lower(value.z)
        table = csscolors.cssColors
        ctx.approx('lower and the sets of characters are not interpreted')
        kind = ctx.choose(['name', 'hexadecimal', 'neither'])
        digits = ctx.str('digits').z
        if kind == 'name':
            k = ctx.choose(sorted(table))
            ctx.assume(z3.And(low == z3.StringVal(k), *[Lower(z3.StringVal(x)) == z3.StringVal(x) for x in table if len(x) == len(k)]), check=False)
        elif kind == 'hexadecimal':
            ctx.assume(z3.And(low == z3.Concat(z3.StringVal('#'), digits), z3.Length(digits) > 0, consists(digits, HEX)), check=False)
        else:
            rest = z3.SubString(low, 1, z3.Length(low) - 1)
            ctx.assume(z3.And(*[low != z3.StringVal(k) for k in table]), check=False)
            ctx.assume(z3.Not(z3.And(z3.PrefixOf(z3.StringVal('#'), low), z3.Length(low) > 1, consists(rest, HEX))), check=False)
        ctx.assume(Lower(low) == low, check=False)
        try:
            r = interp.call(csscolors.stringToColor, [value])
        except PyExc as err:
            ctx.cover('refused')
            ctx.check('refused with ValueError', issubclass(err.cls, ValueError), str(err))
            ctx.check('no name is refused', kind != 'name', str(err))
            ctx.check('no hexadecimal text is refused', kind != 'hexadecimal', str(err))
            return
        ctx.cover(kind)
        ctx.check('what is neither a name nor hexadecimal is refused', kind != 'neither', repr(r))
        ctx.check('three components', isinstance(r, (tuple, list)) and len(r) == 3, repr(r))
        if kind == 'name':
            ctx.check('a name gives its own entry', z3.And(*[real(x) == real(y) for x, y in zip(r, table[k])]), '%s gave %r' % (k, r))
        ctx.check('every component is within 0 and 1', z3.And(*[z3.And(real(x) >= 0, real(x) <= 1) for x in r]), repr(r))
        if kind != 'hexadecimal':
            return
        ctx.check('the number of the digits is taken', z3.Or(*[z == digits for z, n in numbers]), repr(numbers))
        ds = [ctx.int('d%d' % i).z for i in range(6)]
        if not numbers:
            return
        n = numbers[-1][1]    # six digits
        ctx.assume(z3.And(n == z3.Sum(*[d * 16 ** (5 - i) for i, d in enumerate(ds)]), *[z3.And(d >= 0, d < 16) for d in ds]), check=False)
        for i, x in enumerate(r):
            ctx.check('component %d is its pair of digits over 255' % i, real(x) * 255 == z3.ToReal(16 * ds[2 * i] + ds[2 * i + 1]), repr(x))
    out.append(('stringToColor', names, dict(covers=['name', 'hexadecimal', 'refused'], wall=200)))

    def clip_contracts(ctx, interp):
        """numpy.clip and its parts: (value, low, high) of what they return"""
        clipped = {}
        def base(v):
            return clipped.get(id(v), (v, None, None, v))
        def put(v, lo, hi):
            r = ctx.any('clipped')
            clipped[id(r)] = (v, lo, hi, r)
            return r
        def clip(interp, args, kwargs):
            names = dict(zip(['a', 'a_min', 'a_max'], args), **kwargs)
            lo = names.get('a_min', names.get('min'))
            hi = names.get('a_max', names.get('max'))
            if set(names) - {'a', 'a_min', 'a_max', 'min', 'max'}:
                interp.unsupported('clip with %r' % sorted(names))
            return put(names['a'], lo, hi)
        def minimum(interp, args, kwargs):
            v, lo, hi, _ = base(args[0])
            if hi is not None or len(args) != 2:
                interp.unsupported('minimum')
            return put(v, lo, args[1])
        def maximum(interp, args, kwargs):
            v, lo, hi, _ = base(args[0])
            if lo is not None or hi is not None or len(args) != 2:
                interp.unsupported('maximum')
            return put(v, args[1], hi)
        interp.contract(arrays.clip, clip, 'numpy.clip')
        interp.contract(arrays.minimum, minimum, 'numpy.minimum')
        interp.contract(arrays.maximum, maximum, 'numpy.maximum')
        return base

    def within(ctx, base, r):
        v, lo, hi, _ = base(r)
        ctx.check('every component is clipped to 0 and 1', lo == 0 and hi == 1 and not isinstance(lo, SAny), '%r, %r' % (lo, hi))
        return v

    def vector(ctx, interp, F, kinds=('ValueError', 'TypeError')):
        made = {}
        def coerce(interp, args, kwargs):
            value = args[1] if len(args) > 1 else kwargs['value']
            k = ctx.choose(['ok'] + list(kinds))
            if k != 'ok':
                interp.raise_({'ValueError': ValueError, 'TypeError': TypeError}[k], 'refused')
            r = ctx.any('vector')
            made[id(r)] = (value, r)
            return r
        interp.contract(resolved(F, 'coerce'), coerce, '%s.coerce (C04)' % F.__name__)
        return made

    def single(ctx):
        interp = make_interp(ctx)
        base = clip_contracts(ctx, interp)
        made = vector(ctx, interp, ft._SFVec3f)
        kind = ctx.choose(['text', 'other'])
        value = ctx.str('value') if kind == 'text' else ctx.any('value', ctx.choose([tuple, list, float, int, bytes, object]))
        colour = (ctx.real('r'), ctx.real('g'), ctx.real('b'))
        converted = []
        def to_colour(interp, args, kwargs):
            v = args[0] if args else kwargs['value']
            converted.append(v)
            if ctx.choose([True, False]):
                interp.raise_(ValueError, 'no colour')
            return colour
        interp.contract(csscolors.stringToColor, to_colour, 'stringToColor (proved)')
        f, name = make_field(interp, ft.SFColor, default=(0, 0, 0), name='color')
        try:
            r = interp.call(resolved(ft.SFColor, 'coerce'), [f, value])
        except PyExc as err:
            ctx.cover('refused')
            ctx.check('refused with ValueError or TypeError', issubclass(err.cls, (ValueError, TypeError)), str(err))
            return
        ctx.cover(kind)
        v = within(ctx, base, r)
        ctx.check('it is the vector', id(v) in made, repr(v))
        source = made[id(v)][0]
        if kind == 'text':
            ctx.check('text is converted as a colour', source is colour and len(converted) == 1 and converted[0] is value, repr(source))
        else:
            ctx.check('other values are converted as they are', source is value and not converted, repr(source))
        try:
            again = interp.call(resolved(ft.SFColor, 'coerce'), [f, value])
        except PyExc:
            return
        w = within(ctx, base, again)
        ctx.check('an equal value stored elsewhere is an array of its own', id(w) in made and w is not v, repr(w))
    out.append(('SFColor.coerce', single, dict(covers=['text', 'other', 'refused'])))

    def multiple(ctx):
        interp = make_interp(ctx)
        base = clip_contracts(ctx, interp)
        n = ctx.int('n').z
        ctx.assume(n >= 0, check=False)
        kinds = {}
        ghost = dict(made=[], pending=None, item=None, fail=None, whole=None)
        def item(j):
            j = z3.simplify(j) if not isinstance(j, int) else z3.IntVal(j)
            key = j.get_id()
            if key not in kinds:
                kinds[key] = (ctx.str('text') if ctx.choose(['text', 'number']) == 'text' else ctx.any('number', float), j)
            return kinds[key][0]
        value = LazyList(n, item, 'value')
        calls = []
        def whole(interp, args, kwargs):
            v = args[1] if len(args) > 1 else kwargs['value']
            calls.append(v)
            if len(calls) == 1:
                # the value itself: a mixture with texts is refused (C04)
                k = ctx.choose(['ok', 'ValueError', 'TypeError'])
                if k != 'ok':
                    interp.raise_({'ValueError': ValueError, 'TypeError': TypeError}[k], 'refused')
            r = ctx.any('array')
            ghost['whole'] = (r, v)
            return r
        interp.contract(resolved(ft._MFVec3f, 'coerce'), whole, 'MFVec3f.coerce (C04)')
        def one(interp, args, kwargs):
            v = args[1] if len(args) > 1 else kwargs['value']
            if ctx.choose([True, False]):
                ghost['fail'] = v
                interp.raise_(ctx.choose([ValueError, TypeError]), 'no colour')
            r = ctx.any('colour')
            ghost['made'].append((r, list(v) if isinstance(v, (list, tuple)) else v))
            return r
        interp.contract(resolved(ft.SFColor, 'coerce'), one, 'SFColor.coerce (proved)')
        def rule(interp, stmt, fr, items):
            if items is not value or 'result' not in fr.locals or 'current' not in fr.locals:
                return NotImplemented
            def establish():
                ctx.check('nothing is done before the loop', fr.locals['result'] == [] and fr.locals['current'] == [], repr(fr.locals))
            def havoc(k):
                ghost['result'] = ctx.slist('result')
                ghost['seq'] = ghost['result'].seq
                ghost['pending'] = [ctx.any('pending', float) for i in range(ctx.choose([0, 1, 2]))]
                ghost['item'] = item(k) if ctx.branch(k < n) else None
                ghost['after'] = ghost['item'] is None
                ghost['made'] = []
                fr.locals['result'] = ghost['result']
                fr.locals['current'] = interp.make(list(ghost['pending']))
            def preserved(k):
                x, pending, made = ghost['item'], ghost['pending'], ghost['made']
                r, current = fr.locals['result'], fr.locals['current']
                seq = r.seq if isinstance(r, SList) else None
                ctx.check('the result is a list', seq is not None, repr(r))
                ctx.check('the pending numbers are a list', isinstance(current, list), repr(current))
                same_pending = lambda want: len(current) == len(want) and all(a is b for a, b in zip(current, want))
                if isinstance(x, SStr):
                    ctx.cover('text')
                    ctx.check('a text while numbers are pending is refused', not pending)
                    ctx.check('a text is converted to a colour', len(made) == 1 and made[0][1] is x, repr(made))
                    ctx.check('a text leaves nothing pending', same_pending([]), repr(current))
                    ctx.check('the colour is added at the end', seq == z3.Concat(ghost['seq'], z3.Unit(interp.to_v(made[0][0]))))
                elif len(pending) < 2:
                    ctx.cover('number')
                    ctx.check('a number is kept until three are there', not made and same_pending(pending + [x]), repr(current))
                    ctx.check('the result is kept', seq == ghost['seq'])
                else:
                    ctx.cover('third')
                    want = pending + [x]
                    ctx.check('three numbers are converted to a colour', len(made) == 1 and isinstance(made[0][1], list) and len(made[0][1]) == 3
                              and all(a is b for a, b in zip(made[0][1], want)), repr(made))
                    ctx.check('nothing is pending after three numbers', same_pending([]), repr(current))
                    ctx.check('the colour is added at the end', seq == z3.Concat(ghost['seq'], z3.Unit(interp.to_v(made[0][0]))))
            loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
        interp.loop_specs.insert(0, rule)
        f, name = make_field(interp, ft.MFColor, default=list, name='color')
        try:
            r = interp.call(resolved(ft.MFColor, 'coerce'), [f, value])
        except PyExc as err:
            ctx.check('refused with ValueError or TypeError', issubclass(err.cls, (ValueError, TypeError)), str(err))
            if ghost.get('fail') is not None:
                ctx.cover('item refused')
                return
            ctx.cover('refused')
            ctx.check('refused because of pending numbers', bool(ghost['pending']) and (ghost['after'] or isinstance(ghost['item'], SStr)), repr(ghost))
            return
        v = within(ctx, base, r)
        ctx.check('it is the array', ghost['whole'] is not None and v is ghost['whole'][0], repr(v))
        if len(calls) == 1:
            ctx.cover('numbers only')
            ctx.check('it is the array of the value', calls[0] is value, repr(calls))
            return
        ctx.cover('mixture')
        ctx.check('an incomplete triple is refused', ghost['pending'] == [] and ghost['after'])
        got = ghost['whole'][1]
        ctx.check('it is the array of the colours', isinstance(got, SList) and (got is ghost['result'] or got.seq.eq(ghost['seq'])), repr(got))
    out.append(('MFColor.coerce', multiple, dict(covers=['text', 'number', 'third', 'item refused', 'refused', 'numbers only', 'mixture'], wall=200)))
    return out


# ------------------------------------------------------------------ concrete
def expected(text):
    """Components of a notation, or None where it is refused"""
    from css_table import CSS
    low = text.lower()
    if low in CSS:
        h = CSS[low]
    elif low[:1] == '#' and len(low) == 7 and all(c in HEX for c in low[1:]):
        h = low[1:]
    elif low[:1] == '#' and low[1:] and all(c in HEX for c in low[1:]):
        return 'any'
    else:
        return None
    return [int(h[i:i + 2], 16) / 255. for i in (0, 2, 4)]


def cased(rnd, s):
    return rnd.choice([s, s.upper(), s.title(), ''.join(rnd.choice([c, c.upper()]) for c in s)])


def notation(rnd):
    from css_table import CSS
    r = rnd.random()
    if r < .4:
        return cased(rnd, rnd.choice(sorted(CSS)))
    if r < .8:
        return cased(rnd, '#%06x' % rnd.choice([0, 255, 256, 0xffffff, 0x010203, 0x0f0, rnd.getrandbits(24)]))
    return rnd.choice(['', '#', 'no-such', '#gg0000', 'ff0000', '#ff 000', '#-00001', '#0xff00', '#ff_000', ' red', 'red ', '##ff000', 'rgb(1,2,3)', '#+fffff', '\u00e9',
                       '0.5', 'reds', '#\u0663\u06630000'])


def number(rnd):
    return rnd.choice([0, 1, 0.0, 1.0, 0.5, -0.25, 1.5, 255, -3, 1e-9, 1e30, -1e30, 2, float('inf'), float('-inf'), rnd.uniform(-1, 2), rnd.random()])


def cases(rnd, tier, mode):
    from css_table import CSS
    for k in sorted(CSS):
        yield dict(kind='name', text=k)
    count = 10000 if tier == 'quick' else 60000
    for i in range(count):
        r = rnd.random()
        if r < .3:
            yield dict(kind='text', text=notation(rnd), evt=rnd.random() < .2)
        elif r < .45:
            yield dict(kind='triple', value=[number(rnd) for j in range(rnd.choice([3, 3, 3, 2, 4, 0, 1]))], how=rnd.choice(['list', 'tuple', 'f', 'd']), write=rnd.random() < .3)
        elif r < .55:
            m = rnd.choice([0, 1, 2, 5])
            yield dict(kind='triples', value=[[number(rnd) for j in range(3)] for k in range(m)], how=rnd.choice(['list', 'tuple', 'f', 'd', 'flat']))
        else:
            items = []
            for j in range(rnd.choice([1, 2, 3, 6])):
                q = rnd.random()
                if q < .45:
                    items.append(notation(rnd) if rnd.random() < .2 else rnd.choice(['red', 'Navy', '#0a0B0c', '#FFFFFF']))
                else:
                    items.extend(number(rnd) for k in range(3 if q < .93 else rnd.choice([1, 2, 4, 5])))
            yield dict(kind='mixture', value=items, how=rnd.choice(['list', 'tuple']), write=rnd.random() < .3)


def want_triple(v):
    import numpy
    return numpy.clip(numpy.array([float(x) for x in v], 'f'), 0, 1)


def run(make, value):
    try:
        return make(value), None
    except (ValueError, TypeError) as err:
        return None, err


def store(F, how):
    """Coercion as a user meets it"""
    f = F('color', 1, (0, 0, 0) if F.__name__.startswith('SF') else list)
    if not how:
        return f.coerce
    from vrml.vrml97 import basenodes
    def write(value):
        if F.__name__ == 'SFColor':
            m = basenodes.Material()
            m.diffuseColor = value
            return m.diffuseColor
        m = basenodes.Color()
        m.color = value
        return m.color
    return write


def check_case(case):
    import numpy
    from vrml import csscolors, fieldtypes as ft
    kind = case['kind']
    if kind == 'name':
        for t in (case['text'], case['text'].upper(), case['text'].title()):
            got = ft.SFColor('color', 1, (0, 0, 0)).coerce(t)
            want = expected(case['text'])
            if got.shape != (3,) or max(abs(float(a) - b) for a, b in zip(got, want)) > 6e-5:
                return '%s gave %s, not %s' % (t, got, want)
        return None
    if kind == 'text':
        got, err = run((ft.SFColorEvt('e', 1) if case.get('evt') else ft.SFColor('c', 1, (0, 0, 0))).coerce, case['text'])
        want = expected(case['text'])
        if want is None:
            return None if isinstance(err, ValueError) else '%r gave %r, not ValueError' % (case['text'], got if err is None else err)
        if err is not None:
            return '%r was refused: %s' % (case['text'], err)
        return compare_colours(got, None if want == 'any' else [want], single=True)
    value = case['value']
    how = case['how']
    raw = value
    if how == 'flat':
        value = [x for v in value for x in v]
    elif how == 'tuple':
        value = tuple(tuple(v) if isinstance(v, list) else v for v in value)
    elif how in ('f', 'd'):
        value = numpy.array(value, how)
    if kind == 'triple':
        got, err = run(store(ft.SFColor, case.get('write')), value)
        if len(raw) != 3:
            return None if err is not None else 'a triple of %d numbers gave %r' % (len(raw), got)
        if err is not None:
            return '%r was refused: %s' % (value, err)
        return compare_colours(got, [want_triple(raw)], single=True, exact=True)
    if kind == 'triples':
        got, err = run(ft.MFColor('c', 1, list).coerce, value)
        if err is not None:
            return '%r was refused: %s' % (value, err)
        return compare_colours(got, [want_triple(v) for v in raw], exact=True)
    want, current = [], []
    for x in raw:
        if isinstance(x, str):
            c = expected(x)
            if current or c is None:
                want = None
                break
            want.append(c)
        else:
            current.append(x)
            if len(current) == 3:
                want.append(want_triple(current))
                current = []
    if current:
        want = None
    before = list(value)
    got, err = run(store(ft.MFColor, case.get('write')), value)
    if list(value) != before:
        return 'the argument was changed to %r' % (value,)
    if want is None:
        if err is None:
            # numbers as texts are numbers
            if all(isinstance(x, (int, float)) or is_float(x) for x in raw):
                return None
            return '%r gave %r, not an error' % (raw, got)
        return None
    if err is not None:
        return '%r was refused: %s' % (raw, err)
    return compare_colours(got, want)


def is_float(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def compare_colours(got, want, single=False, exact=False):
    import numpy
    if not isinstance(got, numpy.ndarray) or got.dtype.char != 'f':
        return 'stored as %r' % (got,)
    if not bool(numpy.all((got >= 0) & (got <= 1))):
        return 'components outside 0 and 1: %r' % (got,)
    if single and got.shape != (3,):
        return 'shape %r' % (got.shape,)
    if want is None:
        return None
    rows = [got] if single else list(got)
    if not single and got.shape != (len(want), 3):
        return 'shape %r for %d colours' % (got.shape, len(want))
    for g, w in zip(rows, want):
        if isinstance(w, str):
            continue
        tol = 6e-5 if isinstance(w, list) else 1e-7
        if max(abs(float(a) - float(b)) for a, b in zip(g, w)) > tol:
            return '%s instead of %s' % (g.tolist(), list(map(float, w)))
    return None
