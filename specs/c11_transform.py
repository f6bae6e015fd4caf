PROPERTY = 'C11'
LEVEL = 'proof'
PROOF_MODES = ['pure', 'accel']
CASE_MODES = ['pure', 'accel']
EXPLANATION = ('rotMatrix, scaleMatrix and transMatrix, in the pure-Python module and in the wrapper over the Cython module, are executed on real entries: each gives exactly the '
               'matrix of the factor and its inverse (products checked to be the identity), or (None, None) only for an identity. transformMatrix, itransformMatrix, transformMatrices, '
               'localMatrices, center and compressMatrices are executed against those contracts with matrices abstracted to products of factors (free monoid, so up to '
               'associativity), for every combination of absent factors: the product is the VRML97 one in order, and forward times inverse cancels factor by factor.')
BOUNDED = ['bounded: real pure and compiled builds on random components (non-unit and zero axes, whole turns, negative scales, absent components) against a double precision evaluation '
           'of the equation, tolerance 2e-5 of the magnitude (quick 1500, thorough 60000 cases)']
TRUSTED = ['numpy.dot is the matrix product', 'matrix multiplication is associative with the identity as unit', 'cos and sin: cos^2+sin^2=1, cos even, sin odd']
ASSUMPTIONS = ['machine floats are real numbers in the proofs', 'a rotation by an angle with a % 2pi == 0 is the identity (2pi taken as exact)']
# --- end of meta
from common import *


def proofs(mode):
    out = []
    for name, make in (('rotMatrix', rotation), ('scaleMatrix', scaling), ('transMatrix', translation)):
        for given in ('tuple', 'list', 'array', 'absent'):
            out.append(('%s of %s' % (name, given), leaf(name, make, given), dict(covers=['identity'] + (['matrix'] if given != 'absent' else []))))
    for name in ('transformMatrix', 'itransformMatrix', 'transformMatrices', 'localMatrices', 'center'):
        out.append((name, composition(name), dict(covers=['product'])))
    out.append(('compressMatrices of any number', compress_any, dict(covers=['step', 'result'])))
    out.append(('compressMatrices', compress, dict(covers=['product', 'nothing'])))
    return out


# -- matrices with real entries
def entries(m):
    return [[m[i][j] for j in range(4)] for i in range(4)]


def product(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(1, 4)), a[i][0] * b[0][j]) for j in range(4)] for i in range(4)]


IDENTITY = [[1 if i == j else 0 for j in range(4)] for i in range(4)]


def is_matrix(ctx, m):
    import numpy
    ok = isinstance(m, numpy.ndarray) and m.shape == (4, 4)
    ctx.check('a 4x4 matrix', ok, repr(m))
    return ok


def equal(ctx, what, a, b, rewrite=None):
    import z3
    from pvc.values import real
    for i in range(4):
        for j in range(4):
            goal = real(a[i][j]) == real(b[i][j])
            if rewrite is not None:
                p, q = rewrite(real(a[i][j])), rewrite(real(b[i][j]))
                if z3.is_rational_value(d := z3.simplify(p - q, som=True)) and d.as_fraction() == 0:
                    goal = z3.BoolVal(True)
                elif any(z3.is_rational_value(z3.simplify(p, som=True)) for p in (p, q)):
                    goal = p == q
            ctx.check('%s, row %d column %d' % (what, i, j), goal)


def quickly(ctx, goal, facts=None):
    """Is the goal implied by the facts (of the path)? Used to choose rewritings only"""
    import z3
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*(ctx.pc if facts is None else facts))
    s.add(z3.Not(goal))
    return s.check() == z3.unsat


def subterms(e):
    import z3
    seen, todo = {}, [e]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen[x.get_id()] = x
            todo.extend(x.children())
    return list(seen.values())


def rotation(ctx, v):
    """The right-handed rotation by the angle about the axis, for row vectors

    Also a rewriting of terms, by equalities proved on this path: the square root
    in the code is the length of the axis, and a division by it a product with
    its reciprocal; cos is even and sin odd.
    """
    import z3
    from pvc.values import SReal, real
    from pvc.engine import COS, SIN
    x, y, z, a = v
    c, s = ctx.trig(a)
    zero = z3.And(x.z == 0, y.z == 0, z.z == 0)
    replaced = [(COS(z3.simplify(-a.z)), c.z), (SIN(z3.simplify(-a.z)), -s.z)]
    if quickly(ctx, zero):
        n = [SReal(z3.RealVal(q)) for q in (0, 1, 0)]
        replaced += [(q.z, z3.RealVal(0)) for q in (x, y, z)]
        length = None
    else:
        squared = x.z * x.z + y.z * y.z + z.z * z.z
        if quickly(ctx, squared == 1):
            n, length = (x, y, z), None
        else:
            if not quickly(ctx, z3.Not(zero)):
                # the code does not distinguish a zero axis here
                if ctx.branch(zero):
                    return rotation(ctx, v)
            length, inverse = z3.Real(ctx.name('length')), z3.Real(ctx.name('inverse'))
            facts = [length > 0, length * length == squared, inverse * length == 1]
            ctx.assume(z3.And(*facts), check=False)
            for r in {str(q): q for p in ctx.pc for q in subterms(p) if z3.is_const(q) and str(q).startswith('sqrt!')}.values():
                about = [p for p in ctx.pc if any(z3.eq(q, r) for q in subterms(p))]
                if quickly(ctx, r == length, facts + about):
                    replaced.append((r, length))
            n = [SReal(q.z * inverse) for q in (x, y, z)]
    def rewrite(e):
        e = z3.substitute(e, *replaced)
        if length is None:
            return e
        def walk(e):
            if z3.is_div(e) and z3.eq(z3.simplify(e.arg(1)), length):
                return walk(e.arg(0)) * inverse
            if z3.is_app(e) and e.num_args() and e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
                args = [walk(q) for q in e.children()]
                return e.decl()(*args) if len(args) == e.decl().arity() else z3.Sum(args) if z3.is_add(e) else z3.Product(args)
            return e
        return walk(e)
    t = 1 - c
    cross = [[0, n[2], -n[1]], [-n[2], 0, n[0]], [n[1], -n[0], 0]]
    m = [[t * n[i] * n[j] + s * cross[i][j] + (c if i == j else 0) for j in range(3)] + [0] for i in range(3)]
    return m + [[0, 0, 0, 1]], rewrite


def scaling(ctx, v):
    return [[v[i] if i == j else 0 for j in range(3)] + [0] for i in range(3)] + [[0, 0, 0, 1]]


def translation(ctx, v):
    return [[1 if i == j else 0 for j in range(3)] + [0] for i in range(3)] + [[v[0], v[1], v[2], 1]]


def leaf(name, make, given):
    def run(ctx):
        import z3, numpy
        from pvc.engine import PyExc
        from pvc.values import SReal, real
        interp = make_interp(ctx)
        from vrml.vrml97 import transformmatrix
        f = getattr(transformmatrix, name)
        if given == 'absent':
            r = interp.call(f, [None])
            ctx.check('an absent component is an identity', type(r) is tuple and r == (None, None), repr(r))
            ctx.cover('identity')
            return
        v = [ctx.real(n) for n in 'xyza'[:4 if name == 'rotMatrix' else 3]]
        source = tuple(v) if given == 'tuple' else list(v) if given == 'list' else numpy.array(v, dtype=object)
        try:
            r = interp.call(f, [source])
        except PyExc as err:
            ctx.check('no components are refused', False, str(err))
            return
        ok = type(r) is tuple and len(r) == 2
        ctx.check('a matrix and its inverse', ok, repr(r))
        if not ok:
            return
        want = make(ctx, v)
        forward = IDENTITY
        for m, what in zip(r, ('matrix', 'inverse')):
            if m is None:
                ctx.cover('identity')
            else:
                ctx.cover('matrix')
                if not is_matrix(ctx, m):
                    return
        forward = IDENTITY if r[0] is None else entries(r[0])
        backward = IDENTITY if r[1] is None else entries(r[1])
        want, rewrite = want if name == 'rotMatrix' else (want, None)
        equal(ctx, 'the matrix of the factor', forward, want, rewrite)
        if name == 'scaleMatrix':
            ctx.assume(z3.And(*[x.z != 0 for x in v]))
            equal(ctx, 'the inverse', product(forward, backward), IDENTITY)
        elif name == 'transMatrix':
            equal(ctx, 'the inverse', product(forward, backward), IDENTITY)
        else:
            # the inverse of a rotation matrix is its transpose (see rotations below)
            equal(ctx, 'the inverse', backward, [[want[j][i] for j in range(4)] for i in range(4)], rewrite)
    return run


# -- matrices as products of factors
class Product(object):
    def __init__(self, factors):
        self.factors = tuple(factors)
    def __repr__(self):
        return '*'.join(n + ('' if sign > 0 else "'") for n, sign in self.factors) or 'I'


class Vector(object):
    """A row vector times a product"""


def reduce(factors):
    out = []
    for n, sign in factors:
        if out and out[-1] == (n, -sign):
            out.pop()
        else:
            out.append((n, sign))
    return tuple(out)


NAMES = ['translation', 'center', 'rotation', 'scale', 'scaleOrientation', 'parentMatrix']


def factors_of(x):
    return () if x is None else x.factors if isinstance(x, Product) else None


def abstract(interp, ctx):
    import numpy
    from pvc.values import SAny
    from vrml.vrml97 import transformmatrix as tm
    chosen = {}
    def factor(kind):
        def handler(interp, args, kwargs):
            source = args[0] if args else kwargs.get('source')
            if source is None:
                return (None, None)
            key = (kind, id(source))
            if not isinstance(source, SAny):
                interp.unsupported('%s of %r' % (kind, source))
            if key not in chosen:
                chosen[key] = ctx.choose([True, False])
            if not chosen[key]:
                return (None, None)
            name = '%s(%s)' % (kind, source.label)
            return Product([(name, 1)]), Product([(name, -1)])
        return handler
    for n in ('rotMatrix', 'scaleMatrix', 'transMatrix'):
        interp.contract(getattr(tm, n), factor(n[:-6]), 'transformmatrix.%s (proved above)' % n)
    def dot(interp, args, kwargs):
        a, b = args
        if isinstance(b, numpy.ndarray) and b.shape == (4, 4) and (b == numpy.identity(4)).all():
            b = Product(())
        if isinstance(a, numpy.ndarray) and a.shape == (4, 4) and (a == numpy.identity(4)).all():
            a = Product(())
        if isinstance(a, numpy.ndarray) and a.shape == (4,) and isinstance(b, Product):
            return ('row', [float(x) for x in a], b)
        if isinstance(a, tuple) and a[0] == 'row' and isinstance(b, Product):
            return ('row', a[1], Product(a[2].factors + b.factors))
        if not isinstance(a, Product) or not isinstance(b, Product):
            interp.unsupported('dot of %r and %r' % (a, b))
        return Product(a.factors + b.factors)
    interp.contract(numpy.dot, dot, 'numpy.dot: the matrix product')
    def present(kind, source):
        return source is not None and chosen.get((kind, id(source)), False)
    return present


def composition(name):
    def run(ctx):
        import numpy
        interp = make_interp(ctx)
        from vrml.vrml97 import transformmatrix as tm
        given = {}
        names = ['translation', 'center', 'parentMatrix'] if name == 'center' else NAMES
        for n in names:
            if n == 'parentMatrix':
                given[n] = ctx.choose([None, Product([('parent', 1)])])
            else:
                given[n] = ctx.choose([None, ctx.any(n)])
        present = abstract(interp, ctx)
        f = getattr(tm, name)
        if ctx.choose([False, True]):
            r = interp.call(f, [given[n] for n in names])
        else:
            r = interp.call(f, [], dict(given))
        def p(kind, n, sign):
            return [('%s(%s)' % (kind, given[n].label), sign)] if present(kind, given[n]) else []
        T, C, R = (lambda s: p('trans', 'translation', s)), (lambda s: p('trans', 'center', s)), (lambda s: p('rot', 'rotation', s))
        parent = [('parent', 1)] if given['parentMatrix'] is not None else []
        if name == 'center':
            ctx.cover('product')
            want = C(1) + T(1) + parent
            ok = type(r) is tuple and r[0] == 'row' and r[1] == [0.0, 0.0, 0.0, 1.0]
            ctx.check('the image of the center', ok and reduce(r[2].factors) == reduce(want), '%r, expected %r' % (r, want))
            return
        S, O = (lambda s: p('scale', 'scale', s)), (lambda s: p('rot', 'scaleOrientation', s))
        local = C(-1) + O(-1) + S(1) + O(1) + R(1) + C(1) + T(1)
        inverse = T(-1) + C(-1) + R(-1) + O(-1) + S(-1) + O(1) + C(1)
        both = name in ('transformMatrices', 'localMatrices')
        got = r if both else (r,) if name == 'transformMatrix' else (None, r)
        ok = not both or (type(r) is tuple and len(r) == 2)
        ctx.check('a forward and an inverse matrix', ok, repr(r))
        if not ok:
            return
        ctx.cover('product')
        if name == 'localMatrices':
            parent = []
        if name != 'itransformMatrix':
            have = factors_of(got[0])
            ctx.check('the VRML97 product', have is not None and reduce(have) == reduce(local + parent), '%r, expected %r' % (got[0], local + parent))
        if name != 'transformMatrix':
            have = factors_of(got[1])
            ctx.check('the inverse product', have is not None and reduce(have) == reduce(inverse + parent), '%r, expected %r' % (got[1], inverse + parent))
            if have is not None and not parent:
                ctx.check('forward times inverse cancels', reduce(tuple(local) + have) == ())
    return run


def compress(ctx):
    interp = make_interp(ctx)
    from vrml.vrml97 import transformmatrix as tm
    abstract(interp, ctx)
    n = ctx.choose(list(range(9)))
    items = [ctx.choose([None, Product([('m%d' % i, 1)])]) for i in range(n)]
    r = interp.call(tm.compressMatrices, items)
    want = tuple(('m%d' % i, 1) for i in reversed(range(n)) if items[i] is not None)
    ctx.cover('product' if want else 'nothing')
    ctx.check('the product of the matrices given, the last leftmost', (r is None) if not want else (isinstance(r, Product) and r.factors == want), '%r, expected %r' % (r, want))


def compress_any(ctx):
    """compressMatrices of any number of matrices: by the invariant of its loop"""
    import z3, numpy
    from pvc import loops
    from pvc.values import SList, V
    from pvc.engine import PyExc
    interp = make_interp(ctx)
    from vrml.vrml97 import transformmatrix as tm
    m = z3.Const(ctx.name('matrices'), z3.SeqSort(V))
    none = interp.to_v(None)
    # meaning of a matrix in the monoid of transformations, and of the first i matrices: the last leftmost
    Val, Mul, E = z3.Function('meaning', V, V), z3.Function('times', V, V, V), z3.Const('unit', V)
    Prod, Some = z3.Function('product_of_first', z3.IntSort(), V), z3.Function('some_of_first', z3.IntSort(), z3.BoolSort())
    def unit(x):
        ctx.assume(z3.And(Mul(E, x) == x, Mul(x, E) == x), check=False)
    def define(i):
        unit(Prod(i))
        ctx.assume(z3.And(Prod(i + 1) == Mul(Val(m[i]), Prod(i)), Some(i + 1) == z3.Or(Some(i), m[i] != none)), check=False)
    ctx.assume(z3.And(Prod(0) == E, z3.Not(Some(0)), Val(none) == E), check=False)
    def dot(interp, args, kwargs):
        a, b = [interp.to_v(x) for x in args]
        ctx.check('only matrices are multiplied', z3.And(a != none, b != none))
        r = ctx.any('product')
        ctx.assume(z3.And(r.z != none, Val(r.z) == Mul(Val(a), Val(b))), check=False)
        return r
    interp.contract(numpy.dot, dot, 'numpy.dot: the matrix product')
    def rule(interp, stmt, fr, items):
        if items is None or not isinstance(items, SList):
            return NotImplemented
        names = loops.assigned(stmt.body) - loops.target_names(stmt.target)
        if len(names) != 1:
            return NotImplemented
        name, = names
        n = z3.Length(items.seq)
        whole, rest = items.seq.eq(m), z3.simplify(items.seq).eq(z3.simplify(z3.SubSeq(m, 1, z3.Length(m) - 1)))
        offset = z3.simplify(z3.Length(m) - n)
        k0 = z3.Int(ctx.name('any'))
        shift = 0 if whole else 1
        ctx.check('the loop goes over the matrices in order', z3.And(n == z3.Length(m) - shift, z3.Implies(z3.And(k0 >= 0, k0 < n), items.seq[k0] == m[k0 + shift])))
        def holds(v, i):
            v = interp.to_v(v)
            return z3.And(Val(v) == Prod(i), (v == none) == z3.Not(Some(i)))
        def establish():
            define(z3.IntVal(0))
            unit(Val(m[0]))
            ctx.check('before the loop: the product of the matrices taken', holds(fr.locals[name], z3.IntVal(shift)))
        def havoc(k):
            v = ctx.any('so far')
            ctx.assume(z3.And(holds(v, k + shift), items.seq[k] == m[k + shift]), check=False)
            define(k + shift)
            unit(Val(m[k + shift]))
            fr.locals[name] = v
        def preserved(k):
            ctx.cover('step')
            ctx.check('after a step: the product of the matrices taken', holds(fr.locals[name], k + shift + 1))
        loops.by_invariant(interp, stmt, fr, items, establish, havoc, preserved)
    interp.loop_specs.insert(0, rule)
    items = SList(m, 'matrices')
    items.star_args = True
    try:
        r = interp.call_live(tm.compressMatrices, [items], {})
    except PyExc as err:
        ctx.check('it does not fail', False, str(err))
        return
    n = z3.Length(m)
    ctx.cover('result')
    v = interp.to_v(r)
    ctx.check('the product of all the matrices, the last leftmost', Val(v) == Prod(n))
    ctx.check('None only without any', (v == none) == z3.Not(Some(n)))


# ------------------------------------------------------------------ cases
def cases(rnd, tier, mode):
    import math
    for i in range(1500 if tier == 'quick' else 60000):
        g = lambda lo, hi: rnd.choice([rnd.uniform(lo, hi), float(rnd.randint(int(lo), int(hi)))])
        vec = lambda: rnd.choice([[g(-10, 10) for k in range(3)], [0.0, 0.0, 0.0], [0.0, g(-5, 5), 0.0]])
        def rot():
            axis = rnd.choice([[g(-3, 3) for k in range(3)], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [0.0, 0.0, 0.0], [2.0, 0.0, 0.0], [0.6, 0.8, 0.0], [-1.0, 0.0, 0.0], [1.0, 0.0, 0.0]])
            return axis + [rnd.choice([g(-7, 7), 0.0, 2 * math.pi, -2 * math.pi, 4 * math.pi, math.pi, math.pi / 2, -math.pi / 2, 1e-3])]
        def scl():
            s = lambda: rnd.choice([1.0, rnd.uniform(.2, 4), -rnd.uniform(.2, 4), -1.0, 2.0])
            return rnd.choice([[1.0, 1.0, 1.0], [s(), s(), s()], [2.0, 2.0, 2.0], [0.0, 1.0, 2.0], [1.0, 1.0, 1.0 + rnd.choice([0.0, .5])]])
        yield dict(kind='matrices', translation=rnd.choice([None, vec(), vec()]), center=rnd.choice([None, vec(), vec()]), rotation=rnd.choice([None, rot(), rot(), rot()]),
                   scale=rnd.choice([None, scl(), scl()]), scaleOrientation=rnd.choice([None, rot(), rot()]), parent=rnd.choice([None, None, [rot(), vec(), scl()]]),
                   form=rnd.choice(['list', 'tuple', 'd', 'f']))


def check_case(case):
    import numpy
    from vrml.vrml97 import transformmatrix as tm
    def T(v, sign=1):
        m = numpy.identity(4)
        if v is not None:
            m[3, :3] = sign * numpy.array(v)
        return m
    def S(v):
        m = numpy.identity(4)
        if v is not None:
            m[[0, 1, 2], [0, 1, 2]] = v
        return m
    def R(v):
        m = numpy.identity(4)
        if v is not None:
            n, a = numpy.array(v[:3], 'd'), v[3]
            l = numpy.sqrt((n * n).sum())
            n = n / l if l else numpy.array([0., 1., 0.])
            K = numpy.array([[0, n[2], -n[1]], [-n[2], 0, n[0]], [n[1], -n[0], 0]])
            m[:3, :3] = numpy.cos(a) * numpy.identity(3) + numpy.sin(a) * K + (1 - numpy.cos(a)) * numpy.outer(n, n)
        return m
    def chain(*ms):
        r = numpy.identity(4)
        for m in ms:
            r = r.dot(m)
        return r
    t, c, r, s, o = [case[k] for k in ('translation', 'center', 'rotation', 'scale', 'scaleOrientation')]
    if case['form'] == 'f':
        # the values such an array holds
        t, c, r, s, o = [None if v is None else [float(numpy.float32(x)) for x in v] for v in (t, c, r, s, o)]
    parent = None if case['parent'] is None else chain(R(case['parent'][0]), T(case['parent'][1]), S(case['parent'][2]))
    local = chain(T(c, -1), R(None if o is None else o[:3] + [-o[3]]), S(s), R(o), R(r), T(c), T(t))
    P = numpy.identity(4) if parent is None else parent
    def given(v):
        return None if v is None else tuple(v) if case['form'] == 'tuple' else list(v) if case['form'] == 'list' else numpy.array(v, case['form'])
    args = dict(translation=given(t), center=given(c), rotation=given(r), scale=given(s), scaleOrientation=given(o))
    def close(a, b, what, scale=None):
        a = numpy.identity(4) if a is None else numpy.asarray(a, 'd')
        size = max(1.0, numpy.abs(b).max(), scale or 0)
        if a.shape != b.shape or not numpy.all(numpy.abs(a - b) <= 2e-5 * size):
            return '%s is\n%s\nexpected\n%s' % (what, a, b)
    m = tm.transformMatrix(parentMatrix=parent, **args)
    size = 30 * (1 + numpy.abs(local).max()) * numpy.abs(P).max()
    singular = s is not None and 0 in s
    fails = [close(m, local.dot(P), 'transformMatrix', size)]
    pair = tm.transformMatrices(parentMatrix=parent, **args)
    fails.append(close(pair[0], local.dot(P), 'transformMatrices[0]', size))
    lm = tm.localMatrices(**args)
    fails.append(close(lm[0], local, 'localMatrices[0]', size))
    if not singular:
        inv = numpy.linalg.inv(local)
        size = 30 * (1 + numpy.abs(inv).max()) * numpy.abs(P).max()
        fails.append(close(lm[1], inv, 'localMatrices[1]', size))
        fails.append(close(tm.itransformMatrix(**args), inv, 'itransformMatrix', size))
        fails.append(close(tm.itransformMatrix(parentMatrix=parent, **args), inv.dot(P), 'itransformMatrix', size))
        fails.append(close(pair[1], inv.dot(P), 'transformMatrices[1]', size))
    fails.append(close(tm.center(args['translation'], args['center'], parent), numpy.array([0, 0, 0, 1.]).dot(T(c)).dot(T(t)).dot(P), 'center', 30 * numpy.abs(P).max()))
    for name, v, f in (('rotMatrix', r, R), ('scaleMatrix', s, S), ('transMatrix', t, T)):
        a, b = getattr(tm, name)(given(v))
        fails.append(close(a, f(v), name))
        if not (name == 'scaleMatrix' and singular):
            fails.append(close(b, numpy.linalg.inv(f(v)), name + ' (inverse)'))
    for f in fails:
        if f:
            return f
    return None
