PROPERTY = 'C17'
LEVEL = 'proof'
PROOF_MODES = ['accel']
CASE_MODES = ['accel']
EXPLANATION = ('planeCull, translated mechanically from the Cython source, is executed symbolically for any number of planes and points, any contents, any margin and '
               'any array widths. Both loops are summarised for an arbitrary number of iterations; the result is (True, row of the first plane with every point farther '
               'than the margin behind it), or (False, None) when no plane has that; widths other than 4 and 3 or 4 raise TypeError; no column but the first '
               'three of a point is read, and every index read lies within the arrays.')
BOUNDED = ['bounded: the compiled module on random planes and points with exactly representable values (ties on the margin included), 0 to 4 planes and 0 to 5 points, widths 2 to 5, '
           'against a direct evaluation (quick 3000, thorough 100000 cases)']
TRUSTED = ['Cython typed-array indexing reads the element at the index']
ASSUMPTIONS = ['machine floats are treated as real numbers in the proof: rounding of the signed distance is not covered',
               'the arrays are 2-dimensional float32 arrays (enforced by the Cython signature)']
# --- end of meta
from common import *


def proofs(mode):
    return [('planeCull', cull(False), dict(covers=['culled', 'not culled', 'refused'])),
            ('planeCull without a margin', cull(True), dict(covers=['culled', 'not culled', 'refused']))]


def cull(default):
    def run(ctx):
        import z3, numpy
        from pvc.engine import PyExc, Unsupported
        from pvc.values import SAny, SReal, SInt, V, real
        from vrml_accelerate import frustcullaccel
        interp = make_interp(ctx)
        A = numpy.ndarray
        planes, points = ctx.any('planes', A), ctx.any('points', A)
        ctx.assume(planes.z != points.z)
        ELEM = {id(planes): z3.Function('plane', z3.IntSort(), z3.IntSort(), z3.RealSort()),
                id(points): z3.Function('point', z3.IntSort(), z3.IntSort(), z3.RealSort())}
        ROWS = z3.Function('row', V, z3.IntSort(), V)
        shape = {}
        for a, label in ((planes, 'planes'), (points, 'points')):
            shape[id(a)] = (z3.Int(label + '_count'), z3.Int(label + '_width'))
            for n in shape[id(a)]:
                ctx.assume(n >= 0)
        whose = lambda o: planes if z3.eq(o.z, planes.z) else points if z3.eq(o.z, points.z) else None
        def attr(interp, obj, name=None):
            a = whose(obj)
            if a is None:
                interp.unsupported('attribute of a row')
            return tuple(SInt(n) for n in shape[id(a)])
        interp.class_contracts['attr', A, 'shape'] = lambda interp, obj, *rest: attr(interp, obj)
        interp.class_contracts['len', A] = lambda interp, obj: SInt(shape[id(whose(obj))][0])
        term = lambda i: z3.IntVal(i) if isinstance(i, int) else i.z
        def within(i, n):
            ctx.check('every index is within the array', z3.And(i >= 0, i < n))
        def getitem(interp, obj, key):
            a = whose(obj)
            row = None
            if a is None:
                if not (z3.is_app(obj.z) and obj.z.decl() == ROWS):
                    interp.unsupported('subscript of an unknown array')
                a, row = whose(SAny(obj.z.arg(0))), obj.z.arg(1)
                key = (SInt(row), key)
            if not isinstance(key, tuple):
                i = term(key)
                within(i, shape[id(a)][0])
                return SAny(ROWS(a.z, i), A)
            if len(key) != 2 or any(isinstance(k, slice) for k in key):
                interp.unsupported('array subscript %r' % (key,))
            i, j = term(key[0]), term(key[1])
            within(i, shape[id(a)][0])
            within(j, shape[id(a)][1])
            if a is points:
                ctx.check('only the first three components of a point are used', j < 3)
            return SReal(ELEM[id(a)](i, j))
        interp.class_contracts['getitem', A] = getitem
        margin = z3.RealVal(0) if default else ctx.real('margin').z
        args = [planes, points] + ([] if default else [SReal(margin)])
        P, W = shape[id(planes)]
        N, X = shape[id(points)]
        try:
            r = interp.call(frustcullaccel.planeCull, args)
        except PyExc as err:
            ctx.cover('refused')
            ctx.check('only TypeError is raised', err.cls is TypeError, str(err))
            ctx.check('arrays of the right width are not refused', z3.Not(z3.And(W == 4, z3.Or(X == 3, X == 4))))
            return
        ctx.check('arrays of the wrong width are refused', z3.And(W == 4, z3.Or(X == 3, X == 4)))
        ok = type(r) is tuple and len(r) == 2 and type(r[0]) is bool
        ctx.check('a culling flag and a plane are returned', ok, repr(r))
        if not ok:
            return
        p, x = ELEM[id(planes)], ELEM[id(points)]
        distance = lambda i, m: p(i, 0) * x(m, 0) + p(i, 1) * x(m, 1) + p(i, 2) * x(m, 2) + p(i, 3)
        def in_front(i):
            m = z3.Int('some_point')
            return z3.Exists([m], z3.And(m >= 0, m < N, distance(i, m) >= -margin))
        if r[0]:
            ctx.cover('culled')
            is_row = isinstance(r[1], SAny) and z3.is_app(r[1].z) and r[1].z.decl() == ROWS and z3.eq(r[1].z.arg(0), planes.z)
            ctx.check('the plane is a row of the planes', is_row, repr(r[1]))
            if not is_row:
                return
            k = r[1].z.arg(1)
            m, i = z3.Int('any_point'), z3.Int('earlier_plane')
            ctx.assume(z3.And(m >= 0, m < N, i >= 0, i < k), check=False) if False else None
            ctx.instantiate(m)
            ctx.check('every point is farther than the margin behind it', z3.Implies(z3.And(m >= 0, m < N), distance(k, m) < -margin))
            ctx.instantiate(i)
            ctx.check('no earlier plane has every point behind it', z3.Implies(z3.And(i >= 0, i < k), in_front(i)))
        else:
            ctx.cover('not culled')
            ctx.check('no plane is reported', r[1] is None, repr(r[1]))
            i = z3.Int('plane_index')
            ctx.instantiate(i)
            ctx.check('no plane has every point behind it', z3.Implies(z3.And(i >= 0, i < P), in_front(i)))
    return run


# ------------------------------------------------------------------ cases
def cases(rnd, tier, mode):
    value = lambda: rnd.choice([-2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.0, 3.0])
    for n in range(3000 if tier == 'quick' else 100000):
        width = rnd.choice([3, 3, 3, 4, 4, 4, 2, 5] if n % 10 == 0 else [3, 4])
        pwidth = rnd.choice([4, 4, 4, 3, 5] if n % 10 == 0 else [4])
        points = [[value() for i in range(width)] for j in range(rnd.choice([0, 1, 1, 2, 3, 5]))]
        planes = [[value() for i in range(pwidth)] for j in range(rnd.choice([0, 1, 2, 3, 4]))]
        margin = rnd.choice([None, 0.0, 0.5, 1.0, -0.5, 0.25, 2.5])
        if planes and points and rnd.random() < .5 and pwidth == 4 and width > 2:
            # a point exactly on the margin of a plane
            q, x = rnd.choice(planes), rnd.choice(points)
            q[3] = -(q[0] * x[0] + q[1] * x[1] + q[2] * x[2]) - (margin or 0.0) + rnd.choice([0.0, 0.0, 2.0 ** -10, -2.0 ** -10])
        yield dict(kind='cull', planes=planes, pwidth=pwidth, points=points, width=width, margin=margin)


def check_case(case):
    import numpy
    from vrml_accelerate import frustcullaccel
    planes = numpy.array(case['planes'], 'f').reshape((len(case['planes']), case['pwidth']))
    points = numpy.array(case['points'], 'f').reshape((len(case['points']), case['width']))
    before = planes.copy(), points.copy()
    args = [planes, points] + ([] if case['margin'] is None else [case['margin']])
    legal = case['pwidth'] == 4 and case['width'] in (3, 4)
    try:
        r = frustcullaccel.planeCull(*args)
    except TypeError:
        return 'arrays of the right width are refused' if legal else None
    except Exception as err:
        return 'raises %r' % err
    if not legal:
        return 'arrays of the wrong width are accepted: %r' % (r,)
    want = None
    for i, q in enumerate(case['planes']):
        if all(q[0] * x[0] + q[1] * x[1] + q[2] * x[2] + q[3] < -(case['margin'] or 0.0) for x in case['points']):
            want = i
            break
    if not numpy.array_equal(before[0], planes) or not numpy.array_equal(before[1], points):
        return 'the arrays are changed'
    if type(r) is not tuple or len(r) != 2:
        return 'returns %r' % (r,)
    if want is None:
        if r[0] or r[1] is not None:
            return 'culled by %r although no plane excludes the points' % (r[1],)
    else:
        if not r[0]:
            return 'not culled although plane %d excludes every point' % want
        if not numpy.array_equal(r[1], planes[want]):
            return 'culled by %r, the first excluding plane is %r' % (r[1], planes[want])
        if not numpy.shares_memory(r[1], planes) and planes.size:
            pass
    return None
