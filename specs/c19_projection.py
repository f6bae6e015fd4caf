PROPERTY = 'C19'
LEVEL = 'proof'
PROOF_MODES = ['pure', 'accel']
CASE_MODES = ['pure', 'accel']
EXPLANATION = ('perspectiveMatrix and orthoMatrix of the pure-Python module and of the Cython module are executed on real parameters: every entry equals that of the transposed '
               'gluPerspective matrix, the near and far planes map to -1 and +1, the product of matrix and inverse variant is the identity entry by entry, and the orthographic '
               'matrix maps both ends of each axis of the box to -1 and 1.')
BOUNDED = ['bounded: real pure and compiled builds on random parameters against a double precision evaluation, tolerance 1e-5 of each entry (quick 1000, thorough 50000 cases)']
TRUSTED = ['tan = sin / cos']
ASSUMPTIONS = ['machine floats are real numbers in the proofs', '0 < fovy < pi, aspect not 0, distances distinct and not 0, boxes not empty']
# --- end of meta
from common import *


def proofs(mode):
    return [('perspectiveMatrix', perspective(False), dict(covers=['matrix'])),
            ('perspectiveMatrix (inverse)', perspective(True), dict(covers=['matrix'])),
            ('orthoMatrix', ortho, dict(covers=['matrix']))]


def is_matrix(ctx, m):
    import numpy
    ok = isinstance(m, numpy.ndarray) and m.shape == (4, 4)
    ctx.check('a 4x4 matrix', ok, repr(m))
    return ok


def perspective(inverse):
    def run(ctx):
        import z3
        from pvc.values import real
        interp = make_interp(ctx)
        from vrml.vrml97 import transformmatrix as tm
        fovy, aspect, near, far = [ctx.real(n) for n in ('fovy', 'aspect', 'near', 'far')]
        ctx.assume(z3.And(aspect.z != 0, near.z != 0, far.z != 0, near.z != far.z))
        c, s = ctx.trig(fovy / 2.0)
        ctx.assume(z3.And(c.z > 0, s.z > 0))
        # f names the cotangent of half the field of view
        f, inverse_f = z3.Real('cotangent'), z3.Real('tangent')
        ctx.assume(z3.And(f * s.z == c.z, inverse_f * c.z == s.z, f * inverse_f == 1, f > 0))
        form = ctx.choose(['positional', 'keywords'])
        if form == 'positional':
            m = interp.call(tm.perspectiveMatrix, [fovy, aspect, near, far] + ([True] if inverse else []))
        else:
            m = interp.call(tm.perspectiveMatrix, [], dict(fovy=fovy, aspect=aspect, zNear=near, zFar=far, inverse=inverse))
        if not is_matrix(ctx, m):
            return
        ctx.cover('matrix')
        a, n, F = aspect.z, near.z, far.z
        d = n - F
        zero, one = z3.RealVal(0), z3.RealVal(1)
        P = [[f / a, zero, zero, zero], [zero, f, zero, zero], [zero, zero, (F + n) / d, -one], [zero, zero, 2 * F * n / d, zero]]
        if not inverse:
            for i in range(4):
                for j in range(4):
                    ctx.check('the entry of gluPerspective, row %d column %d' % (i, j), real(m[i][j]) == P[i][j])
            for where, depth, to in (('near', -n, -one), ('far', -F, one)):
                z, w = depth * real(m[2][2]) + real(m[3][2]), depth * real(m[2][3]) + real(m[3][3])
                ctx.check('the %s plane maps to its depth' % where, z3.And(w != 0, z == to * w))
        else:
            for i in range(4):
                for j in range(4):
                    got = z3.Sum([P[i][k] * real(m[k][j]) for k in range(4)])
                    ctx.check('matrix times inverse, row %d column %d' % (i, j), got == (1 if i == j else 0))
    return run


def ortho(ctx):
    import z3
    from pvc.values import real
    interp = make_interp(ctx)
    from vrml.vrml97 import transformmatrix as tm
    names = ('left', 'right', 'bottom', 'top', 'zNear', 'zFar')
    box = {n: ctx.real(n) for n in names}
    for lo, hi in (('left', 'right'), ('bottom', 'top'), ('zNear', 'zFar')):
        ctx.assume(box[lo].z != box[hi].z)
    if ctx.choose(['positional', 'keywords']) == 'positional':
        m = interp.call(tm.orthoMatrix, [box[n] for n in names])
    else:
        m = interp.call(tm.orthoMatrix, [], box)
    if not is_matrix(ctx, m):
        return
    ctx.cover('matrix')
    for axis, (lo, hi), sign in ((0, ('left', 'right'), 1), (1, ('bottom', 'top'), 1), (2, ('zNear', 'zFar'), -1)):
        for end, to in ((lo, -1), (hi, 1)):
            got = real(m[axis][axis]) * (sign * box[end].z) + real(m[axis][3])
            ctx.check('%s maps to %d' % (end, to), got == to)
        for k in range(3):
            if k != axis:
                ctx.check('the axes are independent', real(m[axis][k]) == 0)
    for k in range(4):
        ctx.check('the last row is that of an affine map', real(m[3][k]) == (1 if k == 3 else 0))


# ------------------------------------------------------------------ cases
def cases(rnd, tier, mode):
    import math
    for i in range(1000 if tier == 'quick' else 50000):
        near = rnd.choice([.1, .01, 1.0, rnd.uniform(.01, 5)])
        yield dict(kind='perspective', fovy=rnd.choice([math.pi / 3, math.pi / 2, rnd.uniform(.05, 3.0), rnd.uniform(.05, 3.0), 1, 2]),
                   aspect=rnd.choice([1, 1.0, 4 / 3., rnd.uniform(.2, 4)]), near=near, far=near + rnd.choice([1, 10.0, 1000.0, 50000.0, rnd.uniform(.5, 5)]), inverse=rnd.choice([0, 1, True, False]))
        g = lambda: rnd.choice([rnd.uniform(-10, 10), rnd.randint(-5, 5), -1.0])
        box = []
        for k in range(3):
            lo = g()
            box += [lo, lo + rnd.choice([2, 1, -3, 640, rnd.uniform(.5, 20), -rnd.uniform(.5, 20)])]
        yield dict(kind='ortho', box=box)
    yield dict(kind='ortho', box=[])


def check_case(case):
    import numpy
    from math import tan
    from vrml.vrml97 import transformmatrix as tm
    def close(a, b):
        a = numpy.asarray(a, 'd')
        if a.shape != (4, 4) or not numpy.all(numpy.abs(a - b) <= 1e-5 * numpy.abs(b) + 1e-6):
            return 'the matrix is\n%s\nexpected\n%s' % (a, b)
    if case['kind'] == 'perspective':
        n, F = case['near'], case['far']
        f = 1 / tan(case['fovy'] / 2.0)
        m = numpy.array([[f / case['aspect'], 0, 0, 0], [0, f, 0, 0], [0, 0, (F + n) / (n - F), -1], [0, 0, 2 * F * n / (n - F), 0]])
        if case['inverse']:
            m = numpy.array([[case['aspect'] / f, 0, 0, 0], [0, 1 / f, 0, 0], [0, 0, 0, (n - F) / (2 * F * n)], [0, 0, -1, (F + n) / (2 * F * n)]])
        return close(tm.perspectiveMatrix(case['fovy'], case['aspect'], n, F, inverse=case['inverse']), m)
    m = tm.orthoMatrix(*case['box'])
    l, r, b, t, n, f = case['box'] or [-1, 1, -1, 1, -1, 1]
    want = numpy.array([[2. / (r - l), 0, 0, -(r + l) / float(r - l)], [0, 2. / (t - b), 0, -(t + b) / float(t - b)], [0, 0, -2. / (f - n), -(f + n) / float(f - n)], [0, 0, 0, 1]])
    return close(m, want)
