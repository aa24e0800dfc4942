"""Shapes and containers: intersections, sampling, closest hit, kd-tree."""
import math
import struct
from fractions import Fraction
import terms as T
import norm as N
import eval as E
import loops as LP
from terms import mk, num, band, bor, bnot, bite, TRUE, FALSE
from ck import V, Vec, S, fn, ap, sqrt, absf, vmax, vmin, ite, xyz, xy, rgb, Missing, n_, strip
from p_algebra import last
from p_light import fl, whole, Call, calls, one

G7 = num(Fraction(41, 10 ** 8))       # seven rounding errors of a single-precision number
G5 = num(Fraction(29, 10 ** 8))       # five
TINY = 1e-5         # rounding tolerances are constants below this


def tolerances(leaves):
    """the constants of the rounding-error bounds, to be taken to zero"""
    out = {}
    for l in leaves:
        for x in N.subterms(l):
            if x.op == 'num' and x.k != 0 and abs(x.k) < TINY:
                out[x.id] = num(0)
    return out


def given(n, c):
    """n with every condition decided that c entails literally"""
    m = {}
    for a in T.bool_atoms(c).values():
        A = T.atom(a)
        if T.implies(c, A):
            m[a.id] = TRUE
        elif T.implies(c, bnot(A)):
            m[a.id] = FALSE
    if m:
        known = set(m)
        # comparisons with the larger or smaller of two
        for x in list(N.subterms(n)):
            if x.op == 'lt' and x.id not in m and any(y.op in ('min', 'max') for y in x.a):
                e = spread(x)
                if any(a.id in known for a in T.bool_atoms(e).values()):
                    m[x.id] = LP.replace(e, {k: m[k] for k in known})
    return LP.replace(n, m)


def spread(x):
    """a comparison with a minimum or maximum as comparisons with its parts"""
    a, b = x.a
    if a.op in ('min', 'max'):
        return (band if a.op == 'max' else bor)(*[cond(T.lt(y, b)) for y in a.a])
    if b.op in ('min', 'max'):
        return (band if b.op == 'min' else bor)(*[cond(T.lt(a, y)) for y in b.a])
    return T.atom(x)


def view(v, m, ctx=TRUE):
    """a value with subterms replaced, under a condition"""
    return V(given(LP.replace(v.n, m), ctx), v.t, v.ev)


def cond(n):
    return n if T.is_bool(n) else T.atom(n)


def impls(ck, trait, m):
    """path of the method in every implementation of the trait that has it"""
    out = []
    for i in ck.M.impls:
        if (i.get('trait') or '').split('::')[-1] == trait and m in i['im'] and i['im'][m] in ck.M.bodies:
            out.append((i, i['im'][m]))
    return out


def C16(ck):
    ck.technique = ('Sibling-consistency analysis on evaluated MIR: for every implementation of Shape and Container the condition under which `intersect` reports a hit and the value of '
                    '`intersect_p` are computed as closed conditions of the ray and compared for all inputs.')
    n = 0
    for i in ck.M.impls:
        if (i.get('trait') or '').split('::')[-1] != 'Shape':
            continue
        a, b = i['im'].get('intersect'), i['im'].get('intersect_p')
        if not ck.require(a in ck.M.bodies and b in ck.M.bodies, 'both-tests', str(i.get('ty') or a), 'a shape lacks one of the two tests'):
            continue
        ra, rb = ck.run(a, 'self', 'ray'), ck.run(b, 'self', 'ray')
        x, y = ra.ret.isome(), rb.ret.n
        # a delegated test stands for the delegate's
        sub = {}
        for t in N.subterms(x):
            if t.op == 'discr' and t.a[0].op == 'call' and last(t.a[0].k) == 'intersect':
                c = t.a[0]
                sub[t.id] = T.ite(cond(mk('call', c.k[:-len('intersect')] + 'intersect_p', *c.a)), num(1), num(0))
        x, y = cond(LP.replace(x, sub)), cond(y)
        ck.same('same-answer', a, x, y)
        n += 1
    ck.floor('shapes', n, 3)
    import p_kd
    p_kd.containers(ck)


def hit_cases(ck, r, d, o, sub):
    """the six orientations of the ray: (substitution, direction, condition, prover arguments)"""
    for k in range(3):
        for sg in (1, -1):
            s = S(mk('sym', 's'))
            m = dict(sub)
            m[d[k].n.id] = (s if sg > 0 else -s).n
            dd = Vec([V(LP.replace(x.n, m)) for x in d])
            # the largest component, the first of equals
            ca = band(*[(absf(dd[k]) >= absf(dd[j])) if j > k else (absf(dd[k]) > absf(dd[j])) for j in range(3) if j != k])
            yield m, dd, ca, [s.n]


def C18(ck):
    ck.technique = ('Algebraic proof on evaluated MIR: with rounding tolerances taken to zero, the condition for a hit, the parameter, the point and the shading data of Triangle::intersect are '
                    'rational functions of ray and vertices, proved equal to the scalar triple products of the ray with the triangle in each of the six ray orientations.')
    ck.assumptions = ['real arithmetic', 'the ray direction is not zero']
    p = ck.fn('Triangle', 'intersect', 'Shape')
    r = ck.run(p, 'self', 'ray')
    ray, tri = r.arg('ray'), r.arg('self')
    d, o, tm = xyz(ray.direction), xyz(ray.origin), ray.t_max
    vs = [xyz(tri.vertices[i]) for i in range(3)]
    w = [Vec([mk('sym', 'w%d%s' % (i, c)) for c in 'xyz']) for i in range(3)]
    tol = tolerances(fl(r.ret))
    ck.require(tol, 'rounding-tolerance', p, 'no rounding tolerance guards small hits')
    sub = {}
    for i in range(3):
        for c in range(3):
            sub[vs[i][c].n.id] = (o[c] + w[i][c]).n
    vn = tri.vertex_normals
    rev = tri.reverse_orientation
    done = set()
    for m, dd, ca, pos in hit_cases(ck, r, d, o, sub):
        m0 = dict(m)
        m0.update(tol)
        ret = view(r.ret, m0, ca)
        E_ = [dd.dot(w[(i + 1) % 3].cross(w[(i + 2) % 3])) for i in range(3)]
        D = E_[0] + E_[1] + E_[2]
        N0 = w[0].dot(w[1].cross(w[2]))
        mixed = band(bor(*[e < 0 for e in E_]), bor(*[e > 0 for e in E_]))
        inr = bor(band(D > 0, N0 > 0, N0 <= tm * D), band(D < 0, N0 < 0, N0 >= tm * D))
        spec = band(bnot(mixed), bnot(D.eq(0)), inr)
        ck.same('hit-condition', p, ret.isome(), spec, N.Prover(pos=pos, assume=ca))
        al = N.Prover(pos=pos, assume=band(spec, ca))
        i, t = ret.some()[0], ret.some()[1]
        ck.same('ray-parameter', p, t, N0 / D, al)
        b = [e / D for e in E_]
        ck.same('point-on-ray', p, xyz(i.p), o + dd * (N0 / D), al)
        ck.same('point-in-triangle', p, xyz(i.p), o + w[0] * b[0] + w[1] * b[1] + w[2] * b[2], al)
        ck.same('outgoing-direction', p, xyz(i.wo), -dd, al)
        # shading data: functions of the barycentric coordinates alone
        leaves = [x for f in ('sn', 'n', 'dpdu', 'dpdv', 'uv') for x in fl(i.field(f))]
        pe = [x for x in fl(view(r.ret, m, ca).some()[0].p_err)]
        B = [mk('sym', 'b%d' % j) for j in range(3)]
        nm = al.norm(())
        gen = abstract(leaves, [(x, y) for x, y in zip(b, B)], nm)
        pe = abstract(pe, [(x, y) for x, y in zip(b, B)], nm)
        vo = [o + x for x in w]
        for c in range(3):
            tot = absf(vo[0][c] * B[0]) + absf(vo[1][c] * B[1]) + absf(vo[2][c] * B[2])
            ck.implies('error-bound', p, TRUE, V(pe[c]) >= tot * S(G7), what='the error bound of the point is at least seven rounding errors of its terms')
        key = tuple(x.id for x in gen)
        if key in done:
            ck.ok('shading-data', p)
            continue
        done.add(key)
        shading(ck, p, tri, w, [V(x) for x in B], gen)


def larger(x, size, roots=()):
    n = 0
    for y in N.subterms(x):
        n += 1
        if n > size or y.op in roots:
            return True
    return False


def abstract(leaves, known, nm):
    """the values with every part that equals a known one replaced by its name"""
    m = {nm.canon(n_(x)).id: n_(y) for x, y in known}
    roots = () if any(y.op == 'sqrt' for x, _ in known for y in N.subterms(n_(x))) else ('sqrt', 'abs', 'acos', 'len')
    size = 4 * max(len(list(N.subterms(n_(x)))) for x, _ in known)
    for ops in (('fdiv',), ('fdiv', 'mul', 'add', 'neg', 'ite')):
        rep = {}
        for l in leaves:
            for x in N.subterms(l):
                if x.id not in rep and x.op in ops and not larger(x, size, roots):
                    k = m.get(nm.canon(x).id)
                    if k is not None:
                        rep[x.id] = k
        leaves = [LP.replace(x, rep) for x in leaves]
    return leaves


def shading(ck, p, tri, w, b, gen):
    sn, n, du, dv = [Vec(gen[3 * j:3 * j + 3]) for j in range(4)]
    uv = gen[12:14]
    vn, rev = tri.vertex_normals, tri.reverse_orientation
    nn = (w[1] - w[0]).cross(w[2] - w[0])
    gn = nn / nn.length()
    v3 = [xyz(vn.some()[j]) for j in range(3)]
    vs = v3[0] * b[0] + v3[1] * b[1] + v3[2] * b[2]
    for has in (False, True):
        for rv in (False, True):
            al = N.Prover(assume=band(vn.isome() if has else bnot(vn.isome()), rev.n if rv else bnot(rev.n), nn.len2() > 0))
            want = ite(vs.length() > 0, vs / vs.length(), gn) if has else gn
            want = -want if rv else want
            ck.same('shading-normal', p, sn, want, al)
            ck.same('geometric-normal', p, n, ite(gn.dot(want) < 0, -gn, gn), al)
    # tangents, for any normal
    nm = N.Prover().norm(())
    G = Vec([mk('sym', 'g' + c) for c in 'xyz'])
    H = Vec([mk('sym', 'h' + c) for c in 'xyz'])
    for has in (False, True):
        ctx = band(bnot(rev.n), vn.isome() if has else bnot(vn.isome()))
        g = [given(x, ctx) for x in gen]
        if has:
            g = abstract(g, list(zip(gn, G)) + list(zip(vs, H)), nm)
        ck.same('tangents-perpendicular-to-normal', p, [Vec(g[6:9]).dot(Vec(g[0:3])), Vec(g[9:12]).dot(Vec(g[0:3]))], [0, 0])
    # the tangents are the derivatives of the point with respect to uv
    ctx = bnot(vn.isome())
    e = [[LP.replace(x, {b[j].n.id: num(1 if j == k else 0) for j in range(3)}) for x in uv] for k in range(3)]
    du, dv = [Vec([given(x.n, ctx) for x in y]) for y in (du, dv)]
    for k in (0, 1):
        ck.same('tangents-are-derivatives', p, du * (V(e[k][0]) - V(e[2][0])) + dv * (V(e[k][1]) - V(e[2][1])), w[k] - w[2])
    ck.same('uv-affine', p, [V(x) for x in uv], [sum([b[k] * V(e[k][c]) for k in range(3)], S(0)) for c in range(2)])


def C19(ck):
    ck.technique = ('Algebraic proof on evaluated MIR: the hit condition and the parameter of Sphere::intersect are compared with the ordered roots of the quadratic of the ray, and point, normal, '
                    'tangents and uv with the sphere, for all rays, by cases on the sign of the discriminant and of the linear coefficient.')
    ck.assumptions = ['real arithmetic', 'the ray direction is not zero', 'the sphere has positive radius']
    p = ck.fn('Sphere', 'intersect', 'Shape')
    r = ck.run(p, 'self', 'ray')
    ray, sp = r.arg('ray'), r.arg('self')
    d, o, tm = xyz(ray.direction), xyz(ray.origin), ray.t_max
    c, R = xyz(sp.center), sp.radius
    # the ray relative to the centre
    q = Vec([mk('sym', 'q' + x) for x in 'xyz'])
    m = {o[k].n.id: (c[k] + q[k]).n for k in range(3)}
    ret = view(r.ret, m)
    a, b, k, u = [S(mk('sym', x)) for x in ('qa', 'qb', 'qs', 'qu')]
    A, H, C = d.dot(d), d.dot(q), q.dot(q) - R * R
    nm = N.Prover().norm(())
    leaves = fl(ret)
    i0 = ret.some()[0]
    names = [(A, a), (H, b / 2), (H * 2, b)]
    for case in ('two', 'one', 'none'):
        # the constant coefficient in terms of the root of the discriminant
        c4 = b * b - k * k if case == 'two' else b * b if case == 'one' else b * b + k * k
        cc = c4 / (a * 4)
        g = abstract([ret.isome(), ret.some()[1].n], names + [(C, cc), (q.dot(q), cc + R * R)], nm)
        for neg in (True, False):
            ctx = band(b < 0 if neg else bnot(b < 0), bnot(b.eq(0)) if case == 'one' else TRUE)
            pr = N.Prover(pos=[a.n, k.n], assume=ctx)
            if case == 'none':
                ck.same('hit-condition', p, g[0], FALSE, pr)
                continue
            lo, hi = ((-b - k) / (a * 2), (-b + k) / (a * 2)) if case == 'two' else (-b / (a * 2), -b / (a * 2))
            inlo, inhi = band(lo > 0, lo < tm), band(hi > 0, hi < tm)
            ck.same('hit-condition', p, g[0], bor(inlo, inhi), pr)
            ck.same('nearest-root', p, g[1], ite(inlo, lo, hi), N.Prover(pos=[a.n, k.n], assume=band(ctx, bor(inlo, inhi))))
    ck.require(not any(x in (y.id for l in g for y in N.subterms(l)) for x in [z.n.id for z in q] + [z.n.id for z in d]), 'quadratic', p,
               'the hit depends on more than the coefficients of the quadratic')
    # the point hit, from the point of the ray at the parameter found
    t, X = S(mk('sym', 'qt')), Vec([mk('sym', 'X' + x) for x in 'xyz'])
    fields = ('p', 'n', 'sn', 'dpdu', 'dpdv', 'uv', 'wo', 'p_err')
    size = [len(fl(i0.field(f))) for f in fields]
    g = [LP.replace(x, {ret.some()[1].n.id: t.n}) for f in fields for x in fl(i0.field(f))]
    g = abstract(g, [(q[k] + d[k] * t, X[k]) for k in range(3)], nm)
    g = [LP.replace(x, {R.n.id: X.length().n}) for x in g]
    out = {}
    for f, s in zip(fields, size):
        out[f], g = g[:s], g[s:]
    # outside the poles, where the tangents are limits
    pr = N.Prover(assume=band(bnot(X[0].eq(0)), bnot(X.length().eq(0))))
    ck.same('point-on-sphere', p, Vec(out['p']), c + X, pr)
    ck.same('normal-outward', p, Vec(out['n']), X.unit(), pr)
    ck.same('shading-normal', p, Vec(out['sn']), X.unit(), pr)
    ck.same('outgoing-direction', p, Vec(out['wo']), -d)
    for f in ('dpdu', 'dpdv'):
        ck.same('tangents-perpendicular-to-normal', p, Vec(out[f]).dot(X), S(0), pr)
    ck.same('tangents-perpendicular', p, Vec(out['dpdu']).dot(Vec(out['dpdv'])), S(0), pr)
    for k in range(3):
        ck.implies('error-bound', p, TRUE, V(out['p_err'][k]) >= absf(X[k]) * S(G5), pr, what='the error bound of the point is at least five rounding errors of its offset from the centre')
    theta = fn('acos', vmin(vmax(X[2] / X.length(), -1), 1))
    phi = fn('atan2', X[1], X[0])
    ck.same('uv-spherical', p, Vec(out['uv']), Vec([ite(phi < 0, phi + V(mk('sym', 'pi')) * 2, phi), theta]), pr)
    for al in (band(X[0].eq(0), bnot(X[1].eq(0))), band(X[0].eq(0), X[1].eq(0), bnot(X[2].eq(0)))):
        pr = N.Prover(assume=al)
        ck.same('tangents-at-the-poles', p, Vec(out['dpdu']).dot(X), S(0), pr)
        ck.implies('tangents-at-the-poles', p, al, bnot(Vec(out['dpdu']).len2().eq(0)), N.Prover(pos=[V(mk('sym', 'pi')).n]), what='the tangent is not zero')


class Ieee(object):
    """fold a value with some leaves fixed to IEEE numbers (zeros signed, infinities, NaN); other leaves are finite reals"""

    def __init__(self, m):
        self.m, self.memo = m, {}

    @staticmethod
    def node(x):
        if isinstance(x, float):
            if x == 0 and math.copysign(1, x) < 0 and T.NEG_ZERO[0]:
                return mk('negzero')
            if x != x:
                return T.NAN
            if x in (math.inf, -math.inf):
                return T.INF if x > 0 else T.NINF
            return num(Fraction(x))
        return x

    def bool(self, n):
        if n in (TRUE, FALSE):
            return n
        c = self.atom(n.a[0])
        return bite(c, self.bool(n.a[1]), self.bool(n.a[2]))

    def atom(self, a):
        if a.op in ('lt', 'le', 'eq'):
            x, y = self.val(a.a[0]), self.val(a.a[1])
            if isinstance(x, float) and isinstance(y, float):
                return TRUE if (x < y if a.op == 'lt' else x <= y if a.op == 'le' else x == y) else FALSE
            for p, q, s in ((x, y, 1), (y, x, -1)):
                if isinstance(p, float):
                    if p != p or a.op == 'eq' and p in (math.inf, -math.inf):
                        return FALSE
                    if p in (math.inf, -math.inf):
                        return TRUE if (p < 0) == (s > 0) else FALSE
            x, y = [num(0) if z.op == 'negzero' else z for z in (self.node(x), self.node(y))]
            return T.lt(x, y) if a.op == 'lt' else T.bnot(T.lt(y, x)) if a.op == 'le' else T.eq(x, y)
        if a.op == 'isnan':
            x = self.val(a.a[0])
            return TRUE if isinstance(x, float) and x != x else FALSE
        if a.op == 'signbit':
            x = self.val(a.a[0])
            if isinstance(x, float):
                return TRUE if math.copysign(1, x) < 0 else FALSE
            return T.lt(self.node(x), num(0))
        if a.op == 'isinf':
            x = self.val(a.a[0])
            return TRUE if isinstance(x, float) and x in (math.inf, -math.inf) else FALSE
        return T.atom(a)

    def val(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self.memo[n.id] = self._val(n)
        return r

    def int(self, n):
        """an integer computed from bit patterns"""
        if n.op == 'num':
            return n
        if n.op == 'bits':
            return self.node(self.val(n))
        if n.op == 'ite':
            return T.ite(self.bool(n.a[0]), self.int(n.a[1]), self.int(n.a[2]))
        return T.rebuild(n, [self.int(x) for x in n.a]) if n.a else n

    def _val(self, n):
        if n.id in self.m:
            return self.m[n.id]
        op = n.op
        if op == 'num':
            return float(n.k)
        if op == 'negzero':
            return -0.
        if op == 'bits':
            # bit patterns are integers
            x = self.val(n.a[0]) if n.k in ('f32', 'f64') else None
            if isinstance(x, float) and n.k == 'f32':
                return num(struct.unpack('<I', struct.pack('<f', x))[0])
            if n.k == 'u32':
                y = self.int(n.a[0])
                return struct.unpack('<f', struct.pack('<I', int(y.k) % 2 ** 32))[0] if y.op == 'num' else mk('bits', 'u32', y)
        if n in (T.INF, T.NINF, T.NAN):
            return math.inf if n is T.INF else -math.inf if n is T.NINF else math.nan
        if T.is_bool(n):
            return self.bool(n)
        if op == 'ite':
            c = self.bool(n.a[0])
            if c is TRUE:
                return self.val(n.a[1])
            if c is FALSE:
                return self.val(n.a[2])
            x, y = self.val(n.a[1]), self.val(n.a[2])
            return T.ite(c, self.node(x), self.node(y))
        a = [self.val(x) for x in n.a]
        fl_ = [isinstance(x, float) for x in a]
        if op == 'neg' and fl_[0]:
            return -a[0]
        if op in ('add', 'mul', 'fdiv') and all(fl_):
            x, y = a
            if op == 'add':
                return x + y
            if op == 'mul':
                return x * y
            if y == 0:
                return math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
            return x / y
        if op in ('min', 'max') and any(fl_):
            f = [x for x in a if isinstance(x, float) and x == x]
            s = [x for x in a if not isinstance(x, float)]
            if not s:
                return (min(f) if op == 'min' else max(f)) if f else math.nan
            top = math.inf if op == 'max' else -math.inf
            if top in f:
                return top
            return T.fn(op, *(s + [self.node(x) for x in f if x != -top]))
        if any(isinstance(x, float) and (x != x or x in (math.inf, -math.inf)) for x in a) and op in ('add', 'mul', 'fdiv', 'neg', 'abs', 'sqrt'):
            sp = [x for x in a if isinstance(x, float) and (x != x or x in (math.inf, -math.inf))][0]
            if sp != sp or op == 'add':
                return sp
            raise Missing('infinite operand of %s with a symbolic one' % op)
        return T.rebuild(n, [self.node(x) for x in a])


def C28(ck):
    ck.technique = ('NaN-aware evaluation of the slab test over MIR, folded per axis over the classes of IEEE operands (regular direction, zero direction of either sign inside, flat or on a face); '
                    'in each class the culling condition and the interval are proved equal to the exact intersection of the remaining slabs.')
    ck.assumptions = ['real arithmetic on the axes along which the ray moves', 'a ray lying exactly in a face and pointing away by a signed zero is not considered']
    p = ck.fn('BBox3f', 'intersect')
    save = T.NAN_AWARE[0]
    T.NAN_AWARE[0] = True
    try:
        r = ck.run(p, 'self', 'ray')
    finally:
        T.NAN_AWARE[0] = save
    box, ray = r.arg('self'), r.arg('ray')
    lo, hi, o, d = xyz(box.min), xyz(box.max), xyz(ray.origin), xyz(ray.direction)
    leaves = fl(r.ret)
    ones = {}
    for l in leaves:
        for x in N.subterms(l):
            if x.op == 'num' and x.k != 1 and abs(x.k - 1) < TINY:
                ck.require(x.k > 1, 'widening', p, 'a factor %s narrows the interval' % float(x.k))
                ones[x.id] = num(1)
    ck.require(ones, 'widening', p, 'the far distance is not widened against rounding')
    leaves = [LP.replace(x, ones) for x in leaves]
    kinds = {'inside': (-1., 1., 0., 0.), 'inside, negative zero': (-1., 1., 0., -0.), 'flat': (0., 0., 0., 0.), 'flat, negative zero': (0., 0., 0., -0.),
             'lower face': (0., 1., 0., 0.), 'upper face': (-1., 0., 0., 0.)}
    cases = 0
    nm = N.Prover().norm(())
    combos = [{}]
    for a in range(3):
        for k in kinds:
            combos.append({a: k})
            for b in range(a + 1, 3):
                for j in kinds:
                    combos.append({a: k, b: j})
    for far in (False, True):
        for cb in combos:
            m = {}
            for a, k in cb.items():
                for v, x in zip((lo, hi, o, d), kinds[k]):
                    m[v[a].n.id] = x
            if far:
                m[ray.t_max.n.id] = math.inf
            q = Ieee(m)
            g = [Ieee.node(q.val(x)) for x in leaves]
            reg = [a for a in range(3) if a not in cb]
            A, B = [[S(mk('sym', 't%s%d' % (s, a))) for a in range(3)] for s in 'ab']
            g = abstract(g, [((lo[a] - o[a]) / d[a], A[a]) for a in reg] + [((hi[a] - o[a]) / d[a], B[a]) for a in reg], nm)
            for order in range(1 << len(reg)):
                W, m = [], {}
                for j, a in enumerate(reg):
                    W.append(mk('sym', 'tw%d' % a))
                    x, y = (A[a], B[a]) if order >> j & 1 else (B[a], A[a])
                    m[y.n.id] = T.add(x.n, W[-1])
                near = [S(0)] + [A[a] if order >> j & 1 else B[a] for j, a in enumerate(reg)]
                away = [V(m[(B if order >> j & 1 else A)[a].n.id]) for j, a in enumerate(reg)] + ([] if far else [ray.t_max])
                miss = bor(*[x > y for x in near for y in away])
                h = [LP.replace(x, m) for x in g]
                ck.same('culled-only-if-missed', p, T.eq(h[0], num(1)), bnot(miss), N.Prover(nn=W))
                ck.same('interval', p, h[1:], [vmax(*near).n, vmin(*away).n if away else T.INF], N.Prover(nn=W, assume=bnot(miss)))
            cases += 1
    ck.floor('operand classes', cases, 200)
