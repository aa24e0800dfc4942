"""Lights: what they sample is what they emit, with the density they report."""
import terms as T
import norm as N
import loops as LP
import p_kd as K
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, Vec, S, PI, sqrt, absf, vmax, vmin, ite, xyz, xy, rgb, Missing, n_, strip
from p_algebra import last
from p_light import fl, calls, Call, whole, traitret
from p_bxdf import Made, Settled, agree, sole, each, vec3, holds, ZERO
from p_shape import G7, G5


class NoDerivative(Exception):
    pass


def deriv(n, v, memo=None):
    """derivative of a settled term"""
    memo = {} if memo is None else memo
    if n.id in memo:
        return memo[n.id]
    if n is v:
        r = num(1)
    elif not any(x is v for x in N.subterms(n)):
        r = num(0)
    else:
        d = [deriv(x, v, memo) for x in n.a]
        name = n.k if n.op == 'fn' else n.op
        a = n.a
        if n.op == 'add':
            r = T.add(*d) if len(d) == 2 else sum_(d)
        elif n.op == 'mul':
            r = sum_([prod([d[i]] + [a[j] for j in range(len(a)) if j != i]) for i in range(len(a))])
        elif n.op == 'neg':
            r = T.neg(d[0])
        elif n.op == 'fdiv':
            r = T.fdiv(T.sub(T.mul(d[0], a[1]), T.mul(a[0], d[1])), T.mul(a[1], a[1]))
        elif name == 'sqrt':
            r = T.fdiv(d[0], T.mul(num(2), n))
        elif name == 'sin':
            r = T.mul(d[0], T.fn('cos', a[0]))
        elif name == 'cos':
            r = T.neg(T.mul(d[0], T.fn('sin', a[0])))
        elif n.op == 'ite':
            r = T.ite(a[0], d[1], d[2])
        else:
            raise NoDerivative(T.show(n, 3))
    memo[n.id] = r
    return r


def sum_(l):
    r = num(0)
    for x in l:
        r = T.add(r, x)
    return r


def prod(l):
    r = num(1)
    for x in l:
        r = T.mul(r, x)
    return r


def circle(n):
    """sines and cosines written as rational functions: an identity in them is one of rational functions"""
    m = {}
    for x in N.subterms(n):
        name = x.k if x.op == 'fn' else x.op
        if name in ('sin', 'cos'):
            h = S(mk('sym', 'half%d' % x.a[0].id))
            m[x.id] = ((h * 2) / (S(1) + h * h) if name == 'sin' else (S(1) - h * h) / (S(1) + h * h)).n
    return LP.replace(n, m) if m else n


def unit_square(u):
    return band(T.le(num(0), u[0].n), T.lt(u[0].n, num(1)), T.le(num(0), u[1].n), T.lt(u[1].n, num(1)))


def args_are(r, c, *vs):
    """the call has these arguments"""
    if len(c.args) != len(vs):
        return False
    for g, v in zip(c.args, vs):
        t = v.base()
        g = K.bare(g)
        if K.dyn(t, 'Shape') and t[0] != 'adt':
            if K.unboxed(g) is not K.unboxed(v.n):
                return False
        elif fl(V(r.ev.expand(t, g), t, r.ev)) != fl(v):
            return False
    return True


def ret_is(r, c):
    return fl(r.ret) == fl(V(r.ev.expand(r.rett, c.n), r.rett, r.ev))


def inner_shape(r):
    a = r.arg('self')
    f = ck_fields(r.ck, a)
    s = [a.field(k) for k in range(f) if K.dyn(a.field(k).t, 'Shape')]
    if len(s) != 1:
        raise Missing('an area light has %d shapes' % len(s))
    return s[0]


def ck_fields(ck, v):
    return len(ck.M.adts[v.base()[1]]['v'][0]['f'])


def light_colour(r):
    a = r.arg('self')
    c = [a.field(k) for k in range(ck_fields(r.ck, a)) if a.field(k).t[0] == 'adt' and last(a.field(k).t[1]) == 'Spectrum']
    if len(c) != 1:
        raise Missing('a light has %d colours' % len(c))
    return c[0]


def area_light(ck, sp):
    # as a shape it is the shape it was made of
    for m, names in (('bbox', ()), ('area', ()), ('intersect_p', ('ray',)), ('intersect', ('ray',)), ('sample', ('u',)), ('sample_ref', ('i', 'u')), ('pdf', ('i', 'w'))):
        l = ck.M.method('AreaLight', m, 'Shape')
        if not l:
            # the default: only right for sample_ref, if the shape has none of its own
            ck.require(m not in ('bbox', 'area', 'intersect_p', 'intersect', 'sample'), 'like-its-shape', 'AreaLight::' + m, 'missing')
            own = [i for i in shapes(ck) if m in i['im']]
            ck.require(not own, 'like-its-shape', 'AreaLight::' + m, 'the shape of the light has its own `%s`, which is not used' % m)
            continue
        r = ck.run(l[0].path, 'self', *names, opaque=sp)
        cs = each(ck, r, m)
        if m == 'sample_ref' and not cs:
            cs = each(ck, r, 'sample')
            ok = len(cs) == 1 and args_are(r, cs[0], inner_shape(r), r.arg('u')) and ret_is(r, cs[0])
        else:
            ok = len(cs) == 1 and args_are(r, cs[0], inner_shape(r), *[r.arg(n) for n in names]) and ret_is(r, cs[0])
        ck.require(ok, 'like-its-shape', r.path, 'not what the shape of the light says')
    # emission on the side of the normal
    r = ck.run(ck.fn('AreaLight', 'l', 'Shape'), 'self', 'i', 'w')
    c, i, w = rgb(light_colour(r)), r.arg('i'), xyz(r.arg('w'))
    d = w.dot(xyz(i.field('n')))
    ck.same('emission', r.path, rgb(r.ret), list(c), assume=T.lt(num(0), d.n))
    ck.same('emission', r.path, rgb(r.ret), [ZERO] * 3, assume=T.lt(d.n, num(0)))
    # other shapes give no light
    for im in shapes(ck):
        if last(str(im['selft'][1]) if isinstance(im['selft'], tuple) else str(im['selft'])).startswith('AreaLight'):
            continue
        ck.require('l' not in im['im'] or 'AreaLight' in im['im']['l'], 'emission', str(im['im'].get('l')), 'a shape that is no light emits')
    r = ck.run(ck.default('Shape', 'l'), 'self', 'i', 'w')
    ck.same('emission', r.path, rgb(r.ret), [ZERO] * 3)
    # a sample
    r = ck.run(ck.fn('AreaLight', 'sample_li', 'Light'), 'self', 'i', 'u', opaque=sp)
    p, i = r.path, r.arg('i')
    sh = inner_shape(r)
    cs = each(ck, r, 'sample_ref', traitret(ck, 'Shape', 'sample')) or each(ck, r, 'sample', traitret(ck, 'Shape', 'sample'))
    if not ck.require(len(cs) == 1, 'sampled-point', p, 'not one point of the shape is sampled'):
        return
    c = cs[0]
    args = [sh, i, r.arg('u')] if len(c.args) == 3 else [sh, r.arg('u')]
    ck.require(args_are(r, c, *args), 'sampled-point', p, 'the point is not sampled on the shape, as seen from the given point, with the given sample values')
    q = c.v
    wi = (xyz(q.p) - xyz(i.p)).unit()
    out = r.ret
    ck.same('sampled-direction', p, xyz(out.field('0')), list(wi))
    d = -(xyz(out.field('0')).dot(xyz(q.field('n'))))
    col = rgb(light_colour(r))
    ck.same('sampled-light', p, rgb(out.field('1')), list(col), assume=T.lt(num(0), d.n))
    ck.same('sampled-light', p, rgb(out.field('1')), [ZERO] * 3, assume=T.lt(d.n, num(0)))
    # its density is the one reported for that direction
    s = ck.run(ck.fn('AreaLight', 'pdf_li', 'Light'), 'self', 'i', 'w', args=[None, None, mk('adt', ('vector::Vector3f', 0), *[x.n for x in xyz(out.field('0'))])], opaque=sp)
    ck.same('sampled-density', p, out.field('2'), s.ret)
    s = ck.run(ck.fn('AreaLight', 'pdf_li', 'Light'), 'self', 'i', 'w', opaque=sp)
    cs = each(ck, s, 'pdf')
    ck.require(len(cs) == 1 and args_are(s, cs[0], inner_shape(s), s.arg('i'), s.arg('w')) and ret_is(s, cs[0]), 'density', s.path, 'not the density of the shape of the light')
    visible(ck, r, out.field('3'), i, [fl(q.p), fl(q.p_err), fl(q.field('n'))])
    delta(ck, 'AreaLight', False)


def delta(ck, adt, want):
    r = ck.run(ck.fn(adt, 'is_delta', 'Light'), 'self')
    ck.require(r.ret.n is (TRUE if want else FALSE), 'kind', r.path, 'the light says it is %sa delta light' % ('not ' if want else ''))


def visible(ck, r, vt, i, want):
    """the segment tested is the one from the point to the sampled one"""
    u = ck.run(ck.fn('VisibilityTester', 'unoccluded'), 'self', 'scene', opaque=[ck.fn('Interaction', 'spawn_ray_to')] + scene_ip(ck))
    c = sole(ck, u, 'spawn_ray_to')
    vself = u.arg('self')
    k0 = [k for k in range(ck_fields(ck, vself)) if fl(V(u.ev.expand(i.base(), K.bare(c.args[0])), i.base(), u.ev)) == fl(vself.field(k))]
    k1 = [k for k in range(ck_fields(ck, vself)) if fl(V(u.ev.expand(i.base(), K.bare(c.args[1])), i.base(), u.ev)) == fl(vself.field(k))]
    if not ck.require(len(k0) == 1 and len(k1) == 1 and k0 != k1, 'visibility', u.path, 'the segment between the two points is not what is tested'):
        return
    a, b = vt.field(k0[0]), vt.field(k1[0])
    one, two = (lambda x: [fl(x.p), fl(x.p_err), fl(x.field('n'))]), want
    ck.require(one(a) == one(i) and one(b) == two, 'visibility', r.path, 'the segment tested is not the one between the given and the sampled point')


def scene_ip(ck):
    return [b.path for b in ck.M.method('Scene', 'intersect_p')]


def shapes(ck):
    return [i for i in ck.M.impls if last(i.get('trait') or '') == 'Shape' and 'test' not in str(i['selft'])]


def density(ck, sp):
    """density with respect to solid angle, from the density with respect to area"""
    own = [i['im']['pdf'] for i in shapes(ck) if 'pdf' in i['im'] and 'AreaLight' not in i['im']['pdf']]
    ck.require(not own, 'density', str(own), 'a shape has its own density, which is not analysed')
    own = [i['im']['sample_ref'] for i in shapes(ck) if 'sample_ref' in i['im'] and 'AreaLight' not in i['im']['sample_ref']]
    ck.require(not own, 'density', str(own), 'a shape samples in its own way for a given point, which is not analysed')
    r = ck.run(ck.default('Shape', 'pdf'), 'self', 'i', 'w', opaque=[sp[0]])
    p = r.path
    i, w = r.arg('i'), r.arg('w')
    s = sole(ck, r, 'spawn_ray')
    ck.require(args_are(r, s, i, w), 'density', p, 'another ray than the one from the point in that direction is intersected')
    ray = V(s.n, s.t, r.ev)
    c = sole(ck, r, 'intersect', traitret(ck, 'Shape', 'intersect'))
    rt = s.v
    t = rt.base()
    got = fl(V(r.ev.expand(t, K.bare(c.args[1])), t, r.ev))
    ck.require(K.unboxed(c.args[0]) is K.unboxed(r.arg('self').n) and got == fl(rt), 'density', p, 'the shape itself is not intersected with the spawned ray')
    hit = c.v.isome()
    q = c.v.some()[0]
    ar = each(ck, r, 'area')
    if not ck.require(len(ar) == 1 and K.unboxed(ar[0].args[0]) is K.unboxed(r.arg('self').n), 'density', p, 'the density does not depend on the area of the shape'):
        return
    area = S(ar[0].n)
    d = xyz(q.p) - xyz(i.p)
    cosw = xyz(w).dot(xyz(q.field('n')))
    m = {}
    for x in N.subterms(r.ret.n):
        if x.op in ('isnan', 'isinf'):
            m[x.id] = FALSE
    reg = LP.replace(r.ret.n, m)
    ck.same('density', p, reg, d.len2() / (absf(cosw) * area), assume=band(hit, bnot(T.eq(cosw.n, num(0))), T.lt(num(0), area.n)))
    ck.same('density', p, r.ret, ZERO, assume=bnot(hit))
    # a direction along the surface has no density, rather than an infinite one
    edge = {}
    for x in N.subterms(r.ret.n):
        if x.op == 'isinf':
            edge[x.id] = TRUE
        if x.op == 'isnan':
            edge[x.id] = FALSE
    g = band(hit, T.eq(cosw.n, num(0)))
    z = Settled(g)
    ck.same('finite-density', p, z.val(LP.replace(r.ret.n, edge)), ZERO, prover=z.pr)


def triangle(ck):
    r = ck.run(ck.fn('Triangle', 'sample', 'Shape'), 'self', 'u')
    p = r.path
    a, u = r.arg('self'), xy(r.arg('u'))
    sq = unit_square(u)
    # vertices: the array of points
    vs = None
    for k in range(ck_fields(ck, a)):
        f = a.field(k)
        if f.t[0] == 'array' and f.t[1][0] == 'adt' and last(f.t[1][1]).startswith('Point3'):
            vs = [xyz(f[j]) for j in range(3)]
    if vs is None:
        raise Missing('a triangle has no vertices')
    P = xyz(r.ret.p)
    s = mk('sym', 'root')
    root = lambda n: LP.replace(LP.replace(n, {T.fn('sqrt', u[0].n).id: s}), {u[0].n.id: T.mul(s, s)})
    facts = band(T.le(num(0), s), T.lt(s, num(1)), T.le(num(0), u[1].n), T.lt(u[1].n, num(1)))
    z = Settled(facts)
    try:
        X = [z.val(root(x.n)) for x in P]
        b = [deriv(X[0], vs[k][0].n) for k in range(3)]
        for j in range(3):
            ck.same('sampled-point', p, X[j], sum_([T.mul(b[k], vs[k][j].n) for k in range(3)]), prover=z.pr)
        ck.same('sampled-point', p, sum_(b), num(1), prover=z.pr)
        o = lambda x: T.sub(num(1), x)
        more = band(facts, *[T.le(num(0), T.mul(x, y)) for x in (s, o(s)) for y in (u[1].n, o(u[1].n))])
        for k in range(3):
            ck.require(not any(x in (v.n for w in vs for v in w) for x in N.subterms(b[k])), 'sampled-point', p, 'the weights depend on the triangle')
            pr = N.Prover(assume=more)
            r0 = pr.prove(T.lt(b[k], num(0)), FALSE)
            ck.require(r0 is None, 'sampled-point', p, 'a weight can be negative, which is outside of the triangle' + (': ' + r0.text() if r0 else ''))
        # the same area for equal areas of the sample square: du0 = 2 root droot
        J = S(deriv(b[0], s)) * S(deriv(b[1], u[1].n)) - S(deriv(b[0], u[1].n)) * S(deriv(b[1], s))
        ck.same('uniform', p, J * J, S(s) * S(s), prover=z.pr)
    except NoDerivative as e:
        ck.fail('uniform', p, 'whether points are sampled uniformly is not decided: ' + str(e))
        return
    # error bound
    pe = [z.val(root(x)) for x in fl(r.ret.p_err)]
    for j in range(3):
        tot = ZERO
        for k in range(3):
            tot = tot + absf(S(b[k]) * vs[k][j])
        ck.implies('error-bound', p, TRUE, V(pe[j]) >= tot * S(G7), N.Prover(assume=facts), what='the error bound of the point is at least seven rounding errors of its terms')
    # the normal is that of the surface, on the side intersect() reports
    n = [z.val(root(x)) for x in fl(r.ret.field('n'))]
    cr = (vs[1] - vs[0]).cross(vs[2] - vs[0])
    nn = cr.unit()
    rev, vn = orient(ck, a)
    have = vn.isome()
    av = [xyz(vn.some()[k]) for k in range(3)]
    sn = av[0] * S(b[0]) + av[1] * S(b[1]) + av[2] * S(b[2])
    side = nn.dot(sn)
    for yes in (True, False):
        rv = rev if yes else bnot(rev)
        sg = -1 if yes else 1
        agree(ck, 'normal', p, n, [x * sg for x in nn], band(facts, rv, bnot(have), T.lt(num(0), nn.len2().n)))
        for up in (1, -1):
            q = T.lt(num(0), (side * up).n)
            agree(ck, 'normal', p, n, [x * (sg * up) for x in nn], band(facts, rv, have, q, T.lt(num(0), sn.length().n)))


def orient(ck, a):
    rev = vn = None
    for k in range(ck_fields(ck, a)):
        f = a.field(k)
        if f.t == ('prim', 'bool'):
            rev = f.n if T.is_bool(f.n) else T.atom(f.n)
        elif f.t[0] == 'adt' and last(f.t[1]) == 'Option':
            vn = f
    if rev is None or vn is None:
        raise Missing('orientation or vertex normals of a triangle not found')
    return rev, vn


def sphere(ck):
    r = ck.run(ck.fn('Sphere', 'sample', 'Shape'), 'self', 'u')
    p = r.path
    a, u = r.arg('self'), xy(r.arg('u'))
    rad = a.radius
    c = xyz(a.center)
    z = Settled(band(unit_square(u), T.lt(num(0), rad.n), T.lt(num(0), u[0].n)), nn=[u[0], S(1) - u[0], u[0] * (S(1) - u[0])])
    zz = S(1) - u[0] * 2
    z = Settled(band(unit_square(u), T.lt(num(0), rad.n), T.lt(num(0), u[0].n)), nn=[S(1) - zz * zz, u[0] - u[0] * u[0]])
    P = [z.val(x.n) for x in xyz(r.ret.p)]
    d = [T.sub(x, y.n) for x, y in zip(P, c)]
    D = Vec([S(x) for x in d])
    ck.same('sampled-point', p, circle(D.len2().n), rad * rad, prover=z.pr)
    n = [z.val(x) for x in fl(r.ret.field('n'))]
    ck.same('normal', p, [T.mul(x, rad.n) for x in n], d, prover=z.pr)
    try:
        a0, a1 = [Vec([S(deriv(x, v.n)) for x in d]) for v in u]
        cr = a0.cross(a1)
        ck.same('uniform', p, circle(cr.len2().n), (PI * rad * rad * 4) * (PI * rad * rad * 4), prover=z.pr)
    except NoDerivative as e:
        ck.fail('uniform', p, 'whether points are sampled uniformly is not decided: ' + str(e))
    pe = [z.val(x) for x in fl(r.ret.p_err)]
    for j in range(3):
        ck.implies('error-bound', p, TRUE, V(pe[j]) >= absf(S(d[j])) * S(G5), z.pr, what='the error bound of the point is at least five rounding errors of its offset from the centre')


def areas(ck):
    r = ck.run(ck.fn('Sphere', 'area', 'Shape'), 'self')
    rad = r.arg('self').radius
    ck.same('area', r.path, r.ret, PI * rad * rad * 4)
    r = ck.run(ck.fn('Triangle', 'area', 'Shape'), 'self')
    a = r.arg('self')
    for k in range(ck_fields(ck, a)):
        f = a.field(k)
        if f.t[0] == 'array' and f.t[1][0] == 'adt' and last(f.t[1][1]).startswith('Point3'):
            v = [xyz(f[j]) for j in range(3)]
            ck.same('area', r.path, r.ret * r.ret * 4, (v[1] - v[0]).cross(v[2] - v[0]).len2())


def distant(ck, sp):
    o = ck.run(ck.fn('DistantLight', 'new'), 'l', 'w')
    w = xyz(o.arg('w')).unit()
    r = ck.run(ck.fn('DistantLight', 'sample_li', 'Light'), 'self', 'i', 'u', args=[o.ret.n, None, None])
    ck.same('distant-direction', r.path, xyz(r.ret.field('0')), list(w))
    ck.same('distant-light', r.path, rgb(r.ret.field('1')), list(rgb(o.arg('l'))))
    ck.same('distant-density', r.path, r.ret.field('2'), S(1))
    s = ck.run(ck.fn('DistantLight', 'pdf_li', 'Light'), 'self', 'i', 'w')
    ck.same('distant-density', s.path, s.ret, ZERO)
    delta(ck, 'DistantLight', True)
    # shadow rays leave the scene
    q = ck.run(ck.fn('DistantLight', 'pre_process', 'Light'), 'self', 'b', args=[None, None], opaque=[ck.fn('BBox3f', 'bounding_sphere')] if ck.M.method('BBox3f', 'bounding_sphere') else [])
    c = sole(ck, q, 'bounding_sphere')
    ck.require(args_are(q, c, q.arg('b')), 'distant-visibility', q.path, 'the bounding sphere of something else than the scene')
    st = q.out('self')
    rad = c.v.field('1')
    # the light after preparation
    n = ck_fields(ck, st)
    prep = [fl(st.field(k)) for k in range(n)]
    orig = [fl(q.arg('self').field(k)) for k in range(n)]
    r = ck.run(ck.fn('DistantLight', 'sample_li', 'Light'), 'self', 'i', 'u', args=[st.n, None, None])
    i = r.arg('i')
    wl = xyz(r.ret.field('0'))
    vt = r.ret.field('3')
    P = None
    for k in range(ck_fields(ck, vt)):
        f = vt.field(k)
        if fl(f.p) != fl(i.p):
            P = f
    if not ck.require(P is not None, 'distant-visibility', r.path, 'no point outside of the scene is tested'):
        return
    visible(ck, r, vt, i, [fl(P.p), fl(P.p_err), fl(P.field('n'))])
    ck.same('distant-visibility', r.path, fl(P.p_err) + fl(P.field('n')), [num(0)] * 6)
    off = xyz(P.p) - xyz(i.p)
    # a multiple of the direction, at least the diameter
    f = [deriv(x.n, y.n) for x, y in zip(off, wl)]
    ck.same('distant-visibility', r.path, [S(f[0])] * 3, [S(x) for x in f])
    ck.same('distant-visibility', r.path, list(off), list(wl * S(f[0])))
    ck.implies('distant-visibility', r.path, T.le(num(0), rad.n), T.le((rad * 2).n, f[0]), what='the shadow ray is as long as the scene is wide')
    # preparing changes nothing else
    ck.same('distant-direction', q.path, list(xyz(r.ret.field('0'))) + list(rgb(r.ret.field('1'))),
            list(xyz(ck.run(ck.fn('DistantLight', 'sample_li', 'Light'), 'self', 'i', 'u').ret.field('0'))) + list(rgb(ck.run(ck.fn('DistantLight', 'sample_li', 'Light'), 'self', 'i', 'u').ret.field('1'))))
    # the sphere contains the box
    b = ck.run(ck.fn('BBox3f', 'bounding_sphere'), 'self')
    lo, hi = xyz(b.arg('self').min), xyz(b.arg('self').max)
    cen, R = xyz(b.ret.field('0')), b.ret.field('1')
    ok = band(*[T.le(x.n, y.n) for x, y in zip(lo, hi)])
    for k in range(8):
        v = Vec([(hi if k >> j & 1 else lo)[j] for j in range(3)])
        ck.same('bounding-sphere', b.path, (v - cen).len2(), R * R, assume=ok)


def C22(ck):
    ck.technique = ('Evaluated MIR of the lights with their shape left opaque; uniformity of the sampled points by symbolic differentiation of the sampling map (constant Jacobian), '
                    'density by equivalence with the change of measure at the point the direction hits.')
    ck.assumptions.append('The map from sample values to points is one-to-one (its Jacobian is constant and its image lies in the shape).')
    sp = [ck.fn('Interaction', 'spawn_ray'), ck.fn('Interaction', 'spawn_ray_to')]
    area_light(ck, sp)
    density(ck, sp)
    areas(ck)
    triangle(ck)
    sphere(ck)
    distant(ck, sp)
    n = [i for i in ck.M.impls if last(i.get('trait') or '') == 'Light' and 'test' not in str(i['selft'])]
    ck.count('lights', len(n))
    ck.require(len(n) == 2, 'all-covered', 'light::Light', '%d implementations, 2 are known' % len(n))
