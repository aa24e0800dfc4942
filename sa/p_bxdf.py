"""Scattering: the single distribution functions, Fresnel terms and the microfacet distribution."""
import terms as T
import norm as N
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, Vec, S, PI, sqrt, absf, vmax, vmin, ite, xyz, xy, rgb, Missing, n_, strip
from p_algebra import last
from p_light import fl, calls, Call, whole

REFLECTION, TRANSMISSION, DIFFUSE, GLOSSY, SPECULAR = 1, 2, 4, 8, 16
ZERO = S(0)


class Made(object):
    """a value made by its constructor from named arguments"""

    def __init__(self, ck, adt, *names, trait='BxDF'):
        self.ck, self.adt, self.trait = ck, adt, trait
        self.new = ck.run(ck.fn(adt, 'new'), *names)
        self.n = self.new.ret.n

    def arg(self, n):
        return self.new.arg(n)

    def path(self, m):
        return self.ck.fn(self.adt, m, self.trait)

    def run(self, m, names=(), args=None, opaque=()):
        a = [self.n] + (list(args) if args else [None] * len(names))
        return self.ck.run(self.path(m), 'self', *names, args=a, opaque=list(opaque))


def sole(ck, r, name, ret=None):
    """the one call of that name, with whatever leads to it"""
    u = {}
    for c in calls(ck, r.ev, name, ret):
        u[c.n.id] = c
    if len(u) != 1:
        raise Missing('%s calls %s %d times with different arguments' % (r.path, name, len(u)))
    return list(u.values())[0]


class Settled(object):
    """values with every condition, largest, smallest and absolute value decided that the facts decide"""

    def __init__(self, assume, nn=(), factors=()):
        self.factors = [n_(x) for x in factors]
        self.fp = None
        self.pr = N.Prover(assume=band(assume, *[T.le(num(0), n_(x)) for x in nn]))
        self.memo = {}
        self.cm = {}

    def true(self, c):
        if c in (TRUE, FALSE):
            return c is TRUE
        if c.id not in self.cm:
            self.cm[c.id] = self.pr.prove(c, TRUE) is None
        return self.cm[c.id]

    def bool(self, c):
        """conditions are rebuilt from settled operands"""
        if not c.a:
            return c
        if c.op == 'B':
            g = self.bool(c.a[0])
            if g is TRUE:
                return self.bool(c.a[1])
            if g is FALSE:
                return self.bool(c.a[2])
            return T.bite(g if T.is_bool(g) else T.atom(g), self.bool(c.a[1]), self.bool(c.a[2]))
        k = T.rebuild(c, [self.bool(x) if T.is_bool(x) else self.val(x) for x in c.a])
        if not T.is_bool(k):
            k = T.atom(k)
        if self.true(k):
            return TRUE
        if self.true(bnot(k)):
            return FALSE
        return k

    def top(self, n):
        """the outermost conditions decided"""
        while n.op == 'ite':
            g = self.bool(n.a[0])
            if g is TRUE:
                n = n.a[1]
            elif g is FALSE:
                n = n.a[2]
            else:
                break
        return n

    def val(self, n):
        if n.id in self.memo:
            return self.memo[n.id]
        r = self._val(n)
        self.memo[n.id] = r
        return r

    def _val(self, n):
        if T.is_bool(n):
            return self.bool(n)
        if not n.a:
            return n
        if n.op == 'ite':
            g = self.bool(n.a[0])
            if g is TRUE or self.true(g):
                return self.val(n.a[1])
            if g is FALSE or self.true(bnot(g)):
                return self.val(n.a[2])
            return T.ite(g, self.val(n.a[1]), self.val(n.a[2]))
        xs = [self.val(x) for x in n.a]
        if n.op in ('max', 'min'):
            while len(xs) > 1:
                le = lambda a, b: self.true(T.le(a, b) if n.op == 'max' else T.le(b, a))
                d = [x for x in xs if any(y is not x and le(x, y) for y in xs)]
                if not d:
                    break
                xs.remove(d[0])
            return T.fn(n.op, *xs)
        if n.op == 'abs':
            if self.true(T.le(num(0), xs[0])):
                return xs[0]
            if self.true(T.le(xs[0], num(0))):
                return T.neg(xs[0])
            k = self.product_sign(xs[0]) if self.factors else None
            if k is not None:
                return xs[0] if k > 0 else T.neg(xs[0])
        return T.rebuild(n, xs)

    def product_sign(self, x):
        """sign of a product of the given factors, none of which is negative, and of squares"""
        nm = N.Norm()
        if self.fp is None:
            self.fp = []
            for f in self.factors:
                a = nm.rat(nm.canon(self.val(f)))
                self.fp += [p for p in a if any(p)] if len(a[1]) == 1 and all(not m for m in a[1]) else [a[0]]
        k = 1
        for q in nm.rat(nm.canon(x)):
            for f in self.fp:
                while any(q):
                    d = N.p_divexact(q, f)
                    if d is None:
                        break
                    q = d
            if len(q) != 1:
                return None
            (m, c), = q.items()
            if any(e % 2 for _, e in m):
                return None
            k = k if c > 0 else -k
        return k


def agree(ck, rule, p, got, want, assume=TRUE, nn=(), factors=()):
    """equal where the facts hold, after deciding what they decide"""
    s = Settled(assume, nn, factors)
    g = [s.val(n_(x)) for x in (got if isinstance(got, (list, tuple, Vec)) else [got])]
    w = [s.val(n_(x)) for x in (want if isinstance(want, (list, tuple, Vec)) else [want])]
    return ck.same(rule, p, g, w, prover=s.pr)


def each(ck, r, name, ret=None):
    u = {}
    for c in calls(ck, r.ev, name, ret):
        u[c.n.id] = c
    return list(u.values())


def vec3(ck, ev, n):
    return xyz(V(ev.expand(('adt', 'vector::Vector3f', ()), n), ('adt', 'vector::Vector3f', ()), ev))


def same_leaves(ck, rule, p, got, want, assume=TRUE):
    return ck.same(rule, p, fl(got), fl(want), assume=assume)


def holds(pr, got, want):
    """the two lists are equal"""
    return all(pr.prove(n_(g), n_(w)) is None for g, w in zip(list(got), list(want)))


def either(ck, rule, p, got, wants, assume=TRUE, what=''):
    """the vector is one of those"""
    pr = N.Prover(assume=assume)
    for w in wants:
        if holds(pr, got, w):
            ck.ok(rule, p)
            return w
    r = None
    for g, w in zip(list(got), list(wants[0])):
        r = r or pr.prove(n_(g), n_(w), 'result')
    ck.fail(rule, p, what + ((': ' + r.text()) if r else ''))
    return None


class Dist(object):
    """opaque parts of the microfacet distribution"""

    def __init__(self, ck):
        self.paths = [ck.fn('MicrofacetDistribution', m) for m in ('d', 'g', 'pdf', 'sample_wh')]


def fresnel_paths(ck):
    return [ck.fn('FresnelDielectric', 'evaluate', 'Fresnel')]


def sibling(ck, o, r, wo, which, assume, opaque, nn=()):
    """value or density of the sampled direction is what the function for given directions says"""
    z = Settled(assume, nn)
    v = r.ret.field('0')
    wi = mk('adt', v.n.k, *[z.top(x) for x in v.n.a]) if v.n.op == 'adt' else v.n
    got = [z.top(x) for x in fl(r.ret.field(str({'f': 1, 'pdf': 2}[which])))]
    s = o.run(which, ('wo', 'wi'), args=[wo, wi], opaque=opaque)
    want = fl(s.ret)
    # directions along the surface are not sampled
    flat = T.eq(xyz(r.arg('wo'))[2].n, num(0))
    cut = lambda l: [T.subst(x, {flat.a[0].id: FALSE}) for x in l]
    if z.true(bnot(flat)) and cut(got) == cut(want):
        return True
    sv = lambda l: [z.val(n_(x)) for x in l]
    return sv(got) == sv(want) or holds(z.pr, sv(got), sv(want))


def spec_lambert(ck):
    o = Made(ck, 'LambertianReflectionBRDF', 'r')
    ck.require(flag(ck, o) == REFLECTION | DIFFUSE, 'flags', o.path('flag'), 'a diffuse reflection is flagged %s' % flag(ck, o))
    R = rgb(o.arg('r'))
    f = o.run('f', ('wo', 'wi'))
    wo, wi = xyz(f.arg('wo')), xyz(f.arg('wi'))
    hemi = T.lt(num(0), (wo[2] * wi[2]).n)
    ck.same('diffuse', f.path, rgb(f.ret), R / PI, assume=hemi)
    p = o.run('pdf', ('wo', 'wi'))
    ck.same('diffuse', p.path, p.ret, ite(hemi, absf(wi[2]) / PI, ZERO))
    cs = ck.free('cosine_sample_hemisphere')
    s = o.run('sample_f', ('wo', 'u'), opaque=[cs])
    c = sole(ck, s, 'cosine_sample_hemisphere')
    same_leaves(ck, 'diffuse', s.path, c.args[0], s.arg('u'))
    c = xyz(c.v)
    got = xyz(s.ret.field('0'))
    for sg in (1, -1):
        side = T.lt(num(0), (wo[2] * sg).n)
        ck.same('diffuse', s.path, got, [c[0], c[1], c[2] * sg], assume=side)
        for m in ('f', 'pdf'):
            ok = sibling(ck, o, s, s.arg('wo').n, m, band(side, T.lt(num(0), c[2].n)), [])
            ck.require(ok, 'sample-agrees', s.path, 'the %s of the sampled direction is not that of %s()' % ({'f': 'value', 'pdf': 'density'}[m], m))


def flag(ck, o):
    r = o.run('flag')
    n = r.ret.n
    return int(n.k) if n.op == 'num' else None


def spec_specular_r(ck):
    o = Made(ck, 'SpecularReflectionBRDF', 'r', 'fr')
    ck.require(flag(ck, o) == REFLECTION | SPECULAR, 'flags', o.path('flag'), 'a mirror reflection is flagged %s' % flag(ck, o))
    delta(ck, o)
    s = o.run('sample_f', ('wo', 'u'))
    wo = xyz(s.arg('wo'))
    nz = bnot(T.eq(wo[2].n, num(0)))
    ck.same('mirror', s.path, xyz(s.ret.field('0')), [-wo[0], -wo[1], wo[2]], assume=nz)
    ck.same('mirror', s.path, s.ret.field('2'), S(1), assume=nz)
    c = sole(ck, s, 'evaluate', ('adt', 'spectrum::Spectrum', ()))
    ck.require(fl(c.args[0]) == fl(o.arg('fr')), 'mirror', s.path, 'the Fresnel term is not the one given')
    ck.same('mirror', s.path, S(c.args[1]), wo[2], assume=nz)
    ck.same('mirror', s.path, rgb(s.ret.field('1')), [a * b / absf(wo[2]) for a, b in zip(rgb(o.arg('r')), rgb(c.v))], assume=nz)


def delta(ck, o):
    for m in ('f', 'pdf'):
        r = o.run(m, ('wo', 'wi'))
        ck.same('delta-is-zero', r.path, fl(r.ret), [num(0)] * len(fl(r.ret)))


def given_dielectric(ck, p, n, ea, eb):
    w = ck.run(ck.fn('FresnelDielectric', 'new'), 'i', 't', args=[ea.n, eb.n])
    ck.require(fl(n) == fl(w.ret), 'fresnel-of-interface', p, 'the Fresnel term is not that of the two indices of refraction')


def spec_specular_t(ck):
    o = Made(ck, 'SpecularTransmissionBTDF', 't', 'ea', 'eb')
    ck.require(flag(ck, o) == TRANSMISSION | SPECULAR, 'flags', o.path('flag'), 'a specular transmission is flagged %s' % flag(ck, o))
    delta(ck, o)
    s = o.run('sample_f', ('wo', 'u'), opaque=fresnel_paths(ck))
    wo, ea, eb, t = xyz(s.arg('wo')), o.arg('ea'), o.arg('eb'), rgb(o.arg('t'))
    pos = band(T.lt(num(0), ea.n), T.lt(num(0), eb.n))
    fr = each(ck, s, 'evaluate')
    unit = [S(1) - wo[2] * wo[2]]
    for sg in (1, -1):
        ei, et = (ea, eb) if sg > 0 else (eb, ea)
        side = band(T.lt(num(0), (wo[2] * sg).n), pos)
        sin2 = (ei / et) * (ei / et) * (S(1) - wo[2] * wo[2])
        tir = T.le(num(1), sin2.n)
        agree(ck, 'total-reflection', s.path, s.ret.field('2'), ite(tir, ZERO, S(1)), side, nn=unit)
        ok = band(side, bnot(tir))
        z = Settled(ok, unit)
        sv = lambda l: [z.val(n_(x)) for x in l]
        e = ei / et
        ct = sqrt(S(1) - sin2)
        w = Vec([-(wo[0] * e), -(wo[1] * e), -(ct * sg)])
        agree(ck, 'refraction', s.path, xyz(s.ret.field('0')), w, ok, nn=unit)
        used = 0
        for c in fr:
            given_dielectric(ck, s.path, c.args[0], ea, eb)
            q = [t[k] * (S(1) - rgb(c.v)[k]) / ct * (ei * ei) / (et * et) for k in range(3)]
            pr = z.pr
            # the term is the same for both directions of the path
            if holds(pr, sv([c.args[1]]), [w[2]]) or holds(pr, sv([c.args[1]]), [wo[2]]):
                used += holds(pr, sv(rgb(s.ret.field('1'))), sv(q))
        ck.require(used >= 1, 'refraction', s.path, 'the value is not transmittance times what is not reflected, over the cosine, scaled by the squared indices')


def faced(h):
    """towards the upper side"""
    c = T.lt(h[2].n, num(0))
    return Vec([ite(c, -x, x) for x in h])


def dcalls(ck, rule, r, names, d, chk):
    """calls of the distribution's parts, on this distribution; the terms standing for them"""
    out = {}
    for n in names:
        l = [c for c in each(ck, r, n)]
        if not l:
            raise Missing('%s does not use the %s of the distribution' % (r.path, n))
        for c in l:
            ck.require(fl(c.args[0]) == fl(d), rule, r.path, 'another distribution is used')
        out[n] = l
    return out


def spec_micro_r(ck, D):
    o = Made(ck, 'MicrofacetReflectionBRDF', 'r', 'd', 'fr')
    ck.require(flag(ck, o) == REFLECTION | GLOSSY, 'flags', o.path('flag'), 'a glossy reflection is flagged %s' % flag(ck, o))
    op = D.paths
    f = o.run('f', ('wo', 'wi'), opaque=op)
    wo, wi, R = xyz(f.arg('wo')), xyz(f.arg('wi')), rgb(o.arg('r'))
    dist = fl(o.arg('d'))
    hemi = T.lt(num(0), (wo[2] * wi[2]).n)
    ck.same('no-grazing', f.path, rgb(f.ret), [ZERO] * 3, assume=bor(T.eq(wo[2].n, num(0)), T.eq(wi[2].n, num(0))))
    c = dcalls(ck, 'glossy-reflection', f, ('d', 'g'), o.arg('d'), 0)
    d, g, F = sole(ck, f, 'd'), sole(ck, f, 'g'), sole(ck, f, 'evaluate', ('adt', 'spectrum::Spectrum', ()))
    h = (wo + wi).unit()
    for sg in (1, -1):
        side = band(T.lt(num(0), (wo[2] * sg).n), T.lt(num(0), (wi[2] * sg).n))
        pos = band(sum_pos(wo, wi, sg), T.lt(num(0), (h[2] * sg).n))
        a = band(side, pos)
        either(ck, 'glossy-reflection', f.path, xyz(V(d.args[1], f.arg('wo').t, f.ev)), [h, -h], a, 'density of another direction than the half vector')
        same_pair(ck, 'glossy-reflection', f, g, wo, wi, a)
        ck.same('fresnel-from-the-right-side', f.path, S(F.args[1]), wi.dot(h) * sg, assume=a)
        ck.require(fl(F.args[0]) == fl(o.arg('fr')), 'glossy-reflection', f.path, 'the Fresnel term is not the one given')
        ck.same('glossy-reflection', f.path, rgb(f.ret), [R[k] * S(d.n) * S(g.n) * rgb(F.v)[k] / (S(4) * absf(wo[2]) * absf(wi[2])) for k in range(3)], assume=a)
    p = o.run('pdf', ('wo', 'wi'), opaque=op)
    ck.same('glossy-reflection', p.path, p.ret, ZERO, assume=bnot(hemi))
    q = sole(ck, p, 'pdf')
    a = band(hemi, T.lt(num(0), wo.dot(h).n))
    ck.require(fl(q.args[0]) == dist, 'glossy-reflection', p.path, 'another distribution is used')
    ck.same('glossy-reflection', p.path, xyz(V(q.args[2], f.arg('wo').t, p.ev)), h, assume=a)
    ck.same('glossy-reflection', p.path, p.ret, S(q.n) / (S(4) * wo.dot(h)), assume=a)
    # sampling
    s = o.run('sample_f', ('wo', 'u'), opaque=op)
    w = sole(ck, s, 'sample_wh')
    ck.require(fl(w.args[0]) == dist and fl(w.args[1]) == fl(s.arg('wo')) and fl(w.args[2]) == fl(s.arg('u')), 'glossy-sampling', s.path, 'the half vector is not sampled from the distribution')
    wh = xyz(w.v)
    k = wo.dot(wh)
    m = Vec([wh[j] * k * 2 - wo[j] for j in range(3)])
    nz = bnot(T.eq(wo[2].n, num(0)))
    up = T.lt(num(0), (m[2] * wo[2]).n)
    ck.same('glossy-sampling', s.path, s.ret.field('2'), ZERO, assume=bor(bnot(nz), bnot(up)))
    a = band(nz, up, T.lt(num(0), k.n))
    ck.same('glossy-sampling', s.path, xyz(s.ret.field('0')), m, assume=a)
    ck.require(sibling(ck, o, s, s.arg('wo').n, 'f', a, op), 'sample-agrees', s.path, 'the value of the sampled direction is not that of f()')
    ok = sibling(ck, o, s, s.arg('wo').n, 'pdf', a, op)
    pr = N.Prover(assume=a)
    for c in each(ck, s, 'pdf') if not ok else []:
        if fl(c.args[0]) == dist and holds(pr, xyz(V(c.args[2], f.arg('wo').t, s.ev)), wh):
            ok = ok or holds(pr, [s.ret.field('2')], [S(c.n) / (S(4) * k)])
    ck.require(ok, 'sample-agrees', s.path, 'the density of the sampled direction is not that of its half vector over four times the cosine')


def sum_pos(wo, wi, sg):
    """follows from both being on the same side, which the prover need not find out"""
    return T.lt(num(0), ((wo[2] + wi[2]) * sg).n)


def same_pair(ck, rule, r, g, wo, wi, a):
    x, y = vec3(ck, r.ev, g.args[1]), vec3(ck, r.ev, g.args[2])
    pr = N.Prover(assume=a)
    ck.require(holds(pr, x, wo) and holds(pr, y, wi) or holds(pr, x, wi) and holds(pr, y, wo), rule, r.path, 'masking is not that of the two directions')


def spec_micro_t(ck, D):
    o = Made(ck, 'MicrofacetTransmissionBTDF', 't', 'ea', 'eb', 'd')
    ck.require(flag(ck, o) == TRANSMISSION | GLOSSY, 'flags', o.path('flag'), 'a glossy transmission is flagged %s' % flag(ck, o))
    op = D.paths + fresnel_paths(ck)
    f = o.run('f', ('wo', 'wi'), opaque=op)
    p = o.run('pdf', ('wo', 'wi'), opaque=op)
    s = o.run('sample_f', ('wo', 'u'), opaque=op)
    wo, wi, t, ea, eb = xyz(f.arg('wo')), xyz(f.arg('wi')), rgb(o.arg('t')), o.arg('ea'), o.arg('eb')
    dist = fl(o.arg('d'))
    pos = band(T.lt(num(0), ea.n), T.lt(num(0), eb.n))
    for sg in (1, -1):
        for k, w2 in enumerate((T.lt(num(0), (wi[2] * sg).n), T.eq(wi[2].n, num(0)))):
            agree(ck, 'nothing-on-the-same-side', f.path, rgb(f.ret), [ZERO] * 3, band(T.lt(num(0), (wo[2] * sg).n), w2, T.lt(num(0), (wo[2] * wi[2]).n)) if k == 0 else band(T.lt(num(0), (wo[2] * sg).n), w2))
    ck.same('nothing-on-the-same-side', p.path, p.ret, ZERO, assume=T.lt(num(0), (wo[2] * wi[2]).n))
    d, g, F = sole(ck, f, 'd'), sole(ck, f, 'g'), each(ck, f, 'evaluate')
    if len(F) != 1:
        raise Missing('%s evaluates the Fresnel term %d times' % (f.path, len(F)))
    F = F[0]
    given_dielectric(ck, f.path, F.args[0], ea, eb)
    ck.require(fl(d.args[0]) == dist and fl(g.args[0]) == dist, 'glossy-transmission', f.path, 'another distribution is used')
    q = sole(ck, p, 'pdf')
    ck.require(fl(q.args[0]) == dist, 'glossy-transmission', p.path, 'another distribution is used')
    e = Vec([S(mk('sym', 'half.%d' % k)) for k in range(3)])
    for sg in (1, -1):
        side = band(T.lt(num(0), (wo[2] * sg).n), T.lt((wi[2] * sg).n, num(0)), T.lt((wo[2] * wi[2]).n, num(0)), pos)
        eta = eb / ea if sg > 0 else ea / eb
        z = Settled(side)
        u = wo + wi * eta
        # the half vector becomes a vector of its own, to either side
        sub = {z.val(x.n).id: y.n for x, y in zip(u.unit(), e)}
        sv = lambda x: T.subst(z.val(n_(x)), sub)
        vs = lambda l: Vec([S(sv(x)) for x in l])
        fv, pv = vs(rgb(f.ret)), S(sv(p.ret))
        dn, gn, qn, Fv = S(sv(d.n)), S(sv(g.n)), S(sv(q.n)), vs(rgb(F.v))
        dh, qh = vs(vec3(ck, f.ev, d.args[1])), vs(vec3(ck, p.ev, q.args[2]))
        gv = vs(vec3(ck, f.ev, g.args[1])), vs(vec3(ck, f.ev, g.args[2]))
        Fa = S(sv(F.args[1]))
        for hs in (1, -1):
            # the half vector on the upper side
            h = e * hs
            oh, ih = wo.dot(h), wi.dot(h)
            den = oh + ih * eta
            base = band(side, T.lt(num(0), h[2].n), bnot(T.eq(den.n, num(0))))
            for oo in (1, -1):
                a = band(base, T.lt(num(0), (oh * oo).n), T.lt((ih * oo).n, num(0)), T.lt((oh * ih).n, num(0)))
                one_of(ck, 'glossy-transmission', f.path, dh, h, a)
                pr = N.Prover(assume=a)
                ck.require(any(holds(pr, gv[m], wo) and holds(pr, gv[1 - m], wi) for m in (0, 1)), 'glossy-transmission', f.path, 'masking is not that of the two directions')
                agree(ck, 'fresnel-from-the-right-side', f.path, Fa, oh, a)
                # the products are of quantities that are not negative
                w = [t[k] * dn * gn * (S(1) - Fv[k]) * ih * oh / (den * den * wo[2] * wi[2]) for k in range(3)]
                pos1 = [dn, gn, ih * -oo, oh * oo, den * den, den, wo[2] * sg, wi[2] * -sg]
                for k in range(3):
                    agree(ck, 'glossy-transmission', f.path, fv[k], w[k], a, nn=w, factors=[t[k], S(1) - Fv[k]] + pos1)
                one_of(ck, 'glossy-transmission', p.path, qh, h, a)
                w = qn * eta * eta * ih * (-oo) / (den * den)
                agree(ck, 'glossy-transmission', p.path, pv, w, a, nn=[qn, ih * oo * -1, eta * eta * ih * (-oo) / (den * den)])
                b = band(base, T.lt(num(0), (oh * oo).n), T.lt(num(0), (ih * oo).n), T.lt(num(0), (oh * ih).n))
                agree(ck, 'no-microfacet-no-transmission', f.path, fv, [ZERO] * 3, b)
                agree(ck, 'no-microfacet-no-transmission', p.path, pv, ZERO, b)
    sampled_t(ck, o, s, op, wo, ea, eb, dist)


def sampled_t(ck, o, s, op, wo, ea, eb, dist):
    pos = band(T.lt(num(0), ea.n), T.lt(num(0), eb.n))
    w = sole(ck, s, 'sample_wh')
    ck.require(fl(w.args[0]) == dist and fl(w.args[1]) == fl(s.arg('wo')) and fl(w.args[2]) == fl(s.arg('u')), 'glossy-sampling', s.path, 'the half vector is not sampled from the distribution')
    wh = xyz(w.v)
    k = wo.dot(wh)
    ck.same('glossy-sampling', s.path, s.ret.field('2'), ZERO, assume=T.eq(wo[2].n, num(0)))
    for sg in (1, -1):
        e = ea / eb if sg > 0 else eb / ea
        sin2 = e * e * (S(1) - k * k)
        tir = T.le(num(1), sin2.n)
        side = band(T.lt(num(0), (wo[2] * sg).n), pos, T.lt(num(0), k.n))
        unit = [S(1) - k * k]
        agree(ck, 'total-reflection', s.path, s.ret.field('2'), ZERO, band(side, tir), nn=unit)
        a = band(side, bnot(tir))
        ct = sqrt(S(1) - sin2)
        m = Vec([wh[j] * (k * e - ct) - wo[j] * e for j in range(3)])
        got = xyz(s.ret.field('0'))
        agree(ck, 'glossy-sampling', s.path, got, m, a, nn=unit)
        for which in ('f', 'pdf'):
            ck.require(sibling(ck, o, s, s.arg('wo').n, which, a, op, nn=unit), 'sample-agrees', s.path, 'the %s of the sampled direction is not that of %s()' % ({'f': 'value', 'pdf': 'density'}[which], which))


def one_of(ck, rule, p, got, h, a):
    z = Settled(a)
    g = [z.val(n_(x)) for x in got]
    ck.require(holds(z.pr, g, h) or holds(z.pr, g, -h), rule, p, 'density of another direction than the half vector')


def C24(ck):
    ck.technique = ('Equivalence of evaluated MIR: value, sampled direction and density of each distribution function are compared with the closed formulas and with one another, '
                    'side by side for both sides of the surface; the microfacet distribution and Fresnel terms are opaque functions here.')
    D = Dist(ck)
    spec_lambert(ck)
    spec_specular_r(ck)
    spec_specular_t(ck)
    spec_micro_r(ck, D)
    spec_micro_t(ck, D)
    n = [i for i in ck.M.impls if last(i.get('trait') or '') == 'BxDF' and 'test' not in str(i['selft'])]
    ck.count('distribution functions', len(n))
    ck.require(len(n) == 5, 'all-covered', 'reflection::BxDF', '%d implementations, 5 are known' % len(n))


# ---------------------------------------------------------------- Fresnel, reflection, refraction

def C26(ck):
    ck.technique = 'Equivalence of evaluated MIR with the closed formulas, by cases: side of the interface, total internal reflection, range of the cosine.'
    o = Made(ck, 'FresnelDielectric', 'i', 't', trait='Fresnel')
    r = o.run('evaluate', ('c',))
    c, ei, et = r.arg('c'), o.arg('i'), o.arg('t')
    pos = band(T.lt(num(0), ei.n), T.lt(num(0), et.n))
    got = rgb(r.ret)
    for sg in (1, -1):
        a, b = (ei, et) if sg > 0 else (et, ei)
        for k, inr in ((c * sg, T.le((c * sg).n, num(1))), (S(1), T.lt(num(1), (c * sg).n))):
            side = band(T.lt(num(0), (c * sg).n), inr, pos)
            un = [S(1) - k * k]
            st = a / b * sqrt(S(1) - k * k)
            st2 = a * a / (b * b) * (S(1) - k * k)
            tir = band(T.le(num(1), st.n), T.le(num(1), st2.n))
            if k.n.op != 'num':
                agree(ck, 'total-reflection', r.path, got, [S(1)] * 3, band(side, tir), nn=un)
            ct = sqrt(S(1) - st2)
            pl = (b * k - a * ct) / (b * k + a * ct)
            pp = (a * k - b * ct) / (a * k + b * ct)
            no = band(side, T.lt(st.n, num(1)), T.lt(st2.n, num(1)))
            agree(ck, 'dielectric', r.path, got, [(pl * pl + pp * pp) / 2] * 3, no, nn=un)
    z = band(T.eq(c.n, num(0)), pos)
    ck.same('grazing', r.path, got, [S(1)] * 3, assume=z)
    # conductors
    o = Made(ck, 'FresnelConductor', 'i', 't', 'k', trait='Fresnel')
    r = o.run('evaluate', ('c',))
    c, ei, et, kk = r.arg('c'), rgb(o.arg('i')), rgb(o.arg('t')), rgb(o.arg('k'))
    got = rgb(r.ret)
    for sg in (1, -1):
        x = c * sg
        a = band(T.le(num(0), x.n), T.le(x.n, num(1)))
        for q in range(3):
            e, k = et[q] / ei[q], kk[q] / ei[q]
            e2, k2, c2 = e * e, k * k, x * x
            s2 = S(1) - c2
            t0 = e2 - k2 - s2
            ab = sqrt(t0 * t0 + e2 * k2 * 4)
            w = sqrt((ab + t0) / 2)
            rs = (ab + c2 - w * x * 2) / (ab + c2 + w * x * 2)
            rp = rs * (ab * c2 + s2 * s2 - w * x * s2 * 2) / (ab * c2 + s2 * s2 + w * x * s2 * 2)
            agree(ck, 'conductor', r.path, got[q], (rs + rp) / 2, band(a, T.lt(num(0), ei[q].n)), nn=[S(1) - x * x])
    o = Made(ck, 'FresnelNoOp', trait='Fresnel')
    r = o.run('evaluate', ('c',))
    ck.same('always-one', r.path, rgb(r.ret), [S(1)] * 3)
    # reflection and refraction
    r = ck.run(ck.free('reflection::reflect'), 'w', 'n')
    w, n = xyz(r.arg('w')), xyz(r.arg('n'))
    ck.same('mirror-direction', r.path, xyz(r.ret), [n[j] * w.dot(n) * 2 - w[j] for j in range(3)])
    r = ck.run(ck.free('reflection::refract'), 'w', 'n', 'e')
    w, n, e = xyz(r.arg('w')), xyz(r.arg('n')), r.arg('e')
    k = w.dot(n)
    a, un = TRUE, [S(1) - k * k]
    sin2 = e * e * (S(1) - k * k)
    tir = T.le(num(1), sin2.n)
    agree(ck, 'refracted-direction', r.path, r.ret.isome(), bnot(tir), a, nn=un)
    ct = sqrt(S(1) - sin2)
    agree(ck, 'refracted-direction', r.path, xyz(r.ret.some()), [n[j] * (k * e - ct) - w[j] * e for j in range(3)], band(a, bnot(tir)), nn=un)
    agree(ck, 'refracted-direction', r.path, r.ret.isome(), TRUE, T.lt((S(1) - k * k).n, num(0)))


# ---------------------------------------------------------------- microfacet distribution

def C40(ck):
    ck.technique = ('Equivalence of evaluated MIR with the closed formulas of the anisotropic GGX distribution: density, shadowing, density of sampled half vectors, '
                    'and the inversion the sampling is made of.')
    o = Made(ck, 'MicrofacetDistribution', 'ax', 'ay', trait=None)
    # what the distribution keeps of its roughnesses
    fs = [o.new.ret.field(i) for i in range(len(ck.M.adts[o.new.ret.base()[1]]['v'][0]['f']))]
    if len(fs) != 2:
        raise Missing('the distribution has %d fields' % len(fs))
    ax, ay = o.arg('ax'), o.arg('ay')
    big = band(T.le(num(1), ax.n), T.le(num(1), ay.n))
    pr = N.Prover(assume=big)
    if not holds(pr, fs, [ax, ay]):
        fs = fs[::-1]
    ck.same('roughness-kept', o.new.path, fs, [ax, ay], assume=big)
    for x in fs:
        ck.implies('roughness-positive', o.new.path, TRUE, T.lt(num(0), x.n), what='a distribution of zero roughness divides by zero')
        ck.implies('roughness-kept', o.new.path, band(T.le(T.fconst('0.01'), ax.n), T.le(T.fconst('0.01'), ay.n)), bor(T.eq(x.n, ax.n), T.eq(x.n, ay.n)), what='ordinary roughnesses are kept as they are')
    # whatever they are, as long as they are positive
    ax, ay = S(mk('sym', 'rx')), S(mk('sym', 'ry'))
    made = mk('adt', o.n.k, *([ax.n, ay.n] if fs[0] is o.new.ret.field(0) or fs[0].n is o.new.ret.field(0).n else [ay.n, ax.n]))
    run = lambda m, *names, **kw: ck.run(ck.fn('MicrofacetDistribution', m), 'self', *names, args=[made] + [None] * len(names), **kw)
    # density
    r = run('d', 'w')
    w = xyz(r.arg('w'))
    x, y, z = w
    unit_cases(ck, 'density', r, w, lambda e: S(1) / (PI * ax * ay * z * z * z * z * (S(1) + e) * (S(1) + e)), lambda: (x * x / (ax * ax) + y * y / (ay * ay)) / (z * z))
    agree(ck, 'density', r.path, T.subst(finite(r.ret.n), {z.n.id: num(0)}), ZERO)
    # shadowing
    lam = ck.fn('MicrofacetDistribution', 'lambda')
    r = run('lambda', 'w')
    w = xyz(r.arg('w'))
    x, y, z = w
    unit_cases(ck, 'shadowing', r, w, lambda e: (sqrt(S(1) + e) - 1) / 2, lambda: (x * x * ax * ax + y * y * ay * ay) / (z * z))
    g = run('g', 'wo', 'wi', opaque=[lam])
    l = {}
    for c in each(ck, g, 'lambda'):
        ck.require(fl(c.args[0]) == fl(made), 'shadowing', g.path, 'another distribution is used')
        for n in ('wo', 'wi'):
            if fl(c.args[1]) == fl(g.arg(n)):
                l[n] = S(c.n)
    if ck.require(len(l) == 2, 'shadowing', g.path, 'shadowing and masking are not both taken into account'):
        ck.same('shadowing', g.path, g.ret, S(1) / (S(1) + l['wo'] + l['wi']))
    if ck.M.method('MicrofacetDistribution', 'g1'):
        g = run('g1', 'w', opaque=[lam])
        ck.same('shadowing', g.path, g.ret, S(1) / (S(1) + S(sole(ck, g, 'lambda').n)))
    # density of sampled half vectors
    dp = ck.fn('MicrofacetDistribution', 'd')
    r = run('pdf', 'wo', 'w', opaque=[dp])
    c = sole(ck, r, 'd')
    ck.require(fl(c.args[1]) == fl(r.arg('w')) and fl(c.args[0]) == fl(made), 'sampled-density', r.path, 'density of another direction')
    ck.same('sampled-density', r.path, r.ret, S(c.n) * absf(xyz(r.arg('w'))[2]))
    # inversion
    r = run('sample_wh', 'wo', 'u')
    sampling(ck, r, ax, ay)


def finite(n):
    """a quotient is infinite where its divisor is zero"""
    sub = {}
    for x in N.subterms(n):
        if x.op == 'isinf':
            y = x.a[0]
            while y.op in ('abs', 'neg'):
                y = y.a[0]
            sub[x.id] = T.eq(y.a[1], num(0)) if y.op == 'fdiv' else FALSE
    return T.subst(n, sub)


def unit_cases(ck, rule, r, w, val, e):
    x, y, z = w
    ret = finite(r.ret.n)
    s2 = S(1) - z * z
    s = sqrt(s2)
    inside = band(*[b for v in (x, y) for b in (T.le(num(-1), (v / s).n), T.le((v / s).n, num(1)))], T.lt(num(0), s2.n), T.lt(num(0), s.n))
    nz = bnot(T.eq(z.n, num(0)))
    agree(ck, rule, r.path, ret, val(e()), band(inside, nz))
    # straight up or down
    for sg in (1, -1):
        sub = {x.n.id: num(0), y.n.id: num(0), z.n.id: num(sg)}
        ck.same(rule, r.path, finite(T.subst(r.ret.n, sub)), T.subst(val(ZERO).n, sub))


def sampling(ck, r, ax, ay):
    wo, u = xyz(r.arg('wo')), xy(r.arg('u'))
    got = xyz(r.ret)
    inr = band(T.le(num(0), u[0].n), T.lt(u[0].n, num(1)), T.le(num(0), u[1].n), T.lt(u[1].n, num(1)), T.lt(num(0), ax.n), T.lt(num(0), ay.n))
    cos, sin = (lambda a: S(T.fn('cos', n_(a)))), (lambda a: S(T.fn('sin', n_(a))))
    for sg in (1, -1):
        side = band(T.lt(num(0), (wo[2] * sg).n), inr)
        # equal roughnesses
        t2 = ax * ax * u[0] / (S(1) - u[0])
        ct = S(1) / sqrt(S(1) + t2)
        st = sqrt(S(1) - ct * ct)
        phi = PI * 2 * u[1]
        a = band(side, T.eq(ax.n, ay.n), T.lt(num(0), ct.n), T.lt(num(0), (ct * wo[2] * sg).n))
        agree(ck, 'inversion', r.path, got, [st * cos(phi) * sg, st * sin(phi) * sg, ct * sg], a, nn=[S(1) - ct * ct])
        # different ones
        f1 = lambda name, v: S(T.fn(name, n_(v)))
        for half in (0, 1):
            phi = f1('atan', ay / ax * f1('tan', PI * 2 * u[1] + PI / 2)) + (PI if half else ZERO)
            q = cos(phi) * cos(phi) / (ax * ax) + sin(phi) * sin(phi) / (ay * ay)
            t2 = S(1) / q * u[0] / (S(1) - u[0])
            ct = S(1) / sqrt(S(1) + t2)
            st = sqrt(S(1) - ct * ct)
            a = band(side, bnot(T.eq(ax.n, ay.n)), T.lt(num(0), ct.n), T.lt(num(0), (ct * wo[2] * sg).n), T.lt(S(0.5).n, u[1].n) if half else T.lt(u[1].n, S(0.5).n))
            agree(ck, 'inversion', r.path, got, [st * cos(phi) * sg, st * sin(phi) * sg, ct * sg], a, nn=[S(1) - ct * ct])
