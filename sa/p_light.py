"""Light transport: dimension budget, direct light, radiance along a path, path continuation."""
import terms as T
import norm as N
import eval as E
import loops as LP
import graph as G
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, Vec, S, fn, ap, sqrt, absf, vmax, vmin, ite, xyz, xy, rgb, Missing, n_, strip
from p_algebra import last
from p_integrator import callnode, mentions, chain

SPECULAR = 16


def fl(x):
    """leaves of a value; references to opaque heap objects stand for the objects"""
    out = []
    for y in LP.flatten(x.n if isinstance(x, V) else x):
        while y.op == 'ref' and y.k[0][0] == 'H' and not y.k[1] and y.a:
            y = y.a[0]
        out.append(y)
    return out


def whole(v):
    """leaves of a value given by its typed view, behind pointers"""
    return fl(v.ev.expand(strip(v.base()), v.n))


def opaques(ck, direct=True):
    o = [ck.fn('BSDF', 'sample_f'), ck.fn('Scene', 'intersect'), ck.fn('Interaction', 'compute_scattering'), ck.fn('Interaction', 'le'), ck.fn('Interaction', 'spawn_ray')]
    if direct:
        o.append(ck.fn('IntegratorLocal', 'uniform_sample_one_light'))
    else:
        o += [ck.fn('BSDF', 'f'), ck.fn('BSDF', 'pdf'), ck.fn('VisibilityTester', 'unoccluded')]
    return o


def traitret(ck, trait, m):
    for i in ck.M.impls:
        if (i.get('trait') or '').split('::')[-1] == trait and m in i['im'] and i['im'][m] in ck.M.bodies:
            return ck.M.bodies[i['im'][m]].locals[0]
    raise Missing('no implementation of %s::%s' % (trait, m))


class Call(object):
    """an opaque call the evaluation met: arguments, path condition, result fields"""

    def __init__(self, ck, ev, e, ret=None, sub=None):
        self.e, self.name = e, e[1]
        s = sub or (lambda x: x)
        self.pc = s(e[0])
        self.args = [s(a) for a in e[2]]
        self.n = s(callnode(e))
        ret = ret or (ck.M.bodies[e[1]].locals[0] if e[1] in ck.M.bodies else None)
        self.ev, self.t = ev, ret

    @property
    def v(self):
        return V(self.ev.expand(self.t, self.n) if self.n.op == 'call' else self.n, self.t, self.ev)


def calls(ck, ev, name, ret=None, sub=None):
    return [Call(ck, ev, e, ret, sub) for e in ev.events if last(e[1]) == name]


def one(ck, ev, name, where, ret=None, sub=None):
    c = calls(ck, ev, name, ret, sub)
    # the same call met on several paths is one call
    u = {}
    for x in c:
        if x.n.id in u:
            u[x.n.id].pc = bor(u[x.n.id].pc, x.pc)
        else:
            u[x.n.id] = x
    if len(u) != 1:
        raise Missing('%s: expected one call of %s, found %d' % (where, name, len(u)))
    return list(u.values())[0]


class Li(object):
    """the path loop: its state, one iteration, its result"""

    def __init__(self, ck):
        self.path = p = ck.fn('IntegratorLocal', 'li')
        self.r = r = ck.run(p, 'self', 'sampler', 'ray', opaque=opaques(ck))
        self.ev = ev = r.ev
        ls = [L for L in ev.loops if L.d == 0 and any(L.d in x.fv for _, (x, _) in [(0, (y, 0)) for y in L.nexts])]
        ls = [L for L in ls if any(True for x in L.wraps)]
        if len(ls) != 1:
            raise Missing('li has %d loops that its result depends on' % len(ls))
        self.L = L = ls[0]
        sub = dict(L.sub)
        sub['__d'] = (L.d,)
        s = lambda x: T.subst(x, sub)
        self.res = [L.unwrap(x) for x in fl(r.ret)]
        self.smp = None
        self.isect = one(ck, ev, 'intersect', p, sub=s)
        self.sf = one(ck, ev, 'sample_f', p, sub=s)
        self.spawn = one(ck, ev, 'spawn_ray', p, sub=s)
        self.direct = one(ck, ev, 'uniform_sample_one_light', p, sub=s)
        self.scat = one(ck, ev, 'compute_scattering', p, sub=s)
        self.le = calls(ck, ev, 'le', sub=s)
        self.rr = calls(ck, ev, 'get_1d', sub=s)
        self.cont = L.cont
        self.hit = self.isect.v.isome()
        self.i = self.isect.v.some()
        self.nn = [L.it]

    def at(self, x, k, vals):
        m = {p.id: v for p, v in zip(self.L.phis, vals)}
        m[self.L.it.id] = num(k) if isinstance(k, int) else k
        m['__d'] = (self.L.d,)
        return T.subst(x, m)

    def first(self, x):
        return self.at(x, 0, self.L.inits)

    def nxt(self, x):
        return self.at(x, T.add(self.L.it, num(1)), self.L.nexts)

    def nx(self, phi):
        return self.L.nexts[self.L.phis.index(phi)]

    def prover(self, **kw):
        return N.Prover(nn=[self.L.it], **kw)


def triple(lp, ck, init, test):
    """carried values with the given start that satisfy test"""
    return [p for p, i in zip(lp.L.phis, lp.L.inits) if i is num(init) and test(p)]


def roles(ck, lp):
    """accumulated radiance and throughput, per channel"""
    L = lp.L
    acc, beta = [], []
    for c in range(3):
        a = [p for p, i in zip(L.phis, L.inits) if i is num(0) and mentions(lp.res[c], p) and not any(mentions(lp.res[k], p) for k in range(3) if k != c)
             and all(mentions(x, p) for x in [lp.nx(p)]) and not mentions(lp.cont, p)]
        if len(a) != 1:
            raise Missing('li: no accumulated radiance (starting at zero) for channel %d' % c)
        acc.append(a[0])
        d = lp.direct.v.field(c)
        b = [p for p, i in zip(L.phis, L.inits) if i is num(1) and mentions(lp.nx(acc[c]), p) and mentions(lp.nx(p), p)]
        if len(b) != 1:
            raise Missing('li: no throughput (starting at one) for channel %d' % c)
        beta.append(b[0])
    return acc, beta


def bound(lp, limit=4096):
    """least C with: the path never goes on at iteration C or later"""
    pr = lp.prover()
    f = lambda c: pr.prove(band(lp.cont, T.le(num(c), lp.L.it)), FALSE) is None
    hi = 1
    while not f(hi):
        hi *= 2
        if hi > limit:
            return None
    lo = hi // 2
    while hi - lo > 1:
        m = (lo + hi) // 2
        if f(m):
            hi = m
        else:
            lo = m
    return hi


def cost(n, base, ck, memo=None):
    """most sampler dimensions drawn between the base state and state n"""
    if memo is None:
        memo = {}
    if n.id in memo:
        return memo[n.id]
    if n is base or n.op in ('sym', 'phi'):
        r = 0
    elif n.op == 'ite':
        r = max(cost(n.a[1], base, ck, memo), cost(n.a[2], base, ck, memo))
    elif n.op == 'callmut':
        k = {'get_1d': 1, 'get_2d': 2}.get(last(n.k[0]))
        if k is None:
            raise Missing('the sampler is handed to %s' % n.k[0])
        r = k + cost(n.a[n.k[1]], base, ck, memo)
    else:
        raise Missing('sampler state: ' + T.show(n, 4))
    memo[n.id] = r
    return r


def C12(ck):
    ck.technique = ('Cost analysis on the value graph of evaluated MIR: the calls threading the sampler through one camera sample and one path are counted (maximum over branches, proved bound on '
                    'the iterations of the path loop) and compared with the number of dimensions the prime table accepts.')
    ck.assumptions = []
    import p_sampler as PS
    g = ck.default('Sampler', 'get_camera_sample')
    rg = ck.run(g, 'self', 'p_raster')
    cam = cost(rg.out('self').n, None, ck)
    p = ck.fn('IntegratorLocal', 'li')
    r = ck.run(p, 'self', 'sampler', 'ray', opaque=opaques(ck, False))
    out = r.out('sampler').n
    ls = [L for L in r.ev.loops if L.wraps]
    if not ck.require(len(ls) == 1, 'one-path-loop', p, 'li has %d loops' % len(ls)):
        return
    L = ls[0]

    class B(object):
        pass
    lp = B()
    lp.L, lp.cont = L, L.cont
    lp.prover = lambda: N.Prover(nn=[L.it])
    C = bound(lp)
    if not ck.require(C is not None, 'bounded-path', p, 'no bound on the number of path vertices follows from the loop condition: continues while ' + T.show(L.cont, 6)):
        return
    sp = [x for x, i in zip(L.phis, L.inits) if i.op == 'sym' and i.k == 'sampler' or i.op == 'callmut' and LP.last(i.k[0]) in ('get_1d', 'get_2d')]
    if not ck.require(len(sp) == 1, 'sampler-threaded', p, 'the sampler is not threaded through the path loop'):
        return
    phi = sp[0]
    j = L.phis.index(phi)
    before = cost(L.inits[j], None, ck)
    body = cost(L.nexts[j], phi, ck)
    term = L.unwrap(out)
    m = {L.it.id: num(C), '__d': (L.d,)}
    end = cost(T.subst(term, m), phi, ck)
    part = cost(term, phi, ck)
    total = cam + before + max(C * body + end, (C - 1) * body + part)
    tab = PS.prime_table(ck)
    ck.count('dimensions of a camera sample', cam)
    ck.count('dimensions per path vertex', body)
    ck.count('most path vertices continued', C)
    ck.count('dimensions drawn at most', total)
    ck.count('dimensions accepted', len(tab))
    ck.require(total <= len(tab), 'dimension-budget', p, 'a path can draw %d dimensions, but only %d are accepted' % (total, len(tab)))
    ck.floor('dimensions per path vertex', body, 1)


def C30(ck):
    ck.technique = ('Loop-summary analysis on evaluated MIR of the path tracer: the transition of the path state is proved to multiply the throughput by f |cos| / pdf, divided by the survival '
                    'probability exactly where Russian roulette is played, to follow the sampled direction, and to end within a proved number of steps.')
    ck.assumptions = ['sampler values are in [0, 1) (C09)']
    lp = Li(ck)
    p, L = lp.path, lp.L
    acc, beta = roles(ck, lp)
    pr = lp.prover()
    C = bound(lp)
    ck.require(C is not None, 'bounded-path', p, 'no bound on the number of path vertices follows from the loop condition: continues while ' + T.show(L.cont, 6))
    ck.count('most path vertices continued', C or 0)
    # the ray
    ray0 = fl(lp.r.arg('ray'))
    ray = fl(lp.isect.args[-1])
    ck.require(all(lp.first(x) is y for x, y in zip(ray, ray0)) and len(ray) == len(ray0), 'first-ray', p, 'the first ray traced is not the camera ray')
    ck.require(fl(lp.isect.args[0]) == whole(lp.r.arg('self').scene), 'first-ray', p, 'rays are not traced in the scene')
    wi, f, pdf, flag = [lp.sf.v[k] for k in range(4)]
    i = lp.i
    q = lp.prover(assume=lp.cont)
    ck.same('next-ray', p, [lp.nxt(x) for x in ray], fl(lp.spawn.v), q)
    ck.same('next-ray', p, fl(lp.spawn.args[0]), fl(i), lp.prover(assume=lp.hit))
    ck.same('next-ray', p, fl(lp.spawn.args[1]), fl(wi))
    # the sampled direction
    ck.same('scattering-at-the-hit', p, fl(lp.scat.args[0]), fl(i), lp.prover(assume=lp.hit))
    ck.same('sampled-direction', p, fl(lp.sf.args[0]), fl(lp.scat.v))
    ck.same('sampled-direction', p, fl(lp.sf.args[1]), fl(i.wo))
    u = fl(lp.sf.args[2])
    ok = len(u) == 2 and all(x.op == 'fld' and x.a[0].op == 'call' and last(x.a[0].k) == 'get_2d' for x in u) and u[0].a[0] is u[1].a[0] and u[0] is not u[1]
    ck.require(ok, 'sampled-direction', p, 'the direction is not sampled with two fresh sampler values: %s' % [T.show(x, 3) for x in u])
    black = band(*[x.eq(0) for x in rgb(f)])
    ck.implies('no-zero-density', p, lp.cont, bnot(pdf.eq(0)), pr, what='a direction of zero density ends the path')
    ck.implies('no-path-beyond-miss', p, lp.cont, lp.hit, pr, what='a ray that leaves the scene ends the path')
    # Russian roulette
    cos = absf(xyz(wi).dot(xyz(i.sn)))
    want = [V(b) * fc * cos / pdf for b, fc in zip(beta, rgb(f))]
    us = {c.n.id for c in lp.rr}
    ats = [a for a in T.bool_atoms(lp.cont).values() if any(x.id in us for x in N.subterms(a))]
    played = FALSE
    pos = neg = lp.cont
    for a in ats:
        ok = a.op in ('lt', 'le') and sum(x.id in us for x in a.a) == 1 and not any(y.id in us for x in a.a if x.id not in us for y in N.subterms(x))
        if not ck.require(ok, 'russian-roulette', p, 'a sampler value decides about the path in another way than by comparison with a probability: ' + T.show(a, 5)):
            return
        A = T.atom(a)
        less = a.a[0].id in us
        uu, Q = (a.a[0], a.a[1]) if less else (a.a[1], a.a[0])
        on, off = T.restrict(lp.cont, A), T.restrict(lp.cont, bnot(A))
        ctx = band(bor(on, off), bnot(band(on, off)))
        if ctx is FALSE:
            continue
        played = bor(played, ctx)
        up = band(ctx, on)          # survive when the atom holds
        dn = band(ctx, off)
        for surv, sense in ((up, True), (dn, False)):
            if surv is FALSE or pr.prove(surv, FALSE) is None:
                continue
            # survive iff (u < Q) == sense
            prob = V(Q) if less == sense else S(1) - V(Q)
            al = band(surv, A if sense else bnot(A), T.le(num(0), uu), T.lt(uu, num(1)))
            # what is compared with the sampler value may be anything
            gen = {x.id: mk('sym', 'Q%d' % k) for k, x in enumerate(bounds_of(Q))}
            g = lambda x: LP.replace(x, gen)
            al2 = band(g(A if sense else bnot(A)), T.le(num(0), uu), T.lt(uu, num(1)))
            gp = V(g(prob.n))
            ck.implies('survival-probability', p, al2, gp > 0, pr, what='a path that goes on has positive survival probability')
            ck.implies('survival-probability', p, al2, gp <= 1, pr, what='the survival probability is at most one')
            # a path that still carries radiance always has a chance to go on
            chance(ck, p, prob, beta, want, rgb(f), pdf, xyz(wi), xyz(i.sn), lp.prover(assume=ctx), ctx)
            got = [V(lp.nx(b)) * prob for b in beta]
            ck.same('throughput', p, got, want, lp.prover(assume=al))
    rest = lp.cont
    for a in ats:
        rest = band(rest, T.restrict(rest, T.atom(a)), T.restrict(rest, bnot(T.atom(a))))
    if pr.prove(rest, FALSE) is not None:
        ck.same('throughput', p, [lp.nx(b) for b in beta], want, lp.prover(assume=rest))
    ck.count('roulette decisions', len(ats))
    # the path ends only for a reason
    stop = bor(bnot(lp.hit), pdf <= 0, black, T.le(num((C or 1) - 1), L.it))
    alw = lp.cont
    for a in ats:
        A = T.atom(a)
        alw = bor(T.restrict(alw, A), T.restrict(alw, bnot(A)))
    ck.implies('ends-only-for-a-reason', p, bnot(alw), stop, pr, what='a path that hits a surface and samples a direction with non-zero value and density goes on')


def chance(ck, p, prob, beta, want, f, pdf, wi, sn, pr, ctx):
    """the survival probability is zero only where the new throughput is zero"""
    one, zero = num(1), num(0)
    m = {b.id: mk('sym', 'throughput%d' % k) for k, b in enumerate(beta)}
    m.update({x.n.id: one for x in f})
    m[pdf.n.id] = one
    for v in (wi, sn):
        m.update({x.n.id: y for x, y in zip(v, (zero, zero, one))})
    w = [mk('sym', 'throughput%d' % k) for k in range(3)]
    q = LP.replace(prob.n, m)
    back = LP.replace(q, {x.id: y.n for x, y in zip(w, want)})
    if pr.prove(back, prob.n) is None:
        goal, pr, ctx, of = V(q), N.Prover(), TRUE, [V(x) for x in w]
    else:
        goal, of = prob, want
    al = band(ctx, goal <= 0, *[x >= 0 for x in of])
    for x in of:
        ck.implies('survival-possible', p, al, x <= 0, pr, what='the survival probability is zero only where the throughput is')


def bounds_of(q):
    """the parts of a clamped value that are not constant"""
    if q.op in ('min', 'max') or q.op in ('add', 'mul', 'poly', 'lin', 'neg', 'sub') and any(x.op in ('min', 'max') for x in N.subterms(q)):
        return [y for x in q.a for y in bounds_of(x)]
    return [q] if q.a else []


def generalise(ops, *groups):
    """replace every subterm with one of the operators by a variable, equal ones by the same: what holds then holds for them"""
    nm = N.Prover().norm([]) if False else None
    found = []
    m = {}
    for g in groups:
        for t in g:
            for x in N.subterms(n_(t)):
                if x.op in ops and x.id not in m:
                    for y, s in found:
                        if N.Prover().prove(x, y) is None:
                            m[x.id] = s
                            break
                    else:
                        s = mk('sym', 'any%d' % len(found))
                        found.append((x, s))
                        m[x.id] = s
    return [[LP.replace(n_(t), m) for t in g] for g in groups]


def C29(ck):
    ck.technique = ('Value-graph evaluation over MIR: the radiance a path collects is proved, vertex by vertex, to be emission seen directly or through a specular bounce plus direct light, and the '
                    'direct-light estimator equals the multiple-importance-sampling formula with the power heuristic.')
    ck.assumptions = ['the random light index is below the number of lights up to rounding, which min() covers']
    lp = Li(ck)
    p, L = lp.path, lp.L
    acc, beta = roles(ck, lp)
    pr = lp.prover()
    i = lp.i
    # emission
    if not ck.require(len(lp.le) >= 1, 'emission', p, 'the light emitted by what a ray hits is not looked up'):
        return
    pc = FALSE
    for e in lp.le:
        pc = bor(pc, e.pc)
        ck.same('emission', p, fl(e.args[0]), fl(i), lp.prover(assume=lp.hit))
        d = fl(lp.isect.args[-1])[3:6]
        ck.same('emission', p, fl(e.args[1]), [T.neg(x) for x in d])
        ck.require(e.n is lp.le[0].n, 'emission', p, 'emission is looked up in different ways')
    Sd = T.restrict(pc, lp.hit)
    ck.implies('emission', p, lp.first(band(pc, lp.hit)) if False else band(lp.first(lp.hit), bnot(lp.first(Sd))), FALSE, pr, what='light seen directly by the camera is counted')
    flag = lp.sf.v[3]
    spec = bnot(T.eq(mk('bit&', None, flag.n, num(SPECULAR)), num(0)))
    spec = bnot(T.eq(bitand(lp, flag), num(0)))
    nextS = lp.nxt(Sd)
    q = lp.prover(assume=lp.cont)
    r = q.prove(nextS, spec)
    ck.require(r is None, 'emission-after-bounce', p, 'light hit after a bounce is counted under another condition than "the bounce was specular": %s' % (r.text(6) if r else ''))
    em = [ite(band(lp.hit, Sd), V(b) * x, 0) for b, x in zip(beta, rgb(lp.le[0].v))]
    # direct light
    ck.same('direct-light-at-the-hit', p, fl(lp.direct.args[2]), fl(i), lp.prover(assume=lp.hit))
    ck.same('direct-light-at-the-hit', p, fl(lp.direct.args[3]), fl(lp.scat.v))
    dl = [V(b) * x for b, x in zip(beta, rgb(lp.direct.v))]
    for c in range(3):
        a = V(acc[c])
        ck.same('radiance', p, V(lp.nx(acc[c])), a + em[c] + dl[c], q)
        ck.same('radiance', p, V(lp.res[c]), a + em[c] + ite(lp.direct.pc, dl[c], 0), lp.prover(assume=bnot(lp.cont)))
    import p_light
    C = bound(lp)
    ck.implies('direct-light-everywhere', p, band(lp.hit, T.le(L.it, num((C or 1) - 1))), lp.direct.pc, pr, what='direct light is added at every vertex')
    estimate(ck)
    one_light(ck)
    tester(ck)


def bitand(lp, flag):
    c = [x for x in N.subterms(mk('tup', None, *(list(lp.L.nexts) + [lp.cont]))) if x.op == 'bit&' and flag.n in x.a and num(SPECULAR) in x.a]
    return c[0] if c else mk('bit&', None, flag.n, num(SPECULAR))


def estimate(ck):
    p = ck.fn('IntegratorLocal', 'estimate_direct')
    r = ck.run(p, 'self', 'sampler', 'light', 'i', 'bsdf', opaque=opaques(ck, False))
    ev = r.ev
    i, bs = r.arg('i'), r.arg('bsdf')
    light = r.arg('light').n
    L = lambda m: traitret(ck, 'Light', m)
    sl = one(ck, ev, 'sample_li', p, L('sample_li'))
    f = one(ck, ev, 'f', p)
    pb = one(ck, ev, 'pdf', p)
    vis = one(ck, ev, 'unoccluded', p)
    dl = one(ck, ev, 'is_delta', p, L('is_delta'))
    sf = one(ck, ev, 'sample_f', p)
    pl = one(ck, ev, 'pdf_li', p, L('pdf_li'))
    sp = one(ck, ev, 'spawn_ray', p)
    it = one(ck, ev, 'intersect', p)
    le = one(ck, ev, 'le', p)
    wi, li, pdf = sl.v[0], sl.v[1], sl.v[2]
    for c in (sl, dl, pl):
        ck.require(c.args[0] is light, 'the-given-light', p, '%s is asked of another light' % last(c.name))
    ck.same('light-sample', p, fl(sl.args[1]), fl(i))
    us = [fl(sl.args[2]), fl(sf.args[2])]
    ok = all(len(u) == 2 and all(x.op == 'fld' and x.a[0].op == 'call' and last(x.a[0].k) == 'get_2d' for x in u) and u[0].a[0] is u[1].a[0] for u in us)
    ck.require(ok and us[0][0].a[0] is not us[1][0].a[0], 'independent-samples', p, 'light and BSDF are not sampled with two different fresh sampler values')
    for c in (f, pb):
        ck.same('bsdf-arguments', p, fl(c.args[0]), fl(bs))
        ck.same('bsdf-arguments', p, fl(c.args[1]), fl(i.wo))
        ck.same('bsdf-arguments', p, fl(c.args[2]), fl(wi))
    ck.same('visibility', p, fl(vis.args[0]), fl(sl.v[3]))
    scene = whole(r.arg('self').scene)
    ck.require(fl(vis.args[1]) == scene and fl(it.args[0]) == scene, 'visibility', p, 'visibility is not decided in the scene')
    cos = absf(xyz(wi).dot(xyz(i.sn)))
    delta = dl.n if T.is_bool(dl.n) else T.atom(dl.n)
    visible = vis.n if T.is_bool(vis.n) else T.atom(vis.n)
    ps = V(pb.n)
    w = ite(delta, 1, pdf * pdf / (pdf * pdf + ps * ps))
    first = [ite(band(pdf > 0, visible), fc * cos * lc / pdf * w, 0) for fc, lc in zip(rgb(f.v), rgb(li))]
    # BSDF sample
    ck.same('bsdf-sample', p, fl(sf.args[0]), fl(bs))
    ck.same('bsdf-sample', p, fl(sf.args[1]), fl(i.wo))
    swi, sff, sps, sfl = [sf.v[k] for k in range(4)]
    ck.same('bsdf-sample', p, fl(pl.args[1]), fl(i))
    ck.same('bsdf-sample', p, fl(pl.args[2]), fl(swi))
    ck.same('bsdf-sample', p, fl(sp.args[0]), fl(i))
    ck.same('bsdf-sample', p, fl(sp.args[1]), fl(swi))
    ck.same('bsdf-sample', p, fl(it.args[1]), fl(sp.v))
    hit = it.v.isome()
    hi = it.v.some()
    ck.same('light-hit', p, fl(le.args[0]), fl(hi), N.Prover(assume=hit))
    ck.same('light-hit', p, fl(le.args[1]), [T.neg(x) for x in fl(swi)])
    scos = absf(xyz(swi).dot(xyz(i.sn)))
    b = [x for y in LP.flatten(r.ret.n) for x in N.subterms(y) if x.op == 'bit&' and sfl.n in x.a and num(SPECULAR) in x.a]
    spec = bnot(T.eq(b[0] if b else mk('bit&', None, sfl.n, num(SPECULAR)), num(0)))
    same = addr_atom(ck, r, hi, light)
    if not ck.require(same is not None, 'light-hit', p, 'the sampled direction is not tested for hitting the very light (by address)'):
        return
    p2 = V(pl.n)
    w2 = sps * sps / (sps * sps + p2 * p2)
    ok = band(bnot(delta), bnot(spec), sps > 0, bnot(p2.eq(0)), hit, same)
    second = [ite(ok, fc * scos * lc / sps * w2, 0) for fc, lc in zip(rgb(sff), rgb(le.v))]
    got, want = generalise(('abs',), list(rgb(r.ret)), [x + y for x, y in zip(first, second)])
    ck.same('direct-light', p, [V(x) for x in got], [V(x) for x in want])


def addr_atom(ck, r, hi, light):
    """the condition: the shape hit is the light"""
    shape = fl(hi.shape)[-1]
    want = {deref(light).id, deref(shape).id}
    for y in LP.flatten(r.ret.n):
        for x in N.subterms(y):
            for a in (T.bool_atoms(x).values() if x.op == 'B' else ()):
                if a.op == 'eq' and {deref(z).id for z in a.a} == want:
                    return T.atom(a)
    return None


def deref(x):
    while x.op in ('ref', 'cast', 'addr', 'ptr') and x.a:
        x = x.a[0]
    return x


def one_light(ck):
    p = ck.fn('IntegratorLocal', 'uniform_sample_one_light')
    r = ck.run(p, 'self', 'sampler', 'i', 'bsdf', opaque=[ck.fn('IntegratorLocal', 'estimate_direct')])
    ev = r.ev
    es = one(ck, ev, 'estimate_direct', p)
    g = one(ck, ev, 'get_1d', p, traitret(ck, 'Sampler', 'get_1d'))
    lights = r.arg('self').scene.lights
    n = T.seq_len(lights.n)
    u = g.n
    idx = T.fn('min', mk('f2i', 'usize', mk('trunc', None, T.mul(n, u))), T.sub(n, num(1)))
    none = T.eq(n, num(0))
    ck.implies('every-light-can-be-chosen', p, bnot(none), es.pc, what='direct light is estimated whenever there is a light')
    ck.same('direct-light-of-one', p, list(rgb(r.ret)), [ite(none, 0, V(n) * x) for x in rgb(es.v)])
    ck.same('arguments-passed-on', p, fl(es.args[3]), fl(r.arg('i')))
    ck.same('arguments-passed-on', p, fl(es.args[4]), fl(r.arg('bsdf')))
    l = es.args[2]
    if not ck.require(l.op == 'idx' and l.a[0] is lights.n, 'every-light-can-be-chosen', p, 'the light is not one of the lights of the scene: ' + T.show(l, 4)):
        return
    got = l.a[1]
    # strip the clamp: the index is trunc(n u), clamped
    ok = uniform_index(got, n, u)
    ck.require(ok, 'every-light-can-be-chosen', p, 'the light index is not floor(n u), clamped: ' + T.show(got, 5))


def uniform_index(got, n, u):
    def core(x):
        while x.op == 'wrap':
            x = x.a[0]
        if x.op in ('min',):
            a = [core(y) for y in x.a]
            c = [y for y in a if y is True]
            o = [y for y, z in zip(x.a, a) if z is not True]
            return len(c) == 1 and all(N.Prover().prove(y, T.sub(n, num(1))) is None for y in o)
        if x.op == 'f2i':
            y = x.a[0]
            if y.op in ('trunc', 'floor'):
                y = y.a[0]
            return N.Prover().prove(y, T.mul(n, u)) is None
        if x.op == 'ite':
            # the clamp written as a case distinction
            for i, c in ((1, x.a[0]), (2, bnot(x.a[0]))):
                f, k = x.a[i], x.a[3 - i]
                if core(f) is True and N.Prover().prove(k, T.sub(n, num(1))) is None:
                    # the last one only if the number is not below it
                    return N.Prover(assume=bnot(c)).prove(bor(T.lt(T.sub(n, num(1)), f), T.eq(T.sub(n, num(1)), f), T.le(n, f)), TRUE) is None
        return False
    return core(got)


def tester(ck):
    p = ck.fn('VisibilityTester', 'unoccluded')
    r = ck.run(p, 'self', 'scene', opaque=[ck.fn('Interaction', 'spawn_ray_to'), ck.fn('Scene', 'intersect_p')])
    ev = r.ev
    s = one(ck, ev, 'spawn_ray_to', p)
    x = one(ck, ev, 'intersect_p', p)
    vt = r.arg('self')
    ck.same('visibility-between-the-points', p, fl(s.args[0]), fl(vt.p0))
    ck.same('visibility-between-the-points', p, fl(s.args[1]), fl(vt.p1))
    ck.same('visibility-between-the-points', p, fl(x.args[1]), fl(s.v))
    c = x.n if T.is_bool(x.n) else T.atom(x.n)
    ck.same('visibility-between-the-points', p, r.ret.n, bnot(c))
    p = ck.fn('Interaction', 'le')
    r = ck.run(p, 'self', 'w')
    ev = r.ev
    l = one(ck, ev, 'l', p, traitret(ck, 'Shape', 'l'))
    ck.same('emission-of-the-shape', p, fl(r.ret), fl(l.v))
    ck.same('emission-of-the-shape', p, fl(l.args[1]), fl(r.arg('self')), N.Prover(assume=r.arg('self').shape.isome()))
    ck.same('emission-of-the-shape', p, fl(l.args[2]), fl(r.arg('w')))
    # the trait's default: shapes do not emit
    d = ck.M.trait_default('Shape', 'l')
    if d is not None:
        r = ck.run(d.path, 'self', 'i', 'w')
        ck.same('shapes-do-not-emit', d.path, fl(r.ret), [num(0)] * 3)
