"""Scattering at a point: the sum of distribution functions and what the materials put into it."""
import terms as T
import norm as N
import loops as LP
import p_kd as K
from p_light import traitret
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, Vec, S, PI, sqrt, absf, vmax, vmin, ite, xyz, xy, rgb, Missing, n_, strip
from p_algebra import last
from p_light import fl, calls, Call, whole
from p_bxdf import Made, Settled, agree, sole, each, vec3, holds, finite, ZERO, REFLECTION, TRANSMISSION, SPECULAR

IDEAL = [5, 9, 17, 10, 18]


class Frame(object):
    """what the fields of a BSDF stand for, read off its constructor"""

    def __init__(self, ck):
        self.ck = ck
        r = self.new = ck.run(ck.fn('BSDF', 'new'), 'i')
        i = r.arg('i')
        gn, sn, s = xyz(i.field('n')), xyz(i.sn), xyz(i.dpdu).unit()
        t = sn.cross(s)
        self.roles = {}
        fs = ck.M.adts[r.ret.base()[1]]['v'][0]['f']
        for k in range(len(fs)):
            v = r.ret.field(k)
            if v.t[0] == 'adt' and last(v.t[1]) == 'Vec' and K.dyn(v.t, 'BxDF'):
                ck.require(T.seq_len(v.n) == num(0), 'starts-empty', r.path, 'a new one already scatters')
                self.roles['list'] = k
                continue
            if v.t[0] != 'adt' or not all(c in [f['n'] for f in ck.M.adts.get(v.t[1], {'v': [{'f': []}]})['v'][0]['f']] for c in 'xyz'):
                continue
            for name, want in (('gn', gn), ('sn', sn), ('s', s), ('t', t), ('t', -t)):
                if name not in self.roles and holds(ck.prover, xyz(v), want):
                    self.roles[name] = k
                    break
        for name, what in (('list', 'no list of distribution functions'), ('gn', 'the geometric normal is not kept'), ('sn', 'the shading normal is not kept'),
                           ('s', 'no unit tangent along dpdu'), ('t', 'no bitangent perpendicular to normal and tangent')):
            ck.require(name in self.roles, 'frame', r.path, what)
        if len(self.roles) < 5:
            raise Missing('the frame of the BSDF is not understood')

    def of(self, self_):
        o = type('F', (), {})()
        for n, k in self.roles.items():
            v = self_.field(k)
            setattr(o, n, v if n == 'list' else xyz(v))
        o.local = lambda v: Vec([v.dot(o.s), v.dot(o.t), v.dot(o.sn)])
        o.world = lambda v: o.s * v[0] + o.t * v[1] + o.sn * v[2]
        return o


def unify(n):
    """a loop's carried values pruned, everywhere"""
    for _ in range(10):
        m = {}
        for l in LP.loops_in(n):
            p = K.prune(l)
            if p is not l:
                m[l.id] = p
        if not m:
            return n
        n = LP.replace(n, m)
    return n


class Sums(object):
    """the loops of a value read as sums over the distribution functions"""

    def __init__(self, ck, rule, where, f):
        self.ck, self.rule, self.where, self.f = ck, rule, where, f
        self.size = T.seq_len(f.list.n)

    def elem(self, L):
        return K.unboxed(K.element(self.f.list, L.it))

    def loop(self, l):
        L = LP.Loop(l)
        ck = self.ck
        if L.d is None or L.kk != 1 or L.term is not L.phis[0]:
            ck.fail(self.rule, self.where, 'the loop over the distribution functions is not a sum: ' + T.show(l, 5)[:300])
            return None
        c = LP.strip(L.cont)
        r = N.Prover(assume=T.le(num(0), L.it)).prove(c, T.lt(L.it, self.size), 'goes on')
        if r is not None:
            ck.fail(self.rule, self.where, 'not all distribution functions are taken into account: ' + r.text())
            return None
        return L

    def step(self, L, want, assume, flag=None):
        """every iteration adds want(element)"""
        a = band(assume, T.le(num(0), L.it), T.lt(L.it, self.size))
        z = Settled(a)
        return z.pr.prove(z.val(L.nexts[0] if flag is None else flagged(L.nexts[0], flag)), z.val(T.add(L.phis[0], n_(want))), 'added by one of them')


def fld(n, q):
    return mk('fld', (0, q), n)


def parts(n, k):
    n = K.bare(n)
    return list(n.a) if n.op == 'adt' else [fld(n, q) for q in range(k)]


def dcall(ck, name, elem, *args):
    """the call of a method of BxDF on an element"""
    return mk('call', 'reflection::BxDF::' + name, elem, *args)


def vecnode(v):
    return mk('adt', ('vector::Vector3f', 0), *[n_(x) for x in v])


def sample_facts(u):
    return band(T.le(num(0), u[0].n), T.lt(u[0].n, num(1)), T.le(num(0), u[1].n), T.lt(u[1].n, num(1)))


def flagged(n, v):
    """flags of the elements replaced by a number"""
    m = {}
    for x in N.subterms(n):
        if x.op == 'call' and x.k.endswith('BxDF::flag'):
            m[x.id] = num(v)
    return LP.replace(n, m) if m else n


def matchcalls(pr, n, name, args):
    """calls of that method whose direction arguments equal these are written with these"""
    m = {}
    for x in N.subterms(n):
        if x.op == 'call' and x.k.endswith('BxDF::' + name) and len(x.a) == 1 + len(args):
            ok = True
            for g, w in zip(x.a[1:], args):
                g2 = parts(g, 3)
                if len(g2) != len(list(w)) or not holds(pr, g2, list(w)):
                    ok = False
                    break
            if ok:
                m[x.id] = mk('call', x.k, x.a[0], *[vecnode(w) for w in args])
    return LP.replace(n, m) if m else n


def sides(a, b):
    """same side or not, of the geometric surface"""
    for x in (1, -1):
        for y in (1, -1):
            p, q = a * x, b * y
            yield (x == y, band(T.lt(num(0), p.n), T.lt(num(0), q.n), *([T.lt(num(0), (a * b).n)] if x == y else [T.lt((a * b).n, num(0))])))


def spec_f(ck, F):
    p = ck.fn('BSDF', 'f')
    r = ck.run(p, 'self', 'wo', 'wi')
    f = F.of(r.arg('self'))
    wo, wi = xyz(r.arg('wo')), xyz(r.arg('wi'))
    lo, li = f.local(wo), f.local(wi)
    nz = bnot(T.eq(lo[2].n, num(0)))
    sm = Sums(ck, 'sum-of-values', p, f)
    for j, ch in enumerate(rgb(r.ret)):
        n = unify(ch.n)
        ck.same('along-the-surface', p, n_(Settled(T.eq(lo[2].n, num(0))).val(LP.replace(n, {l.id: mk('sym', 'sum') for l in LP.loops_in(n)}))), ZERO)
        check_values(ck, 'sum-of-values', p, f, sm, n, j, lo, [li], wo.dot(f.gn), wi.dot(f.gn), nz)


def check_values(ck, rule, p, f, sm, n, j, lo, lis, a, b, facts):
    """n is channel j of the sum of the values of all functions that scatter to that side"""
    done = False
    n = matchcalls(ck.prover, n, 'f', (lo, lis[0]))
    for same, s in sides(a, b):
        for fl_ in IDEAL:
            takes = bool(fl_ & (REFLECTION if same else TRANSMISSION))
            z = Settled(band(facts, s))
            # decide the outermost conditions, then look at the sum that is left
            m = settle(z, n)
            ls = LP.loops_in(m)
            if not ls:
                r = z.pr.prove(m, num(0), 'value')
                if r is None and not takes:
                    ck.ok(rule, p)
                    done = True
                    continue
                ck.fail(rule, p, 'the value is no sum over the distribution functions: ' + T.show(m, 5)[:300])
                return False
            if len(ls) != 1:
                ck.fail(rule, p, 'more than one sum: ' + T.show(m, 5)[:300])
                return False
            L = sm.loop(ls[0])
            if L is None:
                return False
            e = sm.elem(L)
            bad = None
            for li in lis:
                want = fld(dcall(ck, 'f', e, vecnode(lo), vecnode(li)), j) if takes else num(0)
                bad = sm.step(L, want, band(facts, s), fl_)
                if bad is None:
                    break
            if bad is not None:
                ck.fail(rule, p, '%s of a function with flag %d, directions on %s: %s' % ('value', fl_, 'the same side' if same else 'different sides', bad.text()))
                return False
            sy = mk('sym', 'sum')
            if not ck.same(rule, p, LP.replace(m, {ls[0].id: sy}), T.add(sy, L.inits[0]) if False else sy, prover=z.pr):
                return False
            if not ck.same(rule, p, L.inits[0], num(0), prover=z.pr):
                return False
            done = True
    return done


def settle(z, n):
    """outermost conditions decided, through sums and quotients"""
    if n.op == 'ite':
        g = z.bool(n.a[0])
        if g is TRUE:
            return settle(z, n.a[1])
        if g is FALSE:
            return settle(z, n.a[2])
        return T.ite(g, settle(z, n.a[1]), settle(z, n.a[2]))
    if n.op == 'loopres' or not n.a or T.is_bool(n) or n.op == 'call':
        return n
    return T.rebuild(n, [settle(z, x) for x in n.a])


def spec_pdf(ck, F):
    p = ck.fn('BSDF', 'pdf')
    r = ck.run(p, 'self', 'wo', 'wi')
    f = F.of(r.arg('self'))
    wo, wi = xyz(r.arg('wo')), xyz(r.arg('wi'))
    lo, li = f.local(wo), f.local(wi)
    sm = Sums(ck, 'mean-density', p, f)
    n = unify(r.ret.n)
    size = sm.size
    sy = mk('sym', 'sum')
    flat, none = T.eq(lo[2].n, num(0)), T.eq(size, num(0))
    cut = LP.replace(n, {l.id: sy for l in LP.loops_in(n)})
    for a, w in ((band(flat, T.lt(num(0), size)), 'along the surface'), (none, 'without distribution functions')):
        ck.same('no-density', p, Settled(a).val(cut), num(0))
    a = band(bnot(flat), T.lt(num(0), size))
    z = Settled(a)
    m = settle(z, matchcalls(ck.prover, n, 'pdf', (lo, li)))
    ls = LP.loops_in(m)
    if not ck.require(len(ls) == 1, 'mean-density', p, 'the density is no sum over the distribution functions'):
        return
    L = sm.loop(ls[0])
    if L is None:
        return
    bad = sm.step(L, dcall(ck, 'pdf', sm.elem(L), vecnode(lo), vecnode(li)), a)
    if ck.require(bad is None, 'mean-density', p, bad.text() if bad else ''):
        ck.same('mean-density', p, L.inits[0], num(0))
        ck.same('mean-density', p, S(LP.replace(m, {ls[0].id: sy})) * S(size), S(sy), prover=z.pr)


def index_ok(ck, k, u0, size):
    """the index is floor(u0 * size), possibly kept below size"""
    k = LP.strip(k)
    if k.op == 'min' and len(k.a) == 2:
        rest = [x for x in k.a if x.op == 'f2i']
        lim = [x for x in k.a if x.op != 'f2i']
        if len(rest) == 1 and len(lim) == 1 and ck.prover.prove(lim[0], T.sub(size, num(1))) is None:
            k = rest[0]
    if k.op != 'f2i':
        return None
    x = k.a[0]
    x = x.a[0] if (x.k if x.op == 'fn' else x.op) in ('floor', 'trunc') else x
    return k if ck.prover.prove(x, T.mul(u0, size)) is None else None


def spec_sample(ck, F):
    p = ck.fn('BSDF', 'sample_f')
    r = ck.run(p, 'self', 'wo', 'u')
    f = F.of(r.arg('self'))
    wo, u = xyz(r.arg('wo')), xy(r.arg('u'))
    lo = f.local(wo)
    sm = Sums(ck, 'sampled', p, f)
    size = sm.size
    c = sole(ck, r, 'sample_f', traitret(ck, 'BxDF', 'sample_f'))
    e = K.unboxed(c.args[0])
    # which one, and with what
    ck.require(e.op == 'idx' and e.a[0] is f.list.n, 'choice', p, 'not one of the distribution functions is sampled: ' + T.show(e, 4))
    k = e.a[1]
    kk = index_ok(ck, k, u[0].n, size)
    if not ck.require(kk is not None, 'choice', p, 'the distribution function is not chosen uniformly by the first sample value: index ' + T.show(k, 5)):
        return
    wl = parts(c.args[1], 3)
    ck.same('choice', p, list(wl), list(lo))
    v = [S(x) for x in parts(c.args[2], 2)]
    # the remainder of the value is used again, uniformly
    g = v[0].n
    if g.op == 'min' and len(g.a) == 2:
        g = ([x for x in g.a if x.op not in ('num', 'fconst')] or [g])[0]
    fr = T.sub(T.mul(u[0].n, size), mk('floor', None, T.mul(u[0].n, size)))
    want = [S(T.sub(T.mul(u[0].n, size), x)) for x in (k, kk, kk.a[0])]
    sub = [w for w in want if ck.prover.prove(g, w.n) is None]
    ck.require(bool(sub), 'remapped', p, 'the first sample value is not spread over [0, 1) again for the function chosen: ' + T.show(g, 5))
    ck.same('remapped', p, v[1], u[1])
    # what comes of it
    inner = c.v
    iw = list(xyz(inner.field('0')))
    iF = list(rgb(inner.field('1')))
    ipdf = inner.field('2')
    ww = f.world(Vec(iw))
    flat, none = T.eq(lo[2].n, num(0)), T.eq(size, num(0))
    some = T.lt(num(0), size)
    got = dict(w=xyz(r.ret.field('0')), f=rgb(r.ret.field('1')), pdf=unify(r.ret.field('2').n), flag=r.ret.field('3').n)
    sy = mk('sym', 'sum')
    cut = LP.replace(got['pdf'], {l.id: sy for l in LP.loops_in(got['pdf'])})
    for a in (none, band(flat, some), band(some, bnot(flat), T.eq(ipdf.n, num(0)))):
        for x in (cut,):
            ck.same('nothing-sampled', p, Settled(a).val(x), num(0))
    a = band(some, bnot(flat), bnot(T.eq(ipdf.n, num(0))), T.lt(num(0), ipdf.n))
    z = Settled(a)
    ck.same('world-direction', p, [settle(z, x.n) for x in got['w']], list(ww), prover=z.pr)
    for v_ in IDEAL:
        fg = lambda n: flagged(n, v_)
        ck.same('reported-flag', p, z.val(fg(got['flag'])), num(v_), prover=z.pr)
    # which calls of flag decide on the kind of sampling: those on the chosen function
    chosen = dcall(ck, 'flag', e)
    for many in (True, False):
        am = band(a, T.lt(num(1), size) if many else T.eq(size, num(1)))
        z = Settled(am)
        for v_ in IDEAL:
            spec = bool(v_ & SPECULAR)
            n = LP.replace(got['pdf'], {chosen.id: num(v_)})
            n = settle(z, n)
            if spec:
                ck.same('specular-density', p, T.mul(n, size), ipdf, prover=z.pr)
                for q in range(3):
                    ck.same('specular-value', p, settle(z, LP.replace(unify(got['f'][q].n), {chosen.id: num(v_)})), iF[q], prover=z.pr)
                continue
            density(ck, p, sm, n, e, k, lo, iw, ww, f, ipdf, many, am, size)
            if v_ not in (5, 10):
                continue
            for q in range(3):
                m = LP.replace(unify(got['f'][q].n), {chosen.id: num(v_)})
                check_values(ck, 'sampled-value', p, f, sm, settle(z, m), q, lo, [Vec(iw), f.local(ww)], wo.dot(f.gn), ww.dot(f.gn), am)


def density(ck, p, sm, n, e, k, lo, iw, ww, f, ipdf, many, am, size):
    """n * size = density of the chosen one + sum of those of the others"""
    z = Settled(am)
    oth = mk('sym', 'others') if many else num(0)
    m = {}
    for l in LP.loops_in(n):
        L = sm.loop(l)
        if L is None:
            return
        best = None
        for li in (Vec(iw), f.local(ww)):
            x = T.proj if False else None
            X = dcall(ck, 'pdf', sm.elem(L), vecnode(lo), vecnode(li))
            at = T.eq(L.it, k)
            bads = []
            for own in (num(0), ipdf.n, X):
                want = T.ite(at, own, X)
                nx = LP.replace(L.nexts[0], {})
                zz = Settled(band(am, T.le(num(0), L.it), T.lt(L.it, size)))
                b1 = N.Prover(assume=band(am, at)).prove(Settled(band(am, at)).val(nx), T.add(L.phis[0], own))
                b2 = N.Prover(assume=band(am, bnot(at))).prove(Settled(band(am, bnot(at))).val(nx), T.add(L.phis[0], X))
                if b1 is None and b2 is None:
                    best = own
                    break
            if best is not None:
                break
        if best is None:
            ck.fail('sampled-density', p, 'an iteration does not add the density of one distribution function for the sampled direction: ' + T.show(L.nexts[0], 7)[:400])
            return
        add = num(0) if best == num(0) else ipdf.n
        m[l.id] = T.add(T.add(oth, add), L.inits[0])
    ck.same('sampled-density', p, T.mul(LP.replace(n, m), size), T.add(oth, ipdf.n), prover=z.pr)


def spec_add(ck, F):
    p = ck.fn('BSDF', 'add')
    r = ck.run(p, 'self', 'b')
    a, o = r.arg('self'), r.out('self')
    k = F.roles['list']
    n, n0 = o.field(k), a.field(k)
    ck.same('adds-one', p, T.seq_len(n.n), T.add(T.seq_len(n0.n), num(1)))
    e = K.element(n, T.seq_len(n0.n))
    e = e.a[0] if e.op == 'adt' and e.k[0] == 'Box' else e
    ck.require(K.unboxed(e) is mk('sym', 'b'), 'adds-one', p, 'another distribution function is added: ' + T.show(e, 4))
    for j in range(len(ck.M.adts[a.base()[1]]['v'][0]['f'])):
        if j != k:
            ck.same('adds-one', p, fl(o.field(j)), fl(a.field(j)))


def C25(ck):
    ck.technique = ('Roles of the fields are read off the constructor; loops are decided as sums by their transition (what one iteration adds, for every kind of element), '
                    'and the closed forms around them by cases: side of the geometric surface, kind of the chosen function, one function or more.')
    ck.assumptions.append('The density a function returns with a sampled direction is what its pdf says for that direction (decided by C24).')
    F = Frame(ck)
    spec_add(ck, F)
    spec_f(ck, F)
    spec_pdf(ck, F)
    spec_sample(ck, F)


# ---------------------------------------------------------------- materials

class Mat(object):
    """a material made of named textures, and what it makes of an interaction"""

    def __init__(self, ck, F, adt, *names):
        self.ck, self.F = ck, F
        self.o = Made(ck, adt, *names, trait='Material')
        self.r = self.o.run('compute_scattering', ('i',))
        self.path = self.r.path
        self.tex = {}
        il = fl(self.r.arg('i'))
        for c in each(ck, self.r, 'evaluate'):
            t = K.unboxed(c.args[0])
            n = next((n for n in names if t is K.unboxed(self.o.arg(n).n)), None)
            at = K.bare(c.args[1])
            it = self.r.arg('i')
            here = fl(V(self.r.ev.expand(it.base(), at), it.base(), self.r.ev)) == il
            if ck.require(n is not None and here, 'textures-at-the-hit', self.path, 'a texture other than the material\'s, or at another point: ' + T.show(mk('tup', None, *c.args[:1]), 3)):
                self.tex.setdefault(n, []).append(c.n)
        for n in names:
            ck.require(len(self.tex.get(n, ())) >= 1, 'textures-used', self.path, 'texture `%s` is not looked at' % n)
        # the frame is that of the interaction
        for role, k in F.roles.items():
            if role != 'list':
                ck.same('frame-of-the-hit', self.path, fl(self.r.ret.field(k)), [LP.replace(x, {}) for x in fl(F.new.ret.field(k))])
        self.list = self.r.ret.field(F.roles['list'])

    def val(self, n):
        return S(self.tex[n][0])

    def col(self, n):
        return Vec([S(fld(self.tex[n][0], q)) for q in range(3)])

    def pos(self, n):
        return Vec([vmax(x, ZERO) for x in self.col(n)])

    def black(self, n):
        return band(*[T.le(x.n, num(0)) for x in self.col(n)])

    def bright(self, n):
        return [T.lt(num(0), x.n) for x in self.col(n)]

    def items(self, z):
        """the distribution functions in the list under the facts"""
        n = z.top(self.list.n)
        out = []
        for _ in range(20):
            n = z.top(K.bare(n))
            if n.op == 'arr':
                return [self.one(z, x) for x in n.a] + out
            if n.op == 'push':
                out.insert(0, self.one(z, n.a[1]))
                n = n.a[0]
                continue
            break
        raise Missing('%s: which distribution functions are added is not decided: %s' % (self.path, T.show(n, 4)[:300]))

    def one(self, z, x):
        x = K.unboxed(z.top(K.unboxed(x)))
        if x.op == 'adt':
            return mk('adt', x.k, *[self.one(z, y) if y.op in ('ite', 'adt') else y for y in x.a])
        return x

    def expect(self, rule, facts, must, may=()):
        """exactly those functions, in any order; dark ones may be left out"""
        ck, z = self.ck, Settled(facts)
        try:
            got = self.items(z)
        except Missing as e:
            ck.fail(rule, self.path, str(e))
            return
        want = [(m, True) for m in must] + [(m, False) for m in may]
        for g in got:
            j = next((j for j, (w, _) in enumerate(want) if any(self.equal(z, g, x) for x in (w if isinstance(w, list) else [w]))), None)
            if j is None:
                ck.fail(rule, self.path, 'a distribution function that does not belong there: %s; %s' % (T.show(g, 6)[:400], self.why(z, g, want)))
                return
            del want[j]
        miss = [w for w, m in want if m]
        ck.require(not miss, rule, self.path, 'a distribution function is missing: ' + (T.show(miss[0][0] if isinstance(miss[0], list) else miss[0], 5)[:300] if miss else ''))

    def why(self, z, g, want):
        for w, _ in want:
            for x in (w if isinstance(w, list) else [w]):
                if x.k == g.k:
                    for a, b in zip(leaves(g), leaves(x)):
                        r = z.pr.prove(z.val(a), z.val(b), 'a part')
                        if r is not None:
                            return r.text()[:600]
        return 'no such function is expected'

    def equal(self, z, g, w):
        if g.op != 'adt' or w.op != 'adt' or shape(g) != shape(w):
            return False
        return all(z.pr.prove(z.val(a), z.val(b)) is None for a, b in zip(leaves(g), leaves(w)))


def shape(n):
    n = K.unboxed(n)
    return (n.k, tuple(shape(x) for x in n.a)) if n.op == 'adt' else '.'


def leaves(n):
    n = K.unboxed(n)
    return [y for x in n.a for y in leaves(x)] if n.op == 'adt' else [n]


def made(ck, adt, *args):
    """the value the constructor makes of those arguments"""
    p = ck.fn(adt, 'new')
    r = ck.run(p, *['a%d' % i for i in range(len(args))], args=[colour(x) if isinstance(x, Vec) else n_(x) for x in args])
    return r.ret.n


def colour(v):
    return mk('adt', ('spectrum::Spectrum', 0), *[n_(x) for x in v])


ONE = S(1)


def rough_cases(*names):
    """smooth in every direction, or not"""
    for bits in range(2 ** len(names)):
        f = [T.lt(num(0), n.n) if bits >> j & 1 else T.eq(n.n, num(0)) for j, n in enumerate(names)]
        yield bits == 0, band(*f)


def fin(ck, m):
    inf = [x for x in N.subterms(m.list.n) if x.op in ('fconst', 'sym') and 'inf' in str(x.k)]
    return inf


def shades(m, names):
    """which of the colours are black: facts, set of bright ones"""
    if not names:
        yield TRUE, set()
        return
    for f, s in shades(m, names[1:]):
        yield band(m.black(names[0]), f), s
        for b in m.bright(names[0]):
            yield band(b, f), s | {names[0]}


def C23(ck):
    ck.technique = ('Evaluated MIR of every material on textures left opaque; the list of distribution functions is resolved by cases (black or not, smooth or not) '
                    'and compared, element by element, with what the constructors make of the required arguments.')
    ck.assumptions.append('Roughness textures are not negative. Plastic: either order of its two fixed indices is accepted.')
    F = Frame(ck)
    diel = lambda a, b: made(ck, 'FresnelDielectric', a, b)
    # matte and mirror
    m = Mat(ck, F, 'LambertianReflectionMaterial', 'kd')
    for f, s in shades(m, ['kd']):
        x = made(ck, 'LambertianReflectionBRDF', m.pos('kd'))
        m.expect('matte', f, [x] if s else [], [] if s else [x])
    m = Mat(ck, F, 'MirrorMaterial', 'kr')
    for f, s in shades(m, ['kr']):
        x = made(ck, 'SpecularReflectionBRDF', m.pos('kr'), made(ck, 'FresnelNoOp'))
        m.expect('mirror', f, [x] if s else [], [] if s else [x])
    # glass
    m = Mat(ck, F, 'GlassMaterial', 'kr', 'kt', 'eta', 'ru', 'rv')
    eta = m.val('eta')
    d = made(ck, 'MicrofacetDistribution', m.val('ru'), m.val('rv'))
    for smooth, rf in rough_cases(m.val('ru'), m.val('rv')):
        if smooth:
            r = made(ck, 'SpecularReflectionBRDF', m.pos('kr'), diel(ONE, eta))
            t = made(ck, 'SpecularTransmissionBTDF', m.pos('kt'), ONE, eta)
        else:
            r = made(ck, 'MicrofacetReflectionBRDF', m.pos('kr'), d, diel(ONE, eta))
            t = made(ck, 'MicrofacetTransmissionBTDF', m.pos('kt'), ONE, eta, d)
        for f, s in shades(m, ['kr', 'kt']):
            m.expect('glass', band(rf, f), [x for n, x in (('kr', r), ('kt', t)) if n in s], [x for n, x in (('kr', r), ('kt', t)) if n not in s])
    # metal
    m = Mat(ck, F, 'MetalMaterial', 'r', 'eta', 'k', 'ru', 'rv')
    fr = made(ck, 'FresnelConductor', Vec([ONE] * 3), m.col('eta'), m.col('k'))
    d = made(ck, 'MicrofacetDistribution', m.val('ru'), m.val('rv'))
    for smooth, rf in rough_cases(m.val('ru'), m.val('rv')):
        x = made(ck, 'SpecularReflectionBRDF', m.pos('r'), fr) if smooth else made(ck, 'MicrofacetReflectionBRDF', m.pos('r'), d, fr)
        for f, s in shades(m, ['r']):
            m.expect('metal', band(rf, f), [x] if s else [], [] if s else [x])
    # plastic
    m = Mat(ck, F, 'PlasticMaterial', 'kd', 'ks', 'ru')
    idx = S(T.fconst('1.5'))
    d = made(ck, 'MicrofacetDistribution', m.val('ru'), m.val('ru'))
    for smooth, rf in rough_cases(m.val('ru')):
        l = made(ck, 'LambertianReflectionBRDF', m.pos('kd'))
        g = [made(ck, 'SpecularReflectionBRDF', m.pos('ks'), e) if smooth else made(ck, 'MicrofacetReflectionBRDF', m.pos('ks'), d, e) for e in (diel(idx, ONE), diel(ONE, idx))]
        for f, s in shades(m, ['kd', 'ks']):
            m.expect('plastic', band(rf, f), [x for n, x in (('kd', l), ('ks', g)) if n in s], [x for n, x in (('kd', l), ('ks', g)) if n not in s])
    n = [i for i in ck.M.impls if last(i.get('trait') or '') == 'Material' and 'test' not in str(i['selft'])]
    ck.count('materials', len(n))
    ck.require(len(n) == 5, 'all-covered', 'material::Material', '%d implementations, 5 are known' % len(n))
    delegation(ck)


def delegation(ck):
    """an interaction scatters, and emits, as the shape that was hit says; a shape scatters as its material says"""
    rule = 'scattering-of-the-hit'
    p = ck.fn('Interaction', 'compute_scattering')
    r = ck.run(p, 'self')
    i = r.arg('self')
    result_is(ck, rule, r, i.shape.some().n, i, 'compute_scattering')
    r = ck.run(ck.fn('Interaction', 'le'), 'self', 'w')
    i = r.arg('self')
    c = each(ck, r, 'l')
    ok = len(c) == 1 and K.unboxed(c[0].args[0]) is K.unboxed(i.shape.some().n) and same_leaves(r, c[0].args[1], i) and same_leaves(r, c[0].args[2], r.arg('w'))
    ck.require(ok and fl(r.ret) == fl(V(r.ev.expand(r.rett, c[0].n), r.rett, r.ev)), 'emission-of-the-hit', r.path, 'not the light the shape that was hit emits at this interaction in the given direction')
    own = 0
    for im in shapes(ck):
        ms = im['im']
        if 'compute_scattering' in ms:
            own += 1
            r = ck.run(ms['compute_scattering'], 'self', 'i')
            result_is(ck, rule, r, r.arg('self').n, r.arg('i'), 'compute_scattering')
        r = ck.run(ms['material'], 'self')
        a = r.arg('self')
        n = K.unboxed(r.ret.n)
        f = ck.M.adts[a.base()[1]]['v'][0]['f']
        ok = any(n is K.unboxed(a.field(k).n) for k in range(len(f)) if K.dyn(a.field(k).t, 'Material'))
        ok = ok or n.op == 'call' and n.k.endswith('Shape::material') and any(K.unboxed(n.a[0]) is K.unboxed(a.field(k).n) for k in range(len(f)) if K.dyn(a.field(k).t, 'Shape'))
        ck.require(ok, 'own-material', r.path, 'not the material of the shape: ' + T.show(n, 4))
        # and the material is the one it was made with
        if n.op != 'call':
            new = ck.M.method(last(a.base()[1]), 'new')
            for b in new:
                q = ck.run(b.path, *['a%d' % k for k in range(b.argc)])
                k = next(k for k in range(len(f)) if K.dyn(a.field(k).t, 'Material'))
                m = [j for j in range(b.argc) if K.dyn(b.locals[j + 1], 'Material')]
                ck.require(len(m) == 1 and K.unboxed(q.ret.field(k).n) is K.unboxed(q.arg('a%d' % m[0]).n), 'own-material', b.path, 'the material given is not kept')
    ck.count('shapes', len(shapes(ck)))
    r = ck.run(ck.default('Shape', 'compute_scattering'), 'self', 'i')
    result_is(ck, rule, r, r.arg('self').n, r.arg('i'), 'compute_scattering')


def shapes(ck):
    return [i for i in ck.M.impls if last(i.get('trait') or '') == 'Shape' and 'test' not in str(i['selft'])]


def same_leaves(r, n, v):
    t = v.base()
    n = K.bare(n)
    return fl(V(r.ev.expand(t, n), t, r.ev)) == fl(v)


def result_is(ck, rule, r, sh, i, what):
    """the result is that of the shape, or of its material, for this interaction"""
    cs = each(ck, r, what)
    ok = len(cs) == 1 and same_leaves(r, cs[0].args[1], i)
    if ok:
        w = K.unboxed(cs[0].args[0])
        ok = w is K.unboxed(sh) or w.op == 'call' and w.k.endswith('Shape::material') and K.unboxed(w.a[0]) is K.unboxed(sh)
        ok = ok and fl(r.ret) == fl(V(r.ev.expand(r.rett, cs[0].n), r.rett, r.ev))
    ck.require(ok, rule, r.path, 'the material of the shape that was hit is not asked for the scattering at this interaction')
