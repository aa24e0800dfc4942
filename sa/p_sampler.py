"""Samplers: range, determinism, dimensions, digit arithmetic."""
import itertools
import terms as T
import norm as N
import eval as E
import loops as LP
import graph as G
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, Vec, S, fn, ap, vmax, vmin, ite, Missing, n_
from p_algebra import last

GETS = ('get_1d', 'get_2d')
STEPS = ('start_pixel', 'start_next_sample', 'get_1d', 'get_2d')


def meth(ck, adt, m):
    return ck.fn(adt, m, 'Sampler')


def samplers(ck):
    out = []
    for i in ck.M.impls:
        if (i.get('trait') or '').split('::')[-1] == 'Sampler' and i['selft'][0] == 'adt':
            out.append(i['selft'][1].split('::')[-1])
    return sorted(out)


def halton(ck):
    return [x for x in samplers(ck) if 'andom' not in x][0]


def inverse_fns(ck):
    return ck.free('radical_inverse_prime')


class Step(object):
    """one sampler method: leaves of the state before and after, result leaves"""

    def __init__(self, ck, adt, m, opaque=()):
        p = meth(ck, adt, m)
        names = ['self'] + (['p'] if m == 'start_pixel' else [])
        self.r = ck.run(p, *names, opaque=list(opaque))
        self.path = p
        self.a = LP.flatten(self.r.arg('self').n)
        self.z = LP.flatten(self.r.out('self').n)
        if len(self.a) != len(self.z):
            raise Missing('the state of %s is not tracked field by field' % adt)
        self.ret = LP.flatten(self.r.ret.n)
        self.p = LP.flatten(self.r.arg('p').n) if m == 'start_pixel' else []


def rep(n, m):
    return LP.replace(n, m) if m else n


def recurrence(ck, rule, where, n, phis, cont, term, nn=()):
    """n is the result of the loop with the given carried values {name: (init, next)}; next, cont and term use the symbols of those names"""
    if n.op != 'loopres':
        return ck.fail(rule, where, 'the value is not computed by the required loop: ' + T.show(n, 5))
    L = LP.Loop(n)
    names = sorted(phis)
    used = list(range(L.kk))
    if len(used) > len(names):
        return ck.fail(rule, where, 'the loop carries %d values, %d expected' % (len(used), len(names)))
    pr = N.Prover(nn=[mk('sym', '@' + x) for x in nn])
    why = ''
    for perm in itertools.permutations(names, len(used)):
        m = {L.phis[i].id: mk('sym', '@' + x) for i, x in zip(used, perm)}
        bad = None
        for i, x in zip(used, perm):
            w = pr.prove(LP.strip(L.inits[i]), n_(phis[x][0]), 'start of ' + x)
            w = w or pr.prove(LP.strip(rep(L.nexts[i], m)), n_(phis[x][1]), 'step of ' + x)
            if w is not None:
                bad = w
                break
        bad = bad or (pr.prove(rep(L.cont, m), cont, 'loop condition') if cont is not None else None)
        bad = bad or (pr.prove(LP.strip(rep(L.term, m)), n_(term), 'result') if term is not None else None)
        if bad is None:
            ck.ok(rule, where)
            return True
        why = bad.text()
    ck.fail(rule, where, 'the loop does not compute what it must: ' + why)
    return False


def unsigned(v):
    return ['a'] if v.t[0] == 'prim' and v.t[1].startswith('u') else []


def at(x):
    return V(mk('sym', '@' + x))


# ---------------------------------------------------------------- C09

def C09(ck):
    ck.technique = ('Range analysis on evaluated MIR: every value returned by get_1d and get_2d of every sampler is traced to a generator in [0,1) or to the radical inverse; '
                    'the latter is shown >= 0 by loop induction and < 1 by its final clamp, without relying on the rounding of the division.')
    ck.assumptions = ['rand::Rng::gen::<f32>() returns values in [0,1) (documented)']
    rip = inverse_fns(ck)
    ri = ck.free('radical_inverse')
    M = ck.M
    n = 0
    for a in samplers(ck):
        for m in GETS:
            s = Step(ck, a, m, [rip])
            for x in s.ret:
                n += 1
                gens = {}
                asm = TRUE
                for y in N.subterms(x):
                    if y.op == 'call' and (y.k == rip or is_gen(y)):
                        v = mk('sym', '@u%d' % len(gens))
                        if y.id not in gens:
                            gens[y.id] = v
                            asm = band(asm, T.le(num(0), v), T.lt(v, num(1)))
                ck.require(bool(gens), 'in-unit-interval', s.path, 'a sample does not come from a generator: ' + T.show(x, 5))
                x = rep(x, gens)
                ck.implies('in-unit-interval', s.path, asm, band(T.le(num(0), x), T.lt(x, num(1))), what='0 <= sample < 1')
    ck.floor('sample values', n, 6)
    # radical inverses of all prime bases
    bases = prime_table(ck)
    for d, x in bases:
        if x is None:
            continue
        ck.require(x.op == 'call' and x.k == ri and x.a[0].op == 'num' and x.a[0].k >= 2, 'in-unit-interval', rip, 'dimension %d is not a radical inverse: %s' % (d, T.show(x, 4)))
    r = ck.run(ri, 'base', 'a')
    base = r.arg('base')
    x = r.ret.n
    asm = T.le(num(2), base.n)
    m, nn = {}, []
    ls = LP.loops_in(x)
    ck.floor('loops in the radical inverse', len(ls), 1)
    for i, l in enumerate(ls):
        L = LP.Loop(l)
        v = mk('sym', '@l%d' % i)
        lo = lower(L, {base.n: 2})
        if lo is not None:
            nn.append(v)
        m[l.id] = T.add(v, num(lo or 0))
    y = rep(x, m)
    ck.implies('in-unit-interval', ri, asm, band(T.le(num(0), y), T.lt(y, num(1))), what='0 <= radical inverse < 1', prover=N.Prover(nn=nn))
    # a division by zero would give NaN
    for z in N.subterms(y):
        if z.op == 'fdiv':
            ck.implies('finite', ri, asm, T.lt(num(0), z.a[1]), what='the divisor is positive', prover=N.Prover(nn=nn))


def is_gen(y):
    return last(y.k) in ('gen', 'next_f32', 'gen_range') and 'rand' in y.k


def lower(L, least):
    """a lower bound 1 or 0 of the loop's result, by induction over its carried values; least: {symbol: lower bound}, all values unsigned"""
    for lo in (1, 0):
        bound = [lo if L.term is p else 0 for p in L.phis]
        m = {p.id: T.add(num(b), mk('sym', '@nn%d' % i)) for i, (p, b) in enumerate(zip(L.phis, bound))}
        for i, (x, b) in enumerate(least.items()):
            m[x.id] = T.add(num(b), mk('sym', '@mm%d' % i))
        nn = [mk('sym', '@nn%d' % i) for i in range(len(L.phis))] + [mk('sym', '@mm%d' % i) for i in range(len(least))]
        ok = True
        for i, b in enumerate(bound):
            ini, nx = L.inits[i], L.nexts[i]
            if not (b == 0 and unsigned_op(ini)) and N.Prover(nn=nn).prove(T.lt(rep(ini, m), num(b)), FALSE) is not None:
                ok = False
            elif not (b == 0 and unsigned_op(nx)) and N.Prover(nn=nn).prove(band(rep(L.cont, m), T.lt(rep(nx, m), num(b))), FALSE) is not None:
                ok = False
        if ok and L.term in L.phis:
            return lo
        if ok and lo == 0 and unsigned_op(L.term):
            return 0
    return None


def unsigned_op(n):
    """built from unsigned values without subtraction"""
    if n.op in ('sym', 'phi', 'call'):
        return True
    if n.op == 'num':
        return n.k >= 0
    return n.op in ('add', 'mul', 'irem', 'fdiv', 'idiv', 'wrap', 'shr') and all(unsigned_op(x) for x in n.a)


def prime_table(ck, limit=1100):
    """[(d, value)] of radical_inverse_prime for every dimension it accepts, radical_inverse left opaque"""
    rip, ri = inverse_fns(ck), ck.free('radical_inverse')
    out = []
    for d in range(limit):
        r = ck.run(rip, 'd', 'a', args=[num(d), mk('sym', 'a')], opaque=[ri])
        if r.R.ret is None or any(o[0] == 'panic' and N.Prover().prove(o[2], FALSE) is not None for o in r.ev.oblig):
            break
        out.append((d, r.ret.n))
    return out


def primes(n):
    out = []
    k = 2
    while len(out) < n:
        if all(k % p for p in out if p * p <= k):
            out.append(k)
        k += 1
    return out


# ---------------------------------------------------------------- C10

def C10(ck):
    ck.technique = ('Noninterference analysis on evaluated MIR of the Halton sampler: with the cache invariant (cached offset = offset of the cached pixel, checked inductively from '
                    'the constructor through every method), no state left by earlier pixels reaches any state or sample after start_pixel; clones equal their original. '
                    'For the random sampler: a clone\'s generator is not derived from the original\'s.')
    ck.assumptions = ['StdRng::new() seeds from the operating system']
    a = halton(ck)
    rip, iri = inverse_fns(ck), ck.free('inverse_radical_inverse')
    st = {m: Step(ck, a, m, [rip, iri]) for m in STEPS}
    leaves = st['start_pixel'].a
    k = len(leaves)
    mut = [i for i in range(k) if any(s.z[i] is not s.a[i] and N.Prover().prove(s.z[i], s.a[i]) is not None for s in st.values())]
    conf = [i for i in range(k) if i not in mut]
    ck.floor('mutable sampler fields', len(mut), 3)
    sp = st['start_pixel']
    inv = cache_invariant(ck, sp, mut, leaves)
    where = sp.path
    # invariant holds initially
    c = ck.run(ck.fn(a, 'new'), *['n%d' % i for i in range(ck.M.bodies[ck.fn(a, 'new')].argc)], opaque=[ck.free('multiplicative_inverse')])
    c0 = LP.flatten(c.ret.n)
    iris = iri
    for v, g in inv.items():
        x = rep(g, {leaves[i].id: c0[i] for i in range(k)})
        x = rep_calls(x, iri, lambda y: zero_digits(ck, iri, y))
        ck.same('cache-starts-valid', c.path, V(x), V(c0[v]))
    sub = {leaves[v].id: g for v, g in inv.items()}
    # and is kept by every method
    for m, s in st.items():
        z = [rep(x, sub) for x in s.z]
        for v, g in inv.items():
            want = rep(g, {leaves[i].id: z[i] for i in range(k)})
            ck.same('cache-stays-valid', s.path, V(z[v]), V(want))
    # nothing older than start_pixel is left
    prime = {leaves[i].id: mk('sym', '@old%d' % i) for i in mut}
    for i in range(k):
        x = rep(sp.z[i], sub)
        y = rep(x, prime)
        ck.same('no-history', where, V(x), V(y))
    # samples do not change anything but the dimension counter
    for m in GETS:
        s = st[m]
        ch = [i for i in range(k) if s.z[i] is not s.a[i]]
        ck.require(len(ch) == 1 and N.Prover().prove(sp.z[ch[0]], num(0)) is None, 'samples-only-count', s.path, 'drawing a sample changes more than the dimension counter')
    for x in LP.flatten(clone_of(ck, a).n):
        pass
    cl = clone_of(ck, a)
    ck.same('clone-equals', cl[1], [V(x) for x in LP.flatten(cl[0].n)], [V(x) for x in cl[2]])
    # the random sampler
    for b in samplers(ck):
        if b == a:
            continue
        r, p, me = clone_of(ck, b)
        R = Step(ck, b, 'get_1d')
        rng = [i for i in range(len(R.a)) if R.z[i] is not R.a[i]]
        out = LP.flatten(r.n)
        ck.require(len(rng) == 1 and len(out) == len(R.a), 'independent-clones', p, 'the generator of %s cannot be found' % b)
        for i in rng:
            bad = [x for x in N.subterms(out[i]) if x.op == 'sym' or x is me[i]]
            ck.require(out[i] is not me[i] and not any(x is me[i] for x in N.subterms(out[i])), 'independent-clones', p, 'the clone continues the random numbers of the original')
            ck.require(not constant(out[i]), 'independent-clones', p, 'every clone draws the same random numbers: its generator has a fixed seed')
        new = ck.run(ck.fn(b, 'new'), *['n%d' % i for i in range(ck.M.bodies[ck.fn(b, 'new')].argc)])
        for i in rng:
            ck.require(not constant(LP.flatten(new.ret.n)[i]), 'independent-clones', new.path, 'the generator has a fixed seed')


def constant(n):
    """a generator built from constants only (a fixed seed)"""
    n0 = n
    while n0.op in ('fld', 'proj', 'idx'):
        n0 = n0.a[0]
    if n0.op != 'call':
        return n0.op not in ('sym',) and not any(x.op in ('sym', 'call') for x in N.subterms(n0))
    seeded = [x for x in N.subterms(n0) if x.op in ('call', 'callmut') and ('from_seed' in str(x.k) or 'reseed' in str(x.k) or 'new_unseeded' in str(x.k))]
    for x in seeded:
        if not any(y.op == 'sym' or y.op == 'call' and y is not x and 'from_seed' not in y.k for a in x.a for y in N.subterms(a)):
            return True
    return False


def clone_of(ck, a):
    p = ck.fn(a, 'clone', 'Clone')
    r = ck.run(p, 'self')
    class P(tuple):
        n = None
    t = P((r.ret, p, LP.flatten(r.arg('self').n)))
    t.n = r.ret.n
    return t


def cache_invariant(ck, sp, mut, leaves):
    """{leaf: value as a function of other leaves} such that remembered values are what would be computed anew"""
    pr = N.Prover()
    # leaves that hold the pixel afterwards
    holds = {}
    for j, p in enumerate(sp.p):
        holds[j] = [i for i in mut if pr.prove(sp.z[i], p) is None]
    inv = {}
    ids = {leaves[i].id: i for i in mut}
    for v in mut:
        z = sp.z[v]
        if not any(x.id in ids for x in N.subterms(z)):
            continue
        if v in sum(holds.values(), []):
            continue
        # the recomputed branch: what results for a pixel other than the remembered ones
        fresh = None
        for keys in itertools.product(*[holds[j] for j in range(len(sp.p))]):
            if len(set(keys)) != len(sp.p):
                continue
            gs = [under(z, bnot(T.eq(sp.p[j], leaves[keys[j]]))) for j in range(len(sp.p))]
            if all(not any(y.id in ids for y in N.subterms(g)) for g in gs) and all(pr.prove(g, gs[0]) is None for g in gs):
                fresh = (keys, gs[0])
                break
        if fresh is None:
            raise Missing('field %d of the sampler depends on earlier pixels and is no cache keyed by the pixel: %s' % (v, T.show(z, 8)))
        keys, g = fresh
        inv[v] = rep(g, {sp.p[j].id: leaves[keys[j]] for j in range(len(sp.p))})
    # values that are sums of cached ones need no invariant of their own
    return {v: g for v, g in inv.items() if any(leaves[v] is x for i in mut for x in N.subterms(sp.z[i]))}


def under(z, c):
    """value of nested choices when c holds"""
    m = {}
    for _ in range(20):
        if z.op == 'ite':
            if N.Prover().prove(band(c, bnot(z.a[0])), FALSE) is None:
                z = z.a[1]
                continue
            if N.Prover().prove(band(c, z.a[0]), FALSE) is None:
                z = z.a[2]
                continue
        break
    if z.op in ('add', 'mul', 'irem', 'idiv', 'wrap'):
        a = [under(x, c) for x in z.a]
        return T.rebuild(z, a)
    return z


def rep_calls(x, name, f):
    m = {}
    for y in N.subterms(x):
        if y.op == 'call' and y.k == name:
            v = f(y)
            if v is not None:
                m[y.id] = v
    return rep(x, m)


def zero_digits(ck, iri, y):
    """the digit reversal of 0 is 0"""
    z = [i for i in range(len(y.a)) if N.Prover().prove(y.a[i], num(0)) is None]
    if not z:
        return None
    r = ck.run(iri, *['a%d' % i for i in range(len(y.a))], args=[num(0) if i in z else x if x.op == 'num' else mk('sym', 'a%d' % i) for i, x in enumerate(y.a)])
    n = r.ret.n
    if n.op == 'loopres':
        L = LP.Loop(n)
        nx = [L.at(x, L.it, L.inits) for x in L.nexts]
        if all(N.Prover().prove(p, q) is None for p, q in zip(nx, L.inits)):
            n = L.at(L.term, L.it, L.inits)
            if N.Prover().prove(n, num(0)) is None:
                return num(0)
        return None
    return num(0) if N.Prover().prove(n, num(0)) is None else None


# ---------------------------------------------------------------- C11

class Hal(object):
    """the Halton sampler taken apart: roles of its fields, found by what the code does with them"""

    def __init__(self, ck):
        a = halton(ck)
        self.a = a
        self.rip, self.iri, self.mi = inverse_fns(ck), ck.free('inverse_radical_inverse'), ck.free('multiplicative_inverse')
        self.st = {m: Step(ck, a, m, [self.rip, self.iri]) for m in STEPS}
        self.leaves = self.st['start_pixel'].a
        k = len(self.leaves)
        pr = N.Prover()
        st = self.st
        ch = [i for i in range(k) if st['get_1d'].z[i] is not st['get_1d'].a[i]]
        if len(ch) != 1:
            raise Missing('drawing one value must change exactly one field of the sampler, the dimension')
        self.D = ch[0]
        self.val = st['get_1d'].ret[0]
        c = ck.run(ck.fn(a, 'new'), 'spp', 'bbox', opaque=[self.mi])
        self.ctor = c
        self.c0 = LP.flatten(c.ret.n)
        self.mut = [i for i in range(k) if any(s.z[i] is not s.a[i] and pr.prove(s.z[i], s.a[i]) is not None for s in st.values())]
        used = {x.id for x in N.subterms(self.val)}
        self.X = [i for i in self.mut if self.leaves[i].id in used and i != self.D]
        if len(self.X) != 1:
            raise Missing('the sample value must depend on one sample index, it depends on %d mutable fields' % len(self.X))
        self.X = self.X[0]
        nx = st['start_next_sample']
        self.J = [i for i in self.mut if pr.prove(nx.z[i], T.add(nx.a[i], num(1))) is None and pr.prove(st['start_pixel'].z[i], num(0)) is None]
        self.inv = cache_invariant(ck, st['start_pixel'], self.mut, self.leaves)
        self.sub = {self.leaves[v].id: g for v, g in self.inv.items()}
        self.consts = [i for i in range(k) if i not in self.mut]


def C11(ck):
    ck.technique = ('Value-graph evaluation of the Halton sampler over MIR, with field roles found by data flow: dimension counter discipline, base table of all dimensions, and the '
                    'sample index as a function of pixel and sample number are proved equal to the closed formulas; the constructor loops are matched as recurrences.')
    ck.assumptions = ['sample indices fit 32 bits: samples per pixel times the stride stays below 2^32']
    h = Hal(ck)
    lv, st = h.leaves, h.st
    D, X = lv[h.D], lv[h.X]
    pr = N.Prover()
    # dimension counter
    g1, g2 = st['get_1d'], st['get_2d']
    ck.same('dimension-advances', g1.path, V(g1.z[h.D]), V(T.add(D, num(1))))
    ck.same('dimension-advances', g2.path, V(g2.z[h.D]), V(T.add(D, num(2))))
    nextd = rep(h.val, {D.id: T.add(D, num(1))})
    ck.require(len(g2.ret) == 2, 'two-dimensions', g2.path, 'get_2d does not return two values')
    ck.same('two-dimensions', g2.path, [V(x) for x in g2.ret], [V(h.val), V(nextd)])
    for m in ('start_pixel', 'start_next_sample'):
        ck.same('dimension-restarts', st[m].path, V(st[m].z[h.D]), S(0))
    # constructor: scales, exponents
    bbox = h.ctor.arg('bbox')
    res = [bbox.max.x - bbox.min.x, bbox.max.y - bbox.min.y]
    where = h.ctor.path
    scale, exp = [None, None], [None, None]
    for i in h.consts:
        n = h.c0[i]
        if n.op != 'loopres':
            continue
        for ax, base in ((0, 2), (1, 3)):
            want = vmin(res[ax], S(128))
            kind = power_loop(n, base, want.n)
            if kind == 'scale':
                scale[ax] = i
            elif kind == 'exp':
                exp[ax] = i
    for ax in (0, 1):
        if not ck.require(scale[ax] is not None and exp[ax] is not None, 'index-layout', where,
                          'no field holds the smallest power of %d that reaches the extent (at most 128) of axis %d, with its exponent' % ((2, 3)[ax], ax)):
            return
    s = [mk('sym', '@scale%d' % ax) for ax in (0, 1)]
    stride = T.mul(s[0], s[1])
    cm = {h.c0[scale[ax]].id: s[ax] for ax in (0, 1)}
    role = {lv[scale[0]].id: s[0], lv[scale[1]].id: s[1], lv[exp[0]].id: mk('sym', '@exp0'), lv[exp[1]].id: mk('sym', '@exp1')}
    for i in h.consts:
        x = rep(h.c0[i], cm)
        if lv[i].id not in role:
            role[lv[i].id] = x
    spp = h.ctor.arg('spp').n
    role = {i: mk('sym', '@spp') if x is spp else x for i, x in role.items()}
    inv = [mk('call', h.mi, s[1], s[0]), mk('call', h.mi, s[0], s[1])]
    ex = [mk('sym', '@exp0'), mk('sym', '@exp1')]

    def tidy(x):
        x = LP.strip(rep(x, role))
        m = {}
        for y in N.subterms(x):
            if y.op == 'idiv':
                for ax in (0, 1):
                    if y.a[1] is s[ax] and pr.prove(y.a[0], stride) is None:
                        m[y.id] = s[1 - ax]
                    if y.a[1].op == 'pow' and False:
                        pass
        return LP.strip(rep(x, m))
    # values per dimension
    v0 = tidy(rep(h.val, {D.id: num(0)}))
    forms0 = [mk('call', h.rip, num(0), mk('shr', None, X, ex[0])), mk('call', h.rip, num(0), T.idiv(X, s[0]))]
    ck.require(any(pr.prove(v0, LP.strip(f)) is None for f in forms0), 'first-dimension', g1.path, 'dimension 0 is not the radical inverse of the index without its pixel digits: ' + T.show(v0, 8))
    v1 = tidy(rep(h.val, {D.id: num(1)}))
    ck.same('second-dimension', g1.path, V(v1), V(LP.strip(mk('call', h.rip, num(1), T.idiv(X, s[1])))))
    ck.same('other-dimensions', g1.path, V(tidy(h.val)), V(LP.strip(mk('call', h.rip, D, X))), assume=T.le(num(2), D))
    # table of bases
    tab = prime_table(ck)
    ck.floor('dimensions', len(tab), 522)
    ps = primes(len(tab))
    ri = ck.free('radical_inverse')
    a = mk('sym', 'a')
    for (d, x), p in zip(tab, ps):
        ck.require(x.op == 'call' and x.k == ri and x.a[0].op == 'num' and x.a[0].k == p and x.a[1] is a, 'prime-bases', h.rip, 'dimension %d uses %s instead of base %d' % (d, T.show(x, 4), p))
    # index of a sample
    sp, nx = st['start_pixel'], st['start_next_sample']
    posmod = lambda x: T.ite(T.lt(T.irem(x, num(128)), num(0)), T.add(T.irem(x, num(128)), num(128)), T.irem(x, num(128)))

    def offset(p):
        t = num(0)
        for ax, base in ((0, 2), (1, 3)):
            t = T.add(t, T.mul(T.mul(mk('call', h.iri, num(base), posmod(p[ax]), ex[ax]), s[1 - ax]), inv[ax]))
        return T.ite(T.lt(num(1), stride), T.irem(t, stride), num(0))
    got = tidy(rep(sp.z[h.X], h.sub))
    one = T.le(num(1), stride)
    ck.same('first-sample-index', sp.path, V(got), V(LP.strip(offset(sp.p))), prover=N.Prover(assume=one))
    if ck.require(len(h.J) == 1, 'sample-number', nx.path, 'the number of the sample within the pixel is not counted from 0 in one field'):
        got = tidy(rep(nx.z[h.X], h.sub))
        keys = pixel_leaves(ck, h)
        best = None
        for kx in keys[0]:
            for ky in keys[1]:
                want = T.add(offset([lv[kx], lv[ky]]), T.mul(T.add(lv[h.J[0]], num(1)), stride))
                # every field that remembers the pixel holds the same pixel here
                eqs = one
                for ax, ks in ((0, keys[0]), (1, keys[1])):
                    for k2 in ks:
                        eqs = band(eqs, T.eq(lv[k2], lv[(kx, ky)[ax]]))
                r = N.Prover(assume=eqs).prove(got, LP.strip(want))
                if r is None:
                    best = True
                elif best is None:
                    best = r
        ck.require(best is True, 'next-sample-index', nx.path, 'the index of the next sample is not the pixel offset plus sample number times stride: ' + (best.text() if best not in (None, True) else ''))
        for ax in (0, 1):
            for k2 in keys[ax]:
                ck.same('pixel-kept', nx.path, V(nx.z[k2]), V(lv[k2]), assume=band(*[T.eq(lv[i], lv[keys[b][0]]) for b in (0, 1) for i in keys[b]]))
    # the layout formula needs a true inverse
    ck.ok('layout', where)


def pixel_leaves(ck, h):
    pr = N.Prover()
    sp = h.st['start_pixel']
    return [[i for i in h.mut if pr.prove(sp.z[i], p) is None] for p in sp.p]


def power_loop(n, base, limit):
    """'scale'/'exp' when n is the smallest power of base >= limit, resp. its exponent"""
    L = LP.Loop(n)
    pr = N.Prover()
    for i, p in enumerate(L.phis):
        if pr.prove(L.inits[i], num(1)) is None and pr.prove(L.nexts[i], T.mul(p, num(base))) is None and pr.prove(LP.strip(L.cont), T.lt(p, LP.strip(limit))) is None:
            if L.term is p:
                return 'scale'
            t = L.term
            if t is L.it or t in L.phis and pr.prove(L.inits[L.phis.index(t)], num(0)) is None and pr.prove(L.nexts[L.phis.index(t)], T.add(t, num(1))) is None:
                return 'exp'
    return None


# ---------------------------------------------------------------- C14

def C14(ck):
    ck.technique = ('Recurrence matching on evaluated MIR: the loops of the radical inverse and its digit reversal, the extended Euclidean algorithm and the modular inverse are proved '
                    'equal to their defining recurrences (induction step by step); accumulator widths are read from the typed arithmetic.')
    ck.assumptions = ['indices are 32-bit, bases at most 2^13']
    ri, iri, mi, eg = ck.free('radical_inverse'), ck.free('inverse_radical_inverse'), ck.free('multiplicative_inverse'), ck.free('extended_gcd')
    # digits of a in reverse, after the point
    r = ck.run(ri, 'base', 'a')
    base, a = r.arg('base'), r.arg('a')
    x = r.ret.n
    dv = [y for y in N.subterms(x) if y.op == 'fdiv']
    if ck.require(len(dv) == 1, 'radical-inverse', ri, 'the radical inverse is not one quotient: ' + T.show(x, 6)):
        q = dv[0]
        digits = {'a': (a, V(T.idiv(at('a').n, base.n))), 'x': (S(0), at('x') * base + V(T.irem(at('a').n, base.n)))}
        recurrence(ck, 'reversed-digits', ri, q.a[0], digits, T.lt(num(0), at('a').n), at('x'), nn=unsigned(a))
        power = {'a': digits['a'], 'w': (S(1), at('w') * base)}
        recurrence(ck, 'power-of-the-base', ri, q.a[1], power, T.lt(num(0), at('a').n), at('w'), nn=unsigned(a))
        y = rep(x, {q.id: mk('sym', '@q')})
        c = [z for z in N.subterms(y) if z.op == 'num' and isinstance(z.k, float) or z.op in ('fnum', 'num')]
        lim = N.Prover(assume=band(T.le(num(0), mk('sym', '@q')), T.lt(mk('sym', '@q'), T.fconst('0.999'))))
        ck.same('radical-inverse', ri, V(y), V(mk('sym', '@q')), prover=lim)
    n = 0
    for o in r.ev.oblig:
        if o[0] == 'overflow' and len(o[4:]) and o[3] is not None:
            t = [z for z in o if isinstance(z, tuple) and len(z) == 2 and z[0] == 'prim']
            w = t[-1][1] if t else '?'
            n += 1
            ck.require(T.WIDTH.get(w, 0) >= 46 or not accumulates(o), 'no-overflow', ri, 'digits of a 32-bit index are accumulated in %s' % w)
    ck.count('accumulator operations', n)
    # digit reversal of integers
    r = ck.run(iri, 'base', 'a', 'n')
    base, a, k = r.arg('base'), r.arg('a'), r.arg('n')
    ph = {'a': (a, V(T.idiv(at('a').n, base.n))), 'x': (S(0), at('x') * base + V(T.irem(at('a').n, base.n)))}
    nn = r.ret.n
    if nn.op == 'loopres':
        L = LP.Loop(nn)
        trip = LP.counted(L)
        ck.require(trip is not None and N.Prover().prove(LP.strip(trip), LP.strip(k.n)) is None, 'reversal-length', iri, 'the reversal does not run over exactly n digits')
    recurrence(ck, 'reversed-integer', iri, nn, ph, None, at('x'))
    # modular inverse
    r = ck.run(mi, 'a', 'n', opaque=[eg])
    a, m = r.arg('a').n, r.arg('n').n
    g = [y for y in N.subterms(r.ret.n) if y.op == 'call' and y.k == eg]
    if ck.require(len({y.id for y in g}) == 1, 'modular-inverse', mi, 'the modular inverse is not one call of the extended Euclidean algorithm'):
        g = g[0]
        ck.same('modular-inverse', mi, [V(LP.strip(y)) for y in g.a], [V(a), V(m)])
        x = mk('sym', '@x')
        fs = {y.id: x for y in N.subterms(r.ret.n) if y.op == 'fld' and y.a[0] is g and y.k[1] == 0 or y.op == 'proj' and y.a[0] is g}
        got = LP.strip(rep(LP.strip(r.ret.n), {LP.strip(mk_first(r, g)).id: x}))
        rm = T.irem(x, m)
        forms = [T.irem(T.add(rm, m), m), T.ite(T.lt(rm, num(0)), T.add(rm, m), rm)]
        ck.require(any(N.Prover().prove(got, f) is None for f in forms), 'modular-inverse', mi, 'the result is not the Bezout coefficient reduced to 0..n: ' + T.show(got, 8))
    # extended gcd
    r = ck.run(eg, 'a', 'b')
    a, b = r.arg('a'), r.arg('b')
    rec = [e for e in r.ev.events if e[1] == eg]
    out = r.ret
    if rec:
        c = mk('call', eg, *rec[0][2])
        ck.same('euclid', eg, [V(y) for y in rec[0][2]], [b, V(T.irem(a.n, b.n))])
        e = V(c, out.t, r.ev)
        z = b.eq(0)
        ck.same('euclid', eg, [out[0], out[1]], [ite(z, S(1), e[1]), ite(z, S(0), e[0] - V(T.idiv(a.n, b.n)) * e[1])], prover=None)
        ck.require(N.Prover().prove(band(rec[0][0], z), FALSE) is None, 'euclid-ends', eg, 'the recursion does not stop at b = 0')
    else:
        q = V(T.idiv(at('r').n, at('s').n))
        for nxt in (at('r') - q * at('s'), V(T.irem(at('r').n, at('s').n))):
            ph = {'r': (a, at('s')), 's': (b, nxt), 'x': (S(1), at('y')), 'y': (S(0), at('x') - q * at('y'))}
            save = (list(ck.obl), list(ck.viol))
            if recurrence(ck, 'euclid', eg, LP.strip(out[0].n), ph, bnot(T.eq(at('s').n, num(0))), at('x')):
                break
            last_try = (ck.obl, ck.viol)
            if nxt.n.op != 'irem':
                ck.obl, ck.viol = save


def accumulates(o):
    """the checked operation adds to or multiplies a carried value (quotients and remainders of the index are no larger than it)"""
    op, a, b = o[5][:3]
    if op.k.startswith('Sub'):
        return False
    x, y = LP.strip(a), LP.strip(b)
    if op.k.startswith('Mul') and any(q.op == 'idiv' and q.a[1] is d for q, d in ((x, y), (y, x))):
        return False
    return any(z.op == 'phi' for v in (x, y) for z in N.subterms(v))


def mk_first(r, g):
    """first component of the opaque pair"""
    M = r.ck.M
    t = M.bodies[g.k].locals[0]
    return r.ev.proj_f(r.ev.expand(t, g), t, 0, 0)
