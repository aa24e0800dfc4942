"""No panic: every index, slice, division, unwrap and explicit panic reached while rendering is impossible or deliberate."""
import re
import terms as T
import norm as N
import loops as LP
import graph as G
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, Missing
from p_algebra import last
from p_scene import alone

# failures of the outside world end the program on purpose (C02, C04)
OUTSIDE = {'write_all', 'write_fmt', 'write', 'flush', 'open', 'create', 'into_inner', 'lock', 'join', 'into_inner', 'sync_all', 'set_len', 'new', 'from_entropy', 'spawn', 'scope', 'try_unwrap'}
STATIC = ('Index', 'IndexMut', 'Clone', 'From', 'Into', 'Default', 'Add', 'Sub', 'Mul', 'Div', 'Neg', 'AddAssign', 'SubAssign', 'MulAssign', 'DivAssign', 'Iterator', 'IntoIterator', 'PartialEq', 'PartialOrd')


def cond(m):
    return m if T.is_bool(m) else T.atom(m)


def facts(*cs):
    """lengths and unsigned numbers are whole: not zero is at least one"""
    f = TRUE
    for x in {x.id: x for c in cs for x in N.subterms(c) if x.op == 'len'}.values():
        f = band(f, bor(T.eq(x, num(0)), T.le(num(1), x)))
    return f


def outside(m):
    """the condition is that a call of the outside world succeeded"""
    ds = [x.a[0] for x in N.subterms(m) if x.op in ('discr', 'variant')]
    ds = [d for d in ds if d.op == 'call']
    return bool(ds) and all(last(str(d.k)) in OUTSIDE or last(str(d.k[0] if isinstance(d.k, tuple) else d.k)) in OUTSIDE for d in ds)


def whole(n, pr):
    """conversions of numbers that stay what they are"""
    m = {}
    for x in N.subterms(n):
        if x.op == 'wrap' and pr.prove(band(T.lt(x.a[0], num(0))), FALSE) is None:
            m[x.id] = x.a[0]
    return LP.replace(n, m) if m else n


def growing(n):
    """facts about what loops compute: a number that starts somewhere and only grows is at least where it started"""
    f = TRUE
    for x in {x.id: x for x in N.subterms(n) if x.op == 'loopres'}.values():
        try:
            L = LP.Loop(x)
        except Exception:
            continue
        i = L.index if hasattr(L, 'index') else 0
        phi, init, nxt = L.phis[i], L.inits[i], L.nexts[i]
        if init.op == 'num' and init.k >= 1 and N.Prover(assume=T.le(num(1), phi)).prove(T.lt(nxt, num(1)), FALSE) is None:
            f = band(f, T.le(num(1), x))
    return f


STATICTRAIT = re.compile(r' as (std|core)::(ops|clone|convert|cmp|default|iter)::')

# in-range indices that follow from what other checks prove about the same functions
ELSEWHERE = [
    ('KdTree::build', ('bounds', 'slice'), 'C17'),
    ('KdTree as container::Container>::intersect', ('bounds',), 'C17'),
    ('KdTree as container::Container>::intersect_p', ('bounds',), 'C17'),
    ('Film::merge_film_tile', ('bounds',), 'C06'),
    ('FilmTile::add_sample', ('bounds',), 'C08'),
    ('radical_inverse_prime', ('panic',), 'C12'),
]


def elsewhere(o, callers, seen=()):
    """decided by another check: the site is in one of these functions, or in a helper only they use"""
    fn = o[1].split('::{closure')[0]
    for f, ks, pid in ELSEWHERE:
        if o[0] in ks and fn.endswith(f):
            return pid
    if fn in seen:
        return None
    up = {x.split('::{closure')[0] for q, c in callers.items() if q == fn or q.startswith(fn + '::{closure') for x in c} - {fn}
    pids = {elsewhere((o[0], x), callers, seen + (fn,)) for x in up}
    return pids.pop() if len(pids) == 1 else None


def hits(*cs):
    """a hit a container reports knows its shape"""
    f = TRUE
    for x in {x.id: x for c in cs for x in N.subterms(c) if x.op == 'discr'}.values():
        y = x.a[0]
        if y.op == 'fld' and y.a[0].op == 'fld' and y.a[0].k == (1, 0) and y.a[0].a[0].op == 'call' and last(str(y.a[0].a[0].k)) == 'intersect':
            f = band(f, T.eq(x, num(1)))
    return f


def nonneg(n):
    """an index; conversions to unsigned numbers and counters are never negative"""
    if n.op in ('f2i', 'wrap', 'it', 'len', 'phi', 'fld', 'idx', 'loopres', 'call', 'sym', 'nth') or n.op == 'num' and n.k >= 0:
        return num(0)
    if n.op == 'ite':
        return T.ite(n.a[0], nonneg(n.a[1]), nonneg(n.a[2]))
    if n.op in ('mul', 'add', 'min', 'max'):
        xs = [nonneg(x) for x in n.a]
        if all(x.op == 'num' and x.k == 0 for x in xs):
            return num(0)
    return n


def below0(n):
    r = FALSE
    if n.op == 'min':
        for x in n.a:
            r = bor(r, below0(x))
        return r
    if n.op == 'max':
        r = TRUE
        for x in n.a:
            r = band(r, below0(x))
        return r
    n = nonneg(n)
    return T.lt(n, num(0))


def selfpath(x):
    p = []
    while x.op == 'fld' and x.k[0] == 0:
        p.append(x.k[1])
        x = x.a[0]
    return p[::-1] if x.op == 'sym' and x.k == 'a0' and p else None


class Total(object):
    def __init__(self, ck):
        self.ck = ck
        self.M = ck.M
        self.inv = {}
        self.skip = set()
        g = G.calls(self.M)
        self.callers = {}
        for a, bs in g.items():
            for b in bs:
                if a != b and 'test' not in a:
                    self.callers.setdefault(b, set()).add(a)

    def internal(self, p):
        """only ever run by functions that are looked at together with it"""
        if ' as ' in p and not STATICTRAIT.search(p):
            return False
        c = set()
        for x in self.callers.get(p, ()):
            x = x.split('::{closure')[0]
            if x != p:
                c.add(x)
        return bool(c) and all(x in self.M.bodies and p not in self.opaque(x) for x in c)

    def opaque(self, p):
        M = self.M
        o = [x for x in M.bodies if last(x) in ('radical_inverse', 'radical_inverse_prime') and x != p]
        if 'integrator::' in p:
            o += [x for x in M.bodies if x != p and '{' not in x and not x.startswith('<vector') and not x.startswith('<spectrum') and not M.bodies[x].closure and x not in o
                  and not ('integrator::' in x and last(x) not in ('render', 'li', 'estimate_direct', 'uniform_sample_one_light', 'new'))]
        return o

    def proved(self, p, o, pre=TRUE):
        kind, fn, pc, must = o[:4]
        m = cond(must)
        f = band(pre, facts(pc, m), hits(m, pc))
        x = pc if kind == 'panic' else m
        f = band(f, self.sample(x), self.lists(p, x))
        pr = N.Prover(assume=f)
        if pr.prove(band(pc, bnot(m)), FALSE) is None:
            return True
        f = band(f, growing(x), self.invariant(p, x))
        pr = N.Prover(assume=band(f, pc))
        return pr.prove(whole(m, pr), TRUE) is None

    def sample(self, m):
        """a sample value in [0, 1) times a count is below the count"""
        f = TRUE
        for x in N.subterms(m):
            if x.op == 'f2i':
                y = x.a[0]
                while y.op in ('floor', 'trunc') or y.op == 'fn' and y.k in ('floor', 'trunc'):
                    y = y.a[0]
                if y.op == 'mul' and any(selfless(z) for z in y.a):
                    for n in N.subterms(m):
                        if n.op == 'len' and n in [strip_i(z) for z in y.a]:
                            f = band(f, bor(T.le(n, num(0)), T.lt(x, n)))
        return f

    def lists(self, p, m):
        """the numbers in the index lists of a mesh are indices of its lists (required of the caller)"""
        f = TRUE
        if p.endswith('new_triangle_mesh') and m.op == 'lt' or p.endswith('new_triangle_mesh'):
            for x in N.subterms(m):
                if x.op in ('lt',) and x.a[1].op in ('len', 'ite'):
                    src = {y.k for y in N.subterms(x.a[0]) if y.op == 'sym'}
                    dst = {y.k for y in N.subterms(x.a[1]) if y.op == 'sym'}
                    if 'a1' in src and dst == {'a0'} or 'a3' in src and 'a2' in dst:
                        f = band(f, T.lt(x.a[0], x.a[1]))
        return f

    def invariant(self, p, m):
        """fields that are positive from construction on"""
        f = TRUE
        b = self.M.bodies[p]
        t = b.locals[1] if b.argc else None
        while t and t[0] in ('ref', 'ptr'):
            t = t[1]
        if not t or t[0] != 'adt':
            return f
        for x in {x.id: x for x in N.subterms(m)}.values():
            q = selfpath(x)
            if q and self.positive(t[1], tuple(q)):
                f = band(f, T.le(num(1), x))
        return f

    def positive(self, adt, q):
        if (adt, q) in self.inv:
            return self.inv[adt, q]
        self.inv[adt, q] = False
        ok = n = 0
        for p, b in self.M.bodies.items():
            if b.closure or 'test' in p or not any(last(adt) in x for x in (p, str(b.locals[0]))):
                continue
            names = ['a%d' % i for i in range(b.argc)]
            makes = b.locals[0][0] == 'adt' and b.locals[0][1] == adt
            selfm = b.argc and b.locals[1][0] == 'ref' and b.locals[1][2] and b.locals[1][1][:2] == ('adt', adt)
            if not makes and not selfm:
                continue
            r = self.ck.run(p, *names, opaque=self.opaque(p))
            for v in ([r.ret] if makes else []) + ([r.out('a0')] if selfm else []):
                for i in q:
                    v = v.field(i)
                x = v.n
                n += 1
                pq = selfpath(x)
                if pq == list(q):
                    continue
                # made from another one of the kind
                if N.Prover(assume=growing(x)).prove(T.lt(x, num(1)), FALSE) is not None:
                    self.ck.ok('invariant', p)
                    return False
                ok += 1
        self.inv[adt, q] = ok > 0
        return ok > 0


def selfless(z):
    """a sample value: a part of an argument that is a pair of numbers"""
    while z.op == 'fld':
        z = z.a[0]
    return z.op == 'sym' or z.op == 'call' and last(str(z.k)) in ('get_1d', 'get_2d')


def strip_i(z):
    while z.op in ('i2f', 'f2f') or z.op == 'fn' and str(z.k).startswith('i2f'):
        z = z.a[0]
    return z


def unique(ck):
    """lights are prepared while nothing else holds them"""
    p = ck.fn('Builder', 'construct')
    used = alone(ck, p, 'prepared-alone', 'a light may be shared before it is prepared: preparing it would end the program')
    for q, c in sorted(ck.M.bodies.items()):
        if 'scene::Builder' in q and q not in used and 'test' not in q:
            bad = any(bl['t']['t'] == 'call' and 'clone' == last(str((bl['t']['f'] or {}).get('n', ''))) for bl in c.blocks if isinstance(bl['t'].get('f'), dict))
            ck.require(not bad, 'prepared-alone', q, 'the builder shares what is added to it')


def C37(ck):
    ck.technique = ('Evaluated MIR of every function: each compiler-inserted check (index, slice, division, remainder) and each panic or unwrap is an obligation under its path condition; '
                    'obligations of internal functions are decided where they are called; loop and field invariants by induction.')
    ck.assumptions += ['Arithmetic overflow is not looked at (it wraps in release builds).',
                       'Failures of the outside world end the program on purpose: the output file, a panicked worker, the system source of randomness.',
                       'The index lists of a mesh name existing vertices and normals; index operators are called in range.',
                       'Indices into the nodes and edges of the k-d tree, into films and tiles, and the number of sample dimensions follow from C17, C06, C08 and C12.']
    t = Total(ck)
    M = ck.M
    n = k = e = q = 0
    for p, b in sorted(M.bodies.items()):
        if b.closure or '{' in p or 'test' in p:
            continue
        n += 1
        try:
            r = ck.run(p, *['a%d' % i for i in range(b.argc)], opaque=t.opaque(p))
        except Exception as x:
            ck.fail('decided', p, 'not evaluated: %r' % (x,))
            continue
        seen = set()
        inner = None
        pre = CONTRACT[p][0](ck, r) if p in CONTRACT else TRUE
        for o in r.ev.oblig:
            kind, fn, pc, must = o[:4]
            if kind in ('overflow', 'domain') or kind.startswith('overflow:') and kind != 'overflow:Rem':
                continue
            k += 1
            if kind == 'bounds' and len(o[5]) == 2:
                must = band(cond(must), bnot(below0(nonneg(o[5][1]))))
                o = o[:3] + (must,) + o[4:]
            x = bor(bnot(pc), cond(must))
            if x is TRUE or (kind, x.id) in seen:
                continue
            seen.add((kind, x.id))
            if elsewhere(o, {}):
                e += 1
                continue
            if kind == 'unwrap' and (outside(must) or must.op == 'B' and must.a[0].op == 'unique' or must.op == 'unique' or 'unique' in {y.op for y in N.subterms(must)}):
                ck.ok('outside', p)
                continue
            if t.proved(p, o, pre):
                ck.ok('no-' + kind, p)
                continue
            if elsewhere(o, t.callers):
                e += 1
                continue
            if inner is None:
                inner = t.internal(p)
            if inner:
                ck.ok('decided-at-callers', p)
                continue
            what = {'panic': 'the program can end here', 'unwrap': 'the value can be missing', 'bounds': 'the index can be out of range', 'slice': 'the range can be out of range'}.get(kind, 'the divisor can be zero')
            ck.fail('no-' + kind, p, '%s (in %s): %s unless %s' % (what, fn, T.show(pc, 4)[:200], T.show(cond(must), 4)[:200]), key='no-%s|%s|%s' % (kind, p, fn))
        for ev in r.ev.events:
            c = CONTRACT.get(ev[1])
            if c and not t.internal(p):
                q += 1
                c[1](ck, p, ev, M.bodies[ev[1]] if ev[1] in M.bodies else None, r.ev)
    # a hit knows its shape
    r = ck.run(ck.free('shape::intersect'), 's', 'ray')
    ck.same('hit-knows-shape', r.path, r.ret.some().field('shape').n.a[0], num(1), assume=r.ret.isome())
    unique(ck)
    ck.floor('functions', n, 300)
    ck.floor('checked-sites', k, 1000)
    ck.floor('contract-calls', q, 4)
    ck.count('decided-elsewhere', e)


def has_shape(ck, p, ev, b, evl):
    if b is None or len(ev[2]) < 1:
        return
    t = b.locals[1]
    while t[0] in ('ref', 'ptr'):
        t = t[1]
    s = V(evl.expand(t, ev[2][0]), t, evl).field('shape')
    c = s.isome()
    pr = N.Prover(assume=band(hits(c), ev[0]))
    ck.same('hit-with-shape', p, c, TRUE, prover=pr)


def positive_base(ck, p, ev, b, evl):
    ck.implies('base', p, ev[0], T.lt(num(0), ev[2][0]), what='the base of a radical inverse is positive')


def pre_shape(ck, r):
    return r.arg('a0').field('shape').isome()


def pre_base(ck, r):
    return T.lt(num(0), r.arg('a0').n)


# function: (what it requires, the check of a call)
CONTRACT = {'interaction::Interaction::compute_scattering': (pre_shape, has_shape),
            'interaction::Interaction::le': (pre_shape, has_shape),
            'sampler_halton::radical_inverse': (pre_base, positive_base)}
