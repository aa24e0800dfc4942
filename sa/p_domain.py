"""Domains of square roots and inverse functions under rounding: interval analysis on evaluated MIR.

Every floating-point operation is rounded, and rounding is monotone: an operation whose operands lie between two representable numbers gives a result
between the rounded results for those numbers.  So intervals bound what the program computes; equations between real numbers (a sum of squares that is
one, say) do not, and are never used here."""
import math
import terms as T
import norm as N
import graph as G
from terms import mk, num, TRUE, FALSE
from ck import V, Missing
from p_algebra import last
from p_total import Total

INF = math.inf
ALL = (-INF, INF)
BELOW1 = 1 - 2.0 ** -24


def paths(c, cap=64):
    """the disjoint conjunctions of literals that make c true, or None if there are too many"""
    out = []
    st = [(c, ())]
    while st:
        x, lits = st.pop()
        if x is TRUE:
            out.append(lits)
            if len(out) > cap:
                return None
        elif x is not FALSE:
            st.append((x.a[1], lits + ((x.a[0], True),)))
            st.append((x.a[2], lits + ((x.a[0], False),)))
    return out


def meet(env, n, lo, hi):
    a, b = env.get(n.id, ALL)
    env[n.id] = (max(a, lo), min(b, hi))


def const(n):
    if n.op == 'num':
        return float(n.k)
    return None


def learn(env, lits):
    """what comparisons with constants say about the values compared"""
    for a, v in lits:
        if a.op in ('lt', 'le'):
            x, y = a.a
            cx, cy = const(x), const(y)
            if cy is not None:
                meet(env, x, *((-INF, cy) if v else (cy, INF)))
            elif cx is not None:
                meet(env, y, *((cx, INF) if v else (-INF, cx)))
            elif y.op == 'neg' and x.op == 'num' or x.op == 'neg' and y.op == 'num':
                pass
        elif a.op == 'eq' and v:
            for x, y in (a.a, a.a[::-1]):
                c = const(y)
                if c is not None:
                    meet(env, x, c, c)


def factors(n):
    if n.op == 'mul':
        return factors(n.a[0]) + factors(n.a[1])
    if n.op == 'neg':
        return [num(-1)] + factors(n.a[0])
    return [n]


def terms_of(n):
    if n.op == 'add':
        return terms_of(n.a[0]) + terms_of(n.a[1])
    return [n]


def times(a, b):
    p = [0.0 if x == 0 or y == 0 else x * y for x in a for y in b]
    return (min(p), max(p))


class Ranges(object):
    def __init__(self, env):
        self.env = env
        self.memo = {}

    def of(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self.raw(n)
            e = self.env.get(n.id)
            if e:
                r = (max(r[0], e[0]), min(r[1], e[1]))
            self.memo[n.id] = r
        return r

    def raw(self, n):
        op = n.k if n.op == 'fn' else n.op
        a = n.a
        if n.op == 'num':
            return (float(n.k), float(n.k))
        if op == 'inf':
            return (INF, INF)
        if op == 'ninf':
            return (-INF, -INF)
        if op == 'neg':
            x = self.of(a[0])
            return (-x[1], -x[0])
        if op == 'add':
            x, y = self.of(a[0]), self.of(a[1])
            lo, hi = x[0] + y[0], x[1] + y[1]
            if lo != lo:
                lo = -INF
            if hi != hi:
                hi = INF
            if lo < 0 and any(self.dominates(s, t) for s, t in (a, a[::-1])):
                lo = 0.0
            return (lo, hi)
        if op == 'mul':
            fs = {}
            for f in factors(n):
                fs.setdefault(f.id, [f, 0])[1] += 1
            r = (1.0, 1.0)
            for f, k in fs.values():
                x = self.of(f)
                if k % 2 == 0:
                    m = max(abs(x[0]), abs(x[1]))
                    l = 0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
                    p = (l ** k, m ** k)
                else:
                    p = (x[0] ** k if math.isfinite(x[0]) else x[0], x[1] ** k if math.isfinite(x[1]) else x[1])
                r = times(r, p)
            return r
        if op == 'fdiv':
            x, y = self.of(a[0]), self.of(a[1])
            if y[0] > 0 or y[1] < 0:
                q = (1 / y[1], 1 / y[0])
                return times(x, (min(q), max(q)))
            if y[0] >= 0:
                return (0.0 if x[0] >= 0 else -INF, 0.0 if x[1] <= 0 else INF)
            return ALL
        if op in ('max', 'min'):
            xs = [self.of(x) for x in a]
            f = max if op == 'max' else min
            return (f(x[0] for x in xs), f(x[1] for x in xs))
        if op == 'abs':
            x = self.of(a[0])
            if x[0] >= 0:
                return x
            m = max(abs(x[0]), abs(x[1]))
            return (0.0 if x[1] >= 0 else -x[1], m)
        if op == 'sqrt':
            x = self.of(a[0])
            return (math.sqrt(max(x[0], 0.0)), math.sqrt(x[1]) if x[1] >= 0 else INF)
        if op in ('sin', 'cos'):
            return (-1.0, 1.0)
        if op == 'exp':
            return (0.0, INF)
        if op in ('len', 'i2f', 'wrap', 'f2i', 'bits'):
            if op == 'len' or op in ('wrap', 'f2i') and 'u' in str(n.k):
                return (0.0, INF)
            if op == 'i2f':
                return self.of(a[0])
            return ALL
        if op in ('floor', 'ceil', 'round', 'trunc'):
            x = self.of(a[0])
            return tuple(v if not math.isfinite(v) else float({'floor': math.floor, 'ceil': math.ceil, 'round': round, 'trunc': math.trunc}[op](v)) for v in x)
        if op == 'ite':
            c = a[0]
            out = None
            for g, v in ((c, a[1]), (T.bnot(c) if T.is_bool(c) else None, a[2])):
                ps = paths(g, 8) if g is not None and T.is_bool(g) else None
                for l in ps if ps is not None else [()]:
                    e = dict(self.env)
                    learn(e, l)
                    if any(x[0] > x[1] for x in e.values()):
                        continue
                    r = Ranges(e).of(v)
                    out = r if out is None else (min(out[0], r[0]), max(out[1], r[1]))
            return out or ALL
        return ALL

    def dominates(self, s, t):
        """s + t with s = sqrt(t * t + something that is not negative): rounded, s is no smaller than t is large"""
        if s.op != 'sqrt':
            return False
        ts = terms_of(s.a[0])
        sq = [x for x in ts if x.op == 'mul' and len(factors(x)) % 2 == 0 and self.square_of(x, t)]
        return bool(sq) and all(self.of(x)[0] >= 0 for x in ts)

    def square_of(self, x, t):
        f = sorted(y.id for y in factors(x))
        g = [y for y in factors(t) if not (y.op == 'num' and y.k == -1)]
        return f == sorted([y.id for y in g] * 2)


def domain(name):
    if name in ('asin', 'acos'):
        return (-1.0, 1.0)
    if name == 'acosh':
        return (1.0, INF)
    if name in ('atanh',):
        return (-1.0, 1.0)
    if name == 'ln_1p':
        return (-1.0, INF)
    return (0.0, INF)


def samples(r, body, p):
    """sample values lie in [0, 1)"""
    env = {}
    if not last(p).startswith('sample') and '_sample_' not in last(p):
        return env
    for i in range(body.argc):
        t = body.locals[i + 1]
        if t[0] == 'adt' and last(t[1]) in ('Point2f', 'Point2'):
            v = r.arg('a%d' % i)
            for k in range(2):
                env[v.field(k).n.id] = (0.0, BELOW1)
    return env


def within(n, pc, lo, hi, env):
    """-> None, or the interval n may leave the domain with"""
    ps = paths(pc)
    for l in ps if ps is not None else [()]:
        e = dict(env)
        learn(e, l)
        if any(x[0] > x[1] for x in e.values()):
            continue
        r = Ranges(e).of(n)
        if not (r[0] >= lo and r[1] <= hi):
            return r
    return None


def C43(ck):
    ck.technique = ('Interval analysis on evaluated MIR of every function: each square root, inverse trigonometric function, logarithm and power is an obligation under its path condition; '
                    'intervals are sound for rounded arithmetic because rounding is monotone, relations between real numbers are not used.')
    ck.assumptions += ['What is computed from is a number: NaN coming in, and infinity over infinity, are not looked at.',
                       'Sample values lie in [0, 1) (C09, C25).']
    t = Total(ck)
    M = ck.M
    n = f = 0
    for p, b in sorted(M.bodies.items()):
        if b.closure or '{' in p or 'test' in p:
            continue
        f += 1
        try:
            r = ck.run(p, *['a%d' % i for i in range(b.argc)], opaque=t.opaque(p))
        except Exception as x:
            ck.fail('decided', p, 'not evaluated: %r' % (x,))
            continue
        env = samples(r, b, p)
        seen = set()
        inner = None
        for o in r.ev.oblig:
            if o[0] != 'domain':
                continue
            name, x = o[5][0].k, o[5][1]
            if (name, x.id, o[2].id) in seen:
                continue
            seen.add((name, x.id, o[2].id))
            n += 1
            bad = within(x, o[2], *domain(name), env=env)
            if bad is None:
                ck.ok('in-domain', p)
                continue
            if inner is None:
                inner = t.internal(p)
            if inner:
                ck.ok('decided-at-callers', p)
                continue
            ck.fail('in-domain', p, '%s (in %s, %s) of a number that can be as low as %g and as high as %g by rounding: %s' % (name, o[1], o[4], bad[0], bad[1], T.show(x, 6)[:300]), key='in-domain|%s|%s' % (p, o[1]))
    ck.floor('functions', f, 300)
    ck.floor('partial-operations', n, 60)
    # cosines and sines of azimuths, squared sines
    for name, lo, hi in (('cos_phi', -1, 1), ('sin_phi', -1, 1), ('sin_2_theta', 0, INF), ('cos_2_phi', 0, 1), ('sin_2_phi', 0, 1)):
        p = ck.free(name)
        r = ck.run(p, 'w')
        bad = within(r.ret.n, TRUE, lo, hi, {})
        ck.require(bad is None, 'trigonometric-range', p, 'the value can leave [%g, %g] by rounding: %s' % (lo, hi, bad))
