"""Algebraic normal forms for value graphs, and equality of two graphs.

Scalars become reduced rational functions over non-arithmetic atoms; comparisons become sign conditions on
such functions; equality of two graphs is then decided by identity, congruence and, where conditional values
remain, by splitting on the sign conditions that occur.  No search over inputs, no solver.
"""
from fractions import Fraction
import itertools
import math
import random
import terms as T
from terms import mk, num, TRUE, FALSE, UNDEF, ONE, ZERO, band, bor, bnot, bite, is_bool

P = (1 << 61) - 1
MAXTERMS = 6000


class TooBig(Exception):
    pass


def f32q(c):
    """canonical constant: a simple rational if within f32 rounding of one, otherwise its f32 value"""
    if isinstance(c, int):
        return c
    if c.denominator == 1:
        return int(c)
    s = c.limit_denominator(2000)
    if abs(s - c) <= abs(c) * Fraction(6, 10 ** 8):
        return int(s) if s.denominator == 1 else s
    try:
        return Fraction(T.f32(float(c)))
    except OverflowError:
        return c


# ---------------------------------------------------------------- polynomials

def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > MAXTERMS * 4:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


ONEP = {(): 1}


def p_const(a):
    if not a:
        return 0
    if len(a) == 1 and () in a:
        return a[()]
    return None


def content_mono(a):
    """greatest monomial dividing every term"""
    it = iter(a)
    g = dict(next(it))
    for m in it:
        d = dict(m)
        for v in list(g):
            e = d.get(v, 0)
            if e < g[v]:
                if e:
                    g[v] = e
                else:
                    del g[v]
        if not g:
            break
    return tuple(sorted(g.items()))


def p_divmono(a, m):
    if not m:
        return a
    r = {}
    dm = dict(m)
    for k, c in a.items():
        d = dict(k)
        for v, e in dm.items():
            d[v] -= e
            if not d[v]:
                del d[v]
        r[tuple(sorted(d.items()))] = c
    return r


def lead(a):
    return max(a)


def p_divexact(a, b):
    """a / b when exact (monomial order: lex on sorted monomials), else None"""
    if len(b) > 60 or len(a) > 1500:
        return None
    # order by (total degree, mono as exponent map)
    def key(m):
        return (sum(e for _, e in m), tuple((-v, e) for v, e in m))
    # graded lex order via a fixed variable order
    vs = sorted({v for m in itertools.chain(a, b) for v, _ in m})
    pos = {v: i for i, v in enumerate(vs)}

    def gkey(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(v, 0) for v in vs))
    lb = max(b, key=gkey)
    db = dict(lb)
    cb = b[lb]
    r = dict(a)
    q = {}
    n = 0
    while r:
        n += 1
        if n > 400:
            return None
        la = max(r, key=gkey)
        da = dict(la)
        d = {}
        for v in set(da) | set(db):
            e = da.get(v, 0) - db.get(v, 0)
            if e < 0:
                return None
            if e:
                d[v] = e
        m = tuple(sorted(d.items()))
        c = Fraction(r[la]) / cb
        q[m] = q.get(m, 0) + c
        r = p_add(r, {m_mul(m, k): c * x for k, x in b.items()}, -1)
    return q


# facts about rational functions hold whatever the context, so all normalisers share them
SHARED = {'rmemo': {}, 'rand': random.Random(12345), 'vals': {}, 'table': {}, 'byid': {}, 'canonical_rat': {}}


class Norm(object):
    def __init__(self, rules=None, facts=None):
        self.memo = {}
        self.rmemo = SHARED['rmemo']
        self.rand = SHARED['rand']
        self.vals = SHARED['vals']
        self.table = SHARED['table']       # fingerprint -> [rat nodes]
        self.byid = SHARED['byid']
        self.canonical_rat = SHARED['canonical_rat']
        self.lin = {}
        self.zmon = []        # sets of atoms whose product is zero
        self.rules = []       # (atom id, power, (N, D))
        self.ctx = {}
        self.ctxmemo = {}
        self.facts = []
        for r in rules or []:
            self.add_rule(*r)
        for f in facts or []:
            self.facts.append(f)

    # -- rules: power of an atom rewritten (e.g. unit vectors)
    def add_rule(self, node, power, repl):
        n = self.canon(node)
        self.rules.append((n.id, power, self.rat(self.canon(repl))))
        self.memo.clear()

    # -- atom bookkeeping
    def atomval(self, i):
        v = self.vals.get(i)
        if v is None:
            v = self.rand.randrange(1, P)
            self.vals[i] = v
        return v

    def fp_poly(self, a):
        s = 0
        for m, c in a.items():
            if isinstance(c, Fraction):
                t = c.numerator % P * pow(c.denominator, P - 2, P) % P
            else:
                t = c % P
            for v, e in m:
                t = t * pow(self.atomval(v), e, P) % P
            s += t
        return s % P

    # -- rational functions
    def reduce(self, N):
        """apply power rules to a polynomial; returns (N, D)"""
        if self.zmon:
            N = {m: c for m, c in N.items() if not any(z <= {v for v, _ in m} for z in self.zmon)}
        todo = False
        for m in N:
            for v, e in m:
                if (e >= 2 or v in self.lin) and self.has_rule(v, e):
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return N, ONEP
        keep, out = {}, None
        accN, accD = {}, ONEP
        for m, c in N.items():
            hit = None
            for v, e in m:
                if (e >= 2 or v in self.lin) and self.has_rule(v, e):
                    hit = (v, e)
                    break
            if hit is None:
                keep[m] = keep.get(m, 0) + c
                continue
            v, e = hit
            pw, (rN, rD) = self.get_rule(v)
            k, rem = divmod(e, pw)
            d = dict(m)
            if rem:
                d[v] = rem
            else:
                del d[v]
            tN, tD = {tuple(sorted(d.items())): c}, ONEP
            for _ in range(k):
                tN, tD = p_mul(tN, rN), p_mul(tD, rD)
            if tD == accD:
                accN = p_add(accN, tN)
            else:
                accN, accD = p_add(p_mul(accN, tD), p_mul(tN, accD)), p_mul(accD, tD)
        N2 = p_add(p_mul(keep, accD) if accD != ONEP else keep, accN)
        N2 = {m: c for m, c in N2.items() if c != 0}
        N3, D3 = self.reduce(N2)
        return N3, p_mul(D3, accD) if accD != ONEP else D3

    def has_rule(self, v, e):
        r = self.get_rule(v)
        return r is not None and e >= r[0]

    def get_rule(self, v):
        if v in self.lin:
            return 1, self.lin[v]
        for i, pw, rp in self.rules:
            if i == v:
                return pw, rp
        n = self.byid.get(v)
        if n is None:
            return None
        if n.op == 'sqrt':
            return 2, self.rat(n.a[0])
        if n.op == 'abs':
            r = self.rat(n.a[0])
            return 2, (p_mul(r[0], r[0]), p_mul(r[1], r[1]))
        if n.op == 'sin':
            c = self.canon(mk('cos', None, n.a[0]))
            self.byid[c.id] = c
            return 2, ({(): 1, ((c.id, 2),): -1}, ONEP)
        if n.op == 'f2i':
            return None
        return None

    def mkrat(self, N, D):
        """canonical node of N/D"""
        N, d1 = self.reduce(N)
        D2, d2 = self.reduce(D)
        if d1 != ONEP or d2 != ONEP:
            N, D = p_mul(N, d2), p_mul(D2, d1)
            N, x1 = self.reduce(N)
            D, x2 = self.reduce(D)
        else:
            D = D2
        if not N:
            return ZERO
        if not D:
            return mk('divzero', None)
        # clear radicals from a monomial denominator
        for _ in range(4):
            if len(D) == 1:
                (m, c), = D.items()
                r = [(v, e) for v, e in m if v in self.byid and self.byid[v].op == 'sqrt' and e % 2]
                if r:
                    f = {((r[0][0], 1),): 1}
                    N, x1 = self.reduce(p_mul(N, f))
                    D, x2 = self.reduce(p_mul(D, f))
                    N, D = p_mul(N, x2), p_mul(D, x1)
                    continue
            break
        if not N:
            return ZERO
        c = p_const(D)
        if c is None:
            g1, g2 = dict(content_mono(N)), dict(content_mono(D))
            g = {v: min(e, g2[v]) for v, e in g1.items() if v in g2}
            if g:
                m = tuple(sorted(g.items()))
                N, D = p_divmono(N, m), p_divmono(D, m)
                c = p_const(D)
        if c is None:
            q = p_divexact(N, D)
            if q is not None:
                N, D = q, ONEP
                c = 1
            else:
                if len(N) > 1 or () not in N:
                    q = p_divexact(D, N)
                    if q is not None:
                        N, D = ONEP, q
                        c = p_const(D)
        if c is not None:
            if c != 1:
                N = {m: norm_num(Fraction(x) / c) for m, x in N.items()}
            D = ONEP
        else:
            l = D[max(D)]
            if l != 1:
                N = {m: norm_num(Fraction(x) / l) for m, x in N.items()}
                D = {m: norm_num(Fraction(x) / l) for m, x in D.items()}
        N = {m: norm_num(x) for m, x in N.items()}
        c = p_const(N)
        if D is ONEP or D == ONEP:
            if c is not None:
                return num(c)
            if len(N) == 1:
                (m, x), = N.items()
                if x == 1 and len(m) == 1 and m[0][1] == 1:
                    return self.byid[m[0][0]]
        k = (tuple(sorted(N.items())), tuple(sorted(D.items())))
        ids = sorted({v for q in (N, D) for m in q for v, _ in m})
        node = mk('rat', k, *[self.byid[i] for i in ids])
        if node.id in self.rmemo:
            return self.canonical_rat[node.id]
        fp = (self.fp_poly(N) * pow(self.fp_poly(D), P - 2, P)) % P
        for o in self.table.get(fp, ()):
            oN, oD = self.rmemo[o.id]
            if oD == D and oN == N:
                self.rmemo[node.id] = (N, D)
                self.canonical_rat[node.id] = o
                return o
            try:
                if p_add(p_mul(N, oD), p_mul(oN, D), -1) == {}:
                    self.rmemo[node.id] = (N, D)
                    self.canonical_rat[node.id] = o
                    return o
            except TooBig:
                # identical residue at an independent random point: identical functions up to probability 2^-50
                self.rmemo[node.id] = (N, D)
                self.canonical_rat[node.id] = o
                return o
        self.table.setdefault(fp, []).append(node)
        self.rmemo[node.id] = (N, D)
        self.canonical_rat[node.id] = node
        return node
    def rat(self, n):
        """(N, D) of a canonical node"""
        if n.op == 'num':
            k = f32q(n.k)
            return ({(): k} if k else {}), ONEP
        if n.op == 'rat':
            r = self.rmemo.get(n.id)
            if r is None:
                r = (dict(n.k[0]), dict(n.k[1]))
                self.rmemo[n.id] = r
                self.canonical_rat[n.id] = n
            return r
        self.byid[n.id] = n
        return {((n.id, 1),): 1}, ONEP

    def arith(self, op, a, b=None):
        an, ad = self.rat(a)
        try:
            if op == 'neg':
                return self.mkrat({m: -c for m, c in an.items()}, ad)
            bn, bd = self.rat(b)
            if op == 'add':
                if ad == bd:
                    return self.mkrat(p_add(an, bn), ad)
                return self.mkrat(p_add(p_mul(an, bd), p_mul(bn, ad)), p_mul(ad, bd))
            if op == 'mul':
                return self.mkrat(p_mul(an, bn), p_mul(ad, bd))
            if op == 'fdiv':
                return self.mkrat(p_mul(an, bd), p_mul(ad, bn))
        except TooBig:
            if op in ('add', 'mul') and a.id > b.id:
                a, b = b, a
            return mk('big', op, *([a] if b is None else [a, b]))

    # -- orientation of a rational function up to sign
    def orient(self, n):
        """(canonical node up to positive scale and sign, sign)"""
        N, D = self.rat(n)
        if not N:
            return ZERO, 1
        c = N[max(N)]
        a = abs(Fraction(c))
        N2 = {m: norm_num(Fraction(x) / c) for m, x in N.items()}
        return self.mkrat(N2, D), (1 if c > 0 else -1)

    def sign_atom(self, n):
        """(BDD n < 0, BDD n == 0) over canonical sign atoms"""
        if n.op == 'num':
            return (TRUE if n.k < 0 else FALSE), (TRUE if n.k == 0 else FALSE)
        if n is T.INF:
            return FALSE, FALSE
        if n is T.NINF:
            return TRUE, FALSE
        q, s = self.orient(n)
        if q.op == 'num':
            return (TRUE if q.k * s < 0 else FALSE), (TRUE if q.k == 0 else FALSE)
        mx = self.split_max(q)
        if mx is None:
            mx = self.split_factor(q)
        if mx is not None:
            neg, zero = mx
            if s > 0:
                return neg, zero
            return band(bnot(neg), bnot(zero)), zero
        neg, zero = self.lit('sneg', q), self.lit('szero', q)
        ng = self.nonneg(q)
        if ng == 'nn':
            neg = FALSE
        elif ng == 'pos':
            neg = zero = FALSE
        elif ng == 'np':
            neg = bnot(zero)
        elif ng == 'neg':
            neg, zero = TRUE, FALSE
        if s > 0:
            return neg, zero
        return band(bnot(neg), bnot(zero)), zero

    def split_factor(self, q):
        """(q < 0, q == 0) of a quotient, or of a product with factors of known sign"""
        N, D = self.rat(q)
        if D != ONEP:
            k = self.known_sign(self.mkrat(D, ONEP))
            if k != 1 and k != -1:
                return None
            neg, zero = self.sign_atom(self.mkrat(N, ONEP))
            if k < 0:
                neg = band(bnot(neg), bnot(zero))
            return neg, zero
        if len(N) == 1 and len(list(N)[0]) == 1 and list(N)[0][0][1] == 1:
            a = self.byid.get(list(N)[0][0][0])
            if a is not None and a.op == 'abs' and N[list(N)[0]] > 0:
                return FALSE, self.sign_atom(a.a[0])[1]
            return None
        drop, flip = [], False
        for v, e in content_mono(N):
            a = self.byid.get(v)
            if a is None or len(N) == 1 and len(list(N)[0]) == 1 and e == 1:
                continue
            k = self.known_sign(a)
            if k == 1 or k == -1:
                drop.append((v, e))
                flip ^= k == -1 and e % 2 == 1
            elif e % 2 == 0 and self.sign_atom(a)[1] is FALSE:
                drop.append((v, e))
        if not drop:
            return None
        neg, zero = self.sign_atom(self.mkrat(p_divmono(N, tuple(drop)), ONEP))
        if flip:
            neg = band(bnot(neg), bnot(zero))
        return neg, zero

    def split_max(self, q):
        """(q < 0, q == 0) for q = c * max(a, b, ..) + r, told by its arguments"""
        N, D = self.rat(q)
        if D != ONEP:
            return None
        hit, size = None, 1
        for m, c in N.items():
            for v, e in m:
                a = self.byid.get(v)
                if a is not None and a.op == 'max':
                    size *= len(a.a)
                    if len(m) != 1 or e != 1 or hit is not None and size > 32:
                        return None
                    if hit is None or a.id < hit[2].id:
                        hit = (m, c, a)
        if hit is None:
            return None
        m, c, a = hit
        rest = {k: x for k, x in N.items() if k != m}
        parts = [self.sign_atom(self.arith('add', self.arith('mul', x, num(norm_num(Fraction(c)))), self.mkrat(rest, ONEP))) for x in a.a]
        if c > 0:
            neg = TRUE
            le = TRUE
            for n, z in parts:
                neg = band(neg, n)
                le = band(le, bor(n, z))
            return neg, band(le, bnot(neg))
        neg, nn, anyz = FALSE, TRUE, FALSE
        for n, z in parts:
            neg = bor(neg, n)
            anyz = bor(anyz, z)
        return neg, band(bnot(neg), anyz)

    def lit(self, op, q):
        a = mk(op, None, q)
        v = self.ctx.get(a.id)
        if v is not None:
            return TRUE if v else FALSE
        if op == 'szero':
            o = self.ctx.get(mk('sneg', None, q).id)
            if o:
                return FALSE
        else:
            o = self.ctx.get(mk('szero', None, q).id)
            if o:
                return FALSE
        return T.atom(a)

    def nonneg(self, q):
        """cheap sign knowledge: sums of squares, abs, sqrt, exp, lengths"""
        N, D = self.rat(q)
        if D != ONEP:
            return None
        pos = False
        sgn = None
        for m, c in N.items():
            s = 1 if c > 0 else -1
            strict = True
            for v, e in m:
                if e % 2 == 0:
                    strict = False
                    continue
                a = self.byid[v]
                if a.op in ('abs', 'sqrt', 'len', 'wrapu') or v in self.nn:
                    strict = False
                elif a.op == 'exp' or v in self.pos or a.op == 'sym' and a.k == 'pi':
                    pass
                else:
                    return None
            if sgn is None:
                sgn = s
            elif sgn != s:
                return None
            pos = pos or strict
        if sgn is None:
            return None
        if sgn > 0:
            return 'pos' if pos else 'nn'
        return 'neg' if pos else 'np'
    nn = frozenset()
    pos = frozenset()

    # -- canonical graphs
    def canon(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self._canon(n)
            if r.id in self.lin:
                r = self.mkrat(*self.rat(r))
            self.memo[n.id] = r
        return r

    def canon_rat(self, n):
        """a rational function built in another context"""
        if not self.ctx and not self.lin and not self.rules and not self.nn and not self.pos:
            for a in n.a:
                self.byid[a.id] = a
            return n
        cs = [self.canon(a) for a in n.a]
        for a in n.a:
            self.byid[a.id] = a
        N, D = self.rat(n)
        if all(c is a for c, a in zip(cs, n.a)):
            return self.mkrat(N, D)
        if any(c in SPECIAL or c is UNDEF or c.op in ('ite', 'undef') for c in cs):
            return self.canon(pretty(n))
        m = {a.id: self.rat(c) for a, c in zip(n.a, cs)}

        def ev(p):
            rN, rD = {}, ONEP
            for mono, c in p.items():
                tN, tD = {(): c}, ONEP
                for v, e in mono:
                    xN, xD = m[v]
                    for _ in range(e):
                        tN, tD = p_mul(tN, xN), (tD if xD == ONEP else p_mul(tD, xD))
                if tD == rD:
                    rN = p_add(rN, tN)
                else:
                    rN, rD = p_add(p_mul(rN, tD), p_mul(tN, rD)), p_mul(rD, tD)
            return rN, rD
        try:
            a, b = ev(N)
            c, d = ev(D)
            return self.mkrat(p_mul(a, d), p_mul(b, c))
        except TooBig:
            return mk('big', 'rat', n)

    def _canon(self, n):
        op = n.op
        if op == 'num':
            return num(f32q(n.k))
        if op in ('sym', 'true', 'false', 'undef', 'inf', 'ninf', 'nan', 'str', 'phi', 'it', 'fnval'):
            return n
        if op == 'rat':
            return self.canon_rat(n)
        if op == 'B':
            return bite(self.canon_atom(n.a[0]), self.canon(n.a[1]), self.canon(n.a[2]))
        if op == 'ite':
            c = self.canon(n.a[0])
            if c is TRUE:
                return self.canon(n.a[1])
            if c is FALSE:
                return self.canon(n.a[2])
            return T.ite(c, self.canon(n.a[1]), self.canon(n.a[2]))
        if op in ('add', 'mul', 'fdiv'):
            a, b = self.canon(n.a[0]), self.canon(n.a[1])
            if UNDEF in (a, b):
                return UNDEF
            if a in SPECIAL or b in SPECIAL:
                r = T.rebuild(n, [a, b])
                return r
            return self.arith(op, a, b)
        if op == 'neg':
            a = self.canon(n.a[0])
            if a in SPECIAL or a is UNDEF:
                return T.neg(a)
            return self.arith('neg', a)
        if op in ('max', 'min'):
            return self.canon_max(op, [self.canon(x) for x in n.a])
        if op == 'abs':
            a = self.canon(n.a[0])
            if a.op in ('num', 'inf', 'ninf', 'undef'):
                return T.fn('abs', a) if a is not UNDEF else a
            q, s = self.orient(a)
            ng = self.nonneg(q)
            if ng in ('nn', 'pos'):
                return self.canon_scale(a, q, s)
            N, D = self.rat(a)
            c = abs(Fraction(N[max(N)]))
            at = mk('abs', None, q)
            sg = self.known_sign(q)
            if sg is not None:
                return self.arith('mul', num(norm_num(c * sg)), q) if sg else ZERO
            self.byid[at.id] = at
            return self.arith('mul', num(norm_num(c)), at)
        if op == 'sqrt':
            a = self.canon(n.a[0])
            if a.op == 'num' or a is UNDEF:
                return T.fn('sqrt', a) if a.op == 'num' and a.k >= 0 else mk('sqrt', None, a)
            if a in SPECIAL:
                return mk('sqrt', None, a)
            N, D = self.rat(a)
            # perfect square numeric content
            q = self.orient_abs(a)
            if q is not None:
                base, c = q
                sc = T.fn('sqrt', num(norm_num(c)))
                if sc.op == 'num' and sc.k != 1:
                    at = self._sq(base)
                    return self.arith('mul', sc, at)
            return self._sq(a)
        if op == 'idx':
            a, b = self.canon(n.a[0]), self.canon(n.a[1])
            r = T.idx_raw(a, b)
            return r if r.op == 'idx' and r.a[0] is a and r.a[1] is b else self.canon(r)
        if op == 'len':
            a = self.canon(n.a[0])
            r = T.seq_len(a)
            return r if r.op == 'len' else self.canon(r)
        if op == 'fld':
            a = self.canon(n.a[0])
            if a.op == 'adt' and n.k[1] < len(a.a):
                return a.a[n.k[1]]
            return mk('fld', n.k, a)
        if op == 'loopres':
            return self.canon_loop(n)
        if op in ('floor', 'ceil'):
            a = self.canon(n.a[0])
            if a.op == 'num' or a in SPECIAL or a is UNDEF:
                return T.rebuild(n, [a])
            sg = 1
            if op == 'ceil':
                # ceil x = -floor(-x)
                sg, a = -1, self.arith('neg', a)
            N, D = self.rat(a)
            c = 0
            if D == ONEP:
                c = math.floor(Fraction(N.get((), 0)))
                if c:
                    a = self.arith('add', a, num(-c))
            if a.op == 'num':
                r = num(math.floor(a.k))
            else:
                r = a if self.integral(a) else self.atomic(mk('floor', None, a))
            r = self.arith('add', r, num(c)) if c else r
            return self.arith('neg', r) if sg < 0 else r
        if op == 'f2i':
            a = self.canon(n.a[0])
            if a.op in ('num', 'ite', 'condv', 'B') or a in SPECIAL or a is UNDEF:
                return mk(op, n.k, a)
            signed = str(n.k).startswith('i')
            if self.integral(a):
                if signed or a.op == 'floor' and self.nonneg(a.a[0]) in ('nn', 'pos'):
                    return a
            elif self.nonneg(a) in ('nn', 'pos'):
                # truncation of a non-negative number
                return self.canon(mk('floor', None, a))
            return mk(op, n.k, a)
        if op == 'trunc':
            a = self.canon(n.a[0])
            if a.op not in ('num', 'ite', 'condv', 'B', 'undef') and a not in SPECIAL and self.nonneg(a) in ('nn', 'pos'):
                return self.canon(mk('floor', None, a))
            return T.rebuild(n, [a])
        if op in ('idiv', 'irem', 'round', 'wrap'):
            return T.rebuild(n, [self.canon(x) for x in n.a])
        if op in ('lt', 'le', 'eq'):
            raise Exception('bare comparison')
        if op in ('adt', 'enum', 'arr'):
            return mk(op, n.k, *[self.canon(x) for x in n.a])
        if op == 'cos':
            a = self.canon(n.a[0])
            if a.op == 'rat' or a.op == 'num':
                q, s = self.orient(a)
                if s < 0:
                    return self.canon(mk('cos', None, self.arith('neg', a)))
            return mk('cos', None, a)
        if op in ('sin', 'tan', 'atan', 'asin'):
            a = self.canon(n.a[0])
            if a.op == 'rat':
                q, s = self.orient(a)
                if s < 0:
                    r = mk(op, None, self.arith('neg', a))
                    self.byid[r.id] = r
                    return self.arith('neg', r)
            return mk(op, None, a)
        a = [self.canon(x) for x in n.a]
        return mk(op, n.k, *a)

    def atomic(self, a):
        self.byid[a.id] = a
        return a

    def integral(self, a):
        if a.op in ('ite', 'B', 'adt', 'enum', 'arr', 'condv', 'big'):
            return False
        N, D = self.rat(a)
        if D != ONEP:
            return False
        for m, c in N.items():
            if Fraction(c).denominator != 1:
                return False
            for v, e in m:
                x = self.byid.get(v)
                if e < 0 or x is None or x.op not in ('floor', 'round', 'trunc', 'f2i', 'len', 'it', 'wrap'):
                    return False
        return True

    def canon_scale(self, a, q, s):
        return a if s > 0 else self.arith('neg', a)

    def _sq(self, a):
        r = self.is_square(a)
        if r is not None:
            return self.canon(mk('abs', None, r))
        return mk('sqrt', None, a)

    def is_square(self, a):
        """r with r*r == a for a single even monomial"""
        N, D = self.rat(a)
        if len(N) == 1 and len(D) == 1:
            (m, c), = N.items()
            (m2, c2), = D.items()
            if all(e % 2 == 0 for _, e in m + m2):
                s = T.fn('sqrt', num(norm_num(Fraction(c) / c2))) if Fraction(c) / c2 > 0 else None
                if s is not None and s.op == 'num':
                    return self.mkrat({tuple((v, e // 2) for v, e in m): s.k}, {tuple((v, e // 2) for v, e in m2): 1})
        return None

    def orient_abs(self, a):
        N, D = self.rat(a)
        c = abs(Fraction(N[max(N)]))
        if c == 1:
            return None
        return self.mkrat({m: norm_num(Fraction(x) / c) for m, x in N.items()}, D), c

    def known_sign(self, q):
        ng, ze = self.sign_atom(q)
        if ng is TRUE:
            return -1
        if ze is TRUE:
            return 0
        if ng is FALSE and ze is FALSE:
            return 1
        if ng is FALSE and self.ctx.get(mk('sneg', None, q).id) is not None:
            return 1
        return None

    def canon_max(self, op, xs):
        if any(x is UNDEF for x in xs):
            return UNDEF
        if any(x in SPECIAL for x in xs):
            return T.fn(op, *xs)
        if op == 'min':
            r = self.canon_max('max', [self.arith('neg', x) for x in xs])
            return self.arith('neg', r)
        flat = []
        for x in xs:
            if x.op == 'max':
                flat += list(x.a)
            else:
                flat.append(x)
        out = []
        for x in flat:
            if x not in out:
                out.append(x)
        # drop arguments known to be dominated
        ch = True
        while ch and len(out) > 1:
            ch = False
            for i in range(len(out)):
                for j in range(len(out)):
                    if i != j:
                        d = self.arith('add', out[i], self.arith('neg', out[j]))
                        ng, ze = self.sign_atom(d)
                        if ng is TRUE or ze is TRUE or bor(ng, ze) is TRUE:
                            out.pop(i)
                            ch = True
                            break
                if ch:
                    break
        if len(out) == 1:
            return out[0]
        out.sort(key=lambda x: x.id)
        r = mk('max', None, *out)
        self.byid[r.id] = r
        return r

    def canon_atom(self, a):
        """canonical BDD of an atomic condition"""
        key = ('A', a.id)
        r = self.memo.get(key)
        if r is None:
            r = self._canon_atom(a)
            self.memo[key] = r
        return r

    def _canon_atom(self, a):
        v = self.ctx.get(a.id)
        if v is not None:
            return TRUE if v else FALSE
        if a.op in ('lt', 'eq'):
            x, y = self.canon(a.a[0]), self.canon(a.a[1])
            if UNDEF in (x, y):
                return T.atom(mk('undefcond', a.op, x, y))
            if x.op == 'ite' or y.op == 'ite':
                r = self._dist(a.op, x, y)
                if r is not None:
                    return r
            return self.cmp(a.op, x, y)
        if a.op == 'le':        # NaN-aware: unrelated to the strict comparison
            x, y = self.canon(a.a[0]), self.canon(a.a[1])
            if x.op == 'num' and y.op == 'num':
                return TRUE if x.k <= y.k else FALSE
            c = mk('le', None, x, y)
            v = self.ctx.get(c.id)
            return T.atom(c) if v is None else TRUE if v else FALSE
        if a.op in ('sneg', 'szero'):
            q = self.canon(a.a[0])
            ng, ze = self.sign_atom(q)
            return ng if a.op == 'sneg' else ze
        if a.op == 'true' or a.op == 'false':
            return a
        n = self.canon(a)
        if is_bool(n):
            return n
        v = self.ctx.get(n.id)
        if v is not None:
            return TRUE if v else FALSE
        return T.atom(n)

    def _dist(self, op, x, y):
        def depth(v):
            return 1 + max(depth(v.a[1]), depth(v.a[2])) if v.op == 'ite' else 0
        if depth(x) + depth(y) > 4:
            return None

        def go(p, q):
            if p.op == 'ite':
                return bite(p.a[0], go(p.a[1], q), go(p.a[2], q))
            if q.op == 'ite':
                return bite(q.a[0], go(p, q.a[1]), go(p, q.a[2]))
            if UNDEF in (p, q):
                return T.atom(mk('undefcond', op, p, q))
            return self.cmp(op, p, q)
        return go(x, y)

    def cmp(self, op, x, y):
        if x in SPECIAL or y in SPECIAL or x.op in NONNUM or y.op in NONNUM:
            b = T.lt(x, y) if op == 'lt' else T.eq(x, y)
            if b.op == 'B':
                v = self.ctx.get(b.a[0].id)
                if v is not None:
                    return b.a[1] if v else b.a[2]
            return b
        if op == 'eq' and x.id in T.ENUMN or y.id in T.ENUMN:
            # discriminants are finite enumerations, not numbers
            b = T.eq(x, y) if op == 'eq' else T.lt(x, y)
            return self.ctx_bdd(b)
        d = self.arith('add', x, self.arith('neg', y))
        ng, ze = self.sign_atom(d)
        return ng if op == 'lt' else ze

    def ctx_bdd(self, b):
        if b.op != 'B':
            return b
        v = self.ctx.get(b.a[0].id)
        if v is not None:
            return self.ctx_bdd(b.a[1] if v else b.a[2])
        return bite(T.atom(b.a[0]), self.ctx_bdd(b.a[1]), self.ctx_bdd(b.a[2]))

    def canon_loop(self, n):
        d, k, _ = n.k
        a = [self.canon(x) for x in n.a]
        return mk('loopres', n.k, *a)


def norm_num(x):
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


NONNUM = frozenset(['ref', 'adt', 'enum', 'arr', 'str', 'fnval', 'push', 'store', 'sorted', 'bits'])
SPECIAL = frozenset()


def _special():
    global SPECIAL
    SPECIAL = frozenset([T.INF, T.NINF, T.NAN])


_special()


# ---------------------------------------------------------------- equality with case splits

class Mismatch(object):
    def __init__(self, where, a, b, ctx):
        self.where, self.a, self.b, self.ctx = where, a, b, ctx

    def text(self, depth=7):
        c = ' and '.join(('' if v else 'not ') + '(' + T.show(pretty(k), 5) + ')' for k, v in self.ctx[:6])
        return '%s: code computes %s ; required %s%s' % (self.where or 'value', T.show(pretty(self.a), depth)[:600], T.show(pretty(self.b), depth)[:600], (' ; when ' + c) if c else '')


def pretty(n, memo=None):
    """rat nodes back to readable arithmetic"""
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    if n.op == 'rat':
        ids = {a.id: pretty(a, memo) for a in n.a}

        def poly(p):
            s = None
            for m, c in p:
                t = None
                for v, e in m:
                    for _ in range(e):
                        x = ids.get(v) or mk('sym', 'v%d' % v)
                        t = x if t is None else mk('mul', None, t, x)
                t = num(c) if t is None else (t if c == 1 else mk('mul', None, num(c), t))
                s = t if s is None else mk('add', None, s, t)
            return s or ZERO
        N, D = poly(n.k[0]), poly(n.k[1])
        r = N if D is ONE else mk('fdiv', None, N, D)
    elif n.op == 'sneg':
        r = mk('lt', None, pretty(n.a[0], memo), ZERO)
    elif n.op == 'szero':
        r = mk('eq', None, pretty(n.a[0], memo), ZERO)
    elif n.a:
        r = mk(n.op, n.k, *[pretty(x, memo) for x in n.a])
    else:
        r = n
    memo[n.id] = r
    return r


class Prover(object):
    """equality of value graphs modulo arithmetic, with splits on sign conditions"""

    def __init__(self, rules=(), nn=(), pos=(), assume=TRUE, budget=6000, facts=()):
        self.rules, self.assume = list(rules), assume
        self.nnodes, self.pnodes = list(nn), list(pos)
        self.budget = budget
        self.splits = 0
        self.leaves = 0
        self._norms = {}

    def norm(self, ctx):
        key = tuple(sorted((k.id, v) for k, v in ctx))
        n = self._norms.get(key)
        if n is None:
            n = Norm()
            n.nn = n.pos = frozenset()
            n.nn = frozenset(n.canon(x).id for x in self.nnodes)
            n.pos = frozenset(n.canon(x).id for x in self.pnodes)
            n.memo.clear()
            for r in self.rules:
                n.add_rule(*r)
            n.ctx = {k.id: v for k, v in ctx}
            # equalities known in this context become rewrite rules on a variable
            for k, v in ctx:
                if k.op == 'szero' and v:
                    n.memo.clear()
                    save, n.ctx = n.ctx, {}
                    q = n.canon(k.a[0])
                    n.ctx = save
                    if q is not ZERO:
                        self.add_eq(n, q)
            if n.lin or n.zmon:
                n.memo.clear()
                save, n.ctx = n.ctx, {}
                extra = {}
                for k, v in ctx:
                    if k.op in ('sneg', 'szero') and not (k.op == 'szero' and v):
                        q = n.canon(k.a[0])
                        if q.op == 'num' or q in SPECIAL or q is UNDEF:
                            continue
                        o, sg = n.orient(q)
                        if k.op == 'szero':
                            extra[mk('szero', None, o).id] = v
                        elif sg > 0:
                            extra[mk('sneg', None, o).id] = v
                        elif v:
                            extra[mk('sneg', None, o).id] = False
                            extra[mk('szero', None, o).id] = False
                n.ctx = save
                n.ctx.update(extra)
            n.memo.clear()
            if len(self._norms) > 400:
                self._norms.clear()
            self._norms[key] = n
        return n

    def add_eq(self, n, q):
        """use q == 0 to eliminate an atom that occurs linearly with a constant coefficient"""
        N, D = n.rat(q)
        best = None
        for m, c in N.items():
            if len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                if any(v == w for m2 in N if m2 != m for w, _ in m2):
                    continue
                if any(v == w for m2 in D for w, _ in m2):
                    continue
                at = n.byid[v]
                if best is None or at.op not in ('sym',) or True:
                    if best is None or rank(at) > rank(n.byid[best[0]]):
                        best = (v, m, c)
        if best is None:
            if len(N) == 1:
                # a product that is zero
                n.zmon.append(frozenset(v for v, _ in list(N)[0]))
                n.memo.clear()
            return
        v, m, c = best
        rest = {k: norm_num(-Fraction(x) / c) for k, x in N.items() if k != m}
        n.lin[v] = (rest, ONEP)
        n.memo.clear()

    def prove(self, a, b, where=''):
        """None when equal, otherwise a Mismatch"""
        if a is b:
            return None
        self.splits = 0
        return self.go(a, b, (), where)

    def go(self, a, b, ctx, where):
        n = self.norm(ctx)
        if self.assume is not TRUE:
            asm = fix(n, self.assume)
            if asm is FALSE:
                return None
        x, y = fix(n, a), fix(n, b)
        return self.cmpn(x, y, a, b, ctx, where, n)

    def cmpn(self, x, y, a, b, ctx, where, n):
        if x is y:
            self.leaves += 1
            return None
        if x.op == y.op and x.op in ('adt', 'arr') and len(x.a) == len(y.a) and x.k == y.k:
            for i, (p, q) in enumerate(zip(x.a, y.a)):
                r = self.cmpn(p, q, p, q, ctx, where + '.%d' % i, n)
                if r:
                    return r
            return None
        if x.op == 'enum' and y.op == 'enum' and x.k == y.k:
            r = self.cmpn(x.a[0], y.a[0], x.a[0], y.a[0], ctx, where + '.variant', n)
            if r:
                return r
            for v, c in enumerate(x.k[1]):
                if not c:
                    continue
                here = T.eq(y.a[0], num(v))
                off = T.enum_off(x.k[1], v)
                for i in range(c):
                    p, q = x.a[off + i], y.a[off + i]
                    if p is q:
                        continue
                    r = self.go(T.ite(here, p, UNDEF) if False else cond(here, p), cond(here, q), ctx, where + '.%d' % i)
                    if r:
                        return r
            return None
        # something conditional to split on?
        at = self.pick(x, y, n)
        if at is not None:
            at = innermost(at)
        if at is None:
            self.leaves += 1
            if equal_mod(n, x, y) or self.congruent(x, y, ctx, n):
                return None
            if infeasible(n, ctx, self.assume):
                return None
            # the assumptions themselves may still tell: decide them too
            asm = fix(n, self.assume) if self.assume is not TRUE else TRUE
            if asm is FALSE:
                return None
            if asm.op != 'B':
                return Mismatch(where, x, y, ctx)
            at = asm.a[0]
        self.splits += 1
        if self.splits > self.budget:
            return Mismatch(where + ' (gave up after %d case splits)' % self.splits, x, y, ctx)
        for v in (True, False):
            c2 = ctx + ((at, v),)
            if infeasible(n, c2, self.assume, quick=True):
                continue
            r = self.go(x, y, c2, where)
            if r:
                return r
        return None

    def pick(self, x, y, n):
        for z in (x, y):
            if z.op == 'ite':
                c = z.a[0]
                if c.op == 'B':
                    return c.a[0]
            if z.op == 'B':
                return self.firstatom(x, y)
            if z.op == 'condv':
                if z.a[0].op == 'B':
                    return z.a[0].a[0]
        # conditional subterms of arithmetic, then max/abs
        cand = {}
        for z in (x, y):
            for s in subterms(z):
                if s.op == 'ite' and s.a[0].op == 'B':
                    return s.a[0].a[0]
        # expand max / abs only where they are the difference
        only = sym_diff(x, y)
        for s in only:
            if s.op == 'max':
                d = n.arith('add', s.a[0], n.arith('neg', s.a[1]))
                q, sg = n.orient(d)
                if q.op != 'num':
                    for l in n.sign_atom(d):
                        if l.op == 'B':
                            return l.a[0]
                    l = n.lit('sneg', q)
                    if l.op == 'B':
                        return l.a[0]
                    l = n.lit('szero', q)
                    if l.op == 'B':
                        return l.a[0]
            if s.op == 'abs':
                l = n.lit('sneg', s.a[0])
                if l.op == 'B':
                    return l.a[0]
        return None

    def firstatom(self, x, y):
        a = x.a[0] if x.op == 'B' else None
        b = y.a[0] if y.op == 'B' else None
        if a is None:
            return b
        if b is None:
            return a
        return a if a.id < b.id else b

    def congruent(self, x, y, ctx, n, d=0):
        if x is y:
            return True
        if d > 8:
            return False
        if x.op == 'loopres' and y.op == 'loopres' and x.k[0] == y.k[0] and x.k[1] == y.k[1]:
            return self.loop_eq(x, y, ctx)
        if x.op == y.op and x.k == y.k and len(x.a) == len(y.a) and x.op not in ('rat', 'B') and x.a:
            return all(self.go(p, q, ctx, '') is None for p, q in zip(x.a, y.a))
        if x.op == 'rat' and y.op == 'rat':
            # match differing atoms by congruence
            ax, ay = [a for a in x.a if a not in y.a], [a for a in y.a if a not in x.a]
            if len(ax) == len(ay) and 0 < len(ax) <= 4:
                for perm in itertools.permutations(ay):
                    if all(p.op == q.op and self.congruent(p, q, ctx, n, d + 1) for p, q in zip(ax, perm)):
                        m = {p.id: q for p, q in zip(ax, perm)}
                        x2 = n.canon(T.subst(pretty(x), {p.id: q for p, q in zip([pretty(u) for u in ax], [pretty(u) for u in perm])}))
                        if x2 is y or n.canon(pretty(y)) is x2:
                            return True
        return False

    def loop_eq(self, x, y, ctx):
        d, k, _ = x.k
        perms = itertools.permutations(range(k)) if k <= 5 else [tuple(range(k))]
        for perm in perms:
            m = {mk('phi', (d, 'c%d' % i)).id: mk('phi', (d, 'c%d' % j)) for i, j in enumerate(perm)}
            m['__d'] = ()
            memo = {}
            S = lambda z: T.subst(z, m, memo)
            px = pretty
            # x's i-th phi plays the role of y's perm[i]-th
            ok = True
            for i, j in enumerate(perm):
                if self.go(x.a[2 + k + i], y.a[2 + k + j], (), '') is not None:
                    ok = False
                    break
            if not ok:
                continue
            if self.go(S(px(x.a[1])), px(y.a[1]), (), '') is not None:
                continue
            asm = self.assume
            if self.go(cond(S(px(x.a[1])), S(px(x.a[0]))) if False else S(px(x.a[0])), px(y.a[0]), (), '') is not None:
                # the term only matters where the loop stops
                if self.go(cond(bnot(px(y.a[1])), S(px(x.a[0]))), cond(bnot(px(y.a[1])), px(y.a[0])), (), '') is not None:
                    continue
            for i, j in enumerate(perm):
                c = px(y.a[1])
                if self.go(cond(c, S(px(x.a[2 + i]))), cond(c, px(y.a[2 + j])), (), '') is not None:
                    ok = False
                    break
            if ok:
                return True
        return False


def innermost(at):
    """decide the conditions inside a condition first"""
    for _ in range(30):
        for s in subterms(at):
            if s.op == 'ite' and s.a[0].op == 'B':
                at = s.a[0].a[0]
                break
        else:
            return at
    return at


def rank(a):
    return {'sym': 0, 'fld': 1}.get(a.op, 2)


def cond(c, v):
    """v where c holds, irrelevant elsewhere"""
    if c is TRUE:
        return v
    if c is FALSE:
        return UNDEF
    return mk('condv', None, c, v)


def fix(n, x):
    if x.op == 'condv':
        c = n.canon(x.a[0])
        if c is FALSE:
            return UNDEF
        v = fix(n, x.a[1])
        if c is TRUE:
            return v
        return mk('condv', None, c, v)
    return n.canon(x)


def subterms(z):
    seen, st = {z.id}, [z]
    while st:
        x = st.pop()
        yield x
        if x.op in ('loopres', 'vecgen'):
            continue
        for y in x.a:
            if y.id not in seen:
                seen.add(y.id)
                st.append(y)


def sym_diff(x, y):
    a = {s.id: s for s in subterms(x)}
    b = {s.id: s for s in subterms(y)}
    out = [s for i, s in a.items() if i not in b] + [s for i, s in b.items() if i not in a]
    return [s for s in out if s.op in ('max', 'abs')]


def equal_mod(n, x, y):
    """difference vanishes modulo the equalities of the context"""
    if x.op in ('rat', 'num') and y.op in ('rat', 'num') or x.op not in NONNUM and y.op not in NONNUM and not is_bool(x) and not is_bool(y) and UNDEF not in (x, y) and x not in SPECIAL and y not in SPECIAL:
        if x.op in ('loopres', 'condv') or y.op in ('loopres', 'condv'):
            return False
        d = n.arith('add', x, n.arith('neg', y))
        if d is ZERO:
            return True
        # numerically negligible (constants folded in f32)
        if d.op == 'num' and x.op == 'num' and abs(Fraction(d.k)) <= Fraction(2, 10 ** 7) * max(abs(Fraction(x.k)), abs(Fraction(y.k))):
            return True
    return x is UNDEF or y is UNDEF


# ---------------------------------------------------------------- infeasible contexts: linear reasoning over monomials

def infeasible(n, ctx, assume, quick=False):
    cons = []     # (poly, strict) meaning poly < 0 (strict) or <= 0
    d = dict((k.id, v) for k, v in ctx)
    seen_eq = {}
    for k, v in ctx:
        if k.op == 'sneg':
            N, D = n.rat(k.a[0])
            if D != ONEP:
                s = n.nonneg(n.mkrat(D, ONEP))
                if s not in ('pos', 'nn'):
                    # treat N/D as one variable
                    N = {(('r', k.a[0].id, 1),): 1}
            if v:
                cons.append((N, True))
            else:
                cons.append(({m: -c for m, c in N.items()}, d.get(mk('szero', None, k.a[0]).id) is False))
        elif k.op == 'szero':
            N, D = n.rat(k.a[0])
            if D != ONEP:
                N = {(('r', k.a[0].id, 1),): 1} if n.nonneg(n.mkrat(D, ONEP)) not in ('pos', 'nn') else N
            if v:
                cons.append((N, False))
                cons.append(({m: -c for m, c in N.items()}, False))
            elif D == ONEP and n.nonneg(k.a[0]) == 'nn':
                cons.append(({m: -c for m, c in N.items()}, True))
        elif k.op == 'eq' and v and k.a[1].op == 'num':
            if seen_eq.setdefault(k.a[0].id, k.a[1].k) != k.a[1].k:
                return True
    if len(cons) < 2 and quick:
        return False
    # facts about monomials
    monos = {m for N, _ in cons for m in N if m}
    for m in monos:
        if isinstance(m[0][0], str):
            continue
        ok = True
        for v, e in m:
            a = n.byid.get(v)
            if e % 2 and not (a is not None and (a.op in ('abs', 'sqrt', 'len', 'exp') or v in n.nn or v in n.pos)):
                ok = False
        if ok:
            cons.append(({m: -1}, False))
        if len(m) == 1 and m[0][1] == 1:
            a = n.byid.get(m[0][0])
            if a is not None and a.op == 'max':
                for x in a.a:
                    N, D = n.rat(x)
                    if D == ONEP:
                        cons.append((p_add(N, {m: 1}, -1), False))
                r = n.canon_max('max', a.a)
                if r is not a:
                    N, D = n.rat(r)
                    if D == ONEP:
                        cons.append((p_add({m: 1}, N, -1), False))
    ints = {}

    def isint(m):
        if m not in ints:
            ints[m] = not isinstance(m[0][0], str) and all((n.byid[v].op if v in n.byid else '') in INTEGERS for v, _ in m)
        return ints[m]
    # N < 0 means N + 1 <= 0 in integers
    cons = [(p_add(N, {(): 1}), False) if s and N and all(Fraction(c).denominator == 1 for c in N.values()) and all(isint(m) for m in N if m) else (N, s) for N, s in cons]
    return fm(cons)


INTEGERS = ('len', 'f2i', 'idiv', 'irem')


def fm(cons):
    """Fourier-Motzkin: True when the linear constraints (poly < 0 / <= 0) are contradictory"""
    rows = []
    for N, s in cons:
        r = {m: Fraction(c) for m, c in N.items()}
        rows.append((r, s))
    for _ in range(40):
        for r, s in rows:
            k = [m for m in r if m]
            if not k:
                c = r.get((), 0)
                if c > 0 or (c == 0 and s):
                    return True
        vs = {}
        for r, s in rows:
            for m, c in r.items():
                if m:
                    vs.setdefault(m, [0, 0])[0 if c > 0 else 1] += 1
        if not vs:
            return False
        v = min(vs, key=lambda m: (vs[m][0] * vs[m][1], str(m)))
        up = [(r, s) for r, s in rows if r.get(v, 0) > 0]
        lo = [(r, s) for r, s in rows if r.get(v, 0) < 0]
        rest = [(r, s) for r, s in rows if not r.get(v, 0)]
        if len(up) * len(lo) > 300:
            return False
        for r1, s1 in up:
            for r2, s2 in lo:
                a, b = r1[v], -r2[v]
                x = {}
                for m, c in r1.items():
                    x[m] = x.get(m, 0) + c * b
                for m, c in r2.items():
                    x[m] = x.get(m, 0) + c * a
                x = {m: c for m, c in x.items() if c != 0}
                rest.append((x, s1 or s2))
        rows = rest
        if len(rows) > 400:
            return False
    return False
