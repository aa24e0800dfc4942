"""Hash-consed value graph.

Every MIR value is a Node.  Booleans are kept as reduced ordered decision diagrams over atomic
conditions, so two conditions are the same Node exactly when they are propositionally equal.
Aggregates are always explicit ('adt' / 'arr' / 'enum' nodes), so equality is decided leaf by leaf.
"""
from fractions import Fraction
import math, struct


class Node(object):
    __slots__ = ('op', 'k', 'a', 'id', 'fv', '_h')

    def __repr__(self):
        return show(self, 4)


_tab = {}
_cnt = [0]
NAN_AWARE = [False]
NEG_ZERO = [False]     # keep the literal -0. apart from 0.


def reset():
    _tab.clear()
    _memo.clear()
    ENUMN.clear()
    init_consts()


_memo = {}


def mk(op, k=None, *a):
    key = (op, k) + tuple(x.id for x in a)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op, n.k, n.a = op, k, a
        _cnt[0] += 1
        n.id = _cnt[0]
        fv = frozenset()
        if op == 'phi':
            fv = frozenset([k[0]])
        elif op == 'it':
            fv = frozenset([k])
        for x in a:
            if x.fv:
                fv = fv | x.fv
        if op == 'loopres' or op == 'vecgen':
            fv = fv - frozenset([k[0]])
            # inits live outside the binder
            for x in a[-k[2]:] if (op == 'loopres' and k[2]) else ():
                fv = fv | x.fv
            if op == 'vecgen':
                fv = fv | a[0].fv
        n.fv = fv
        _tab[key] = n
    return n


def init_consts():
    global TRUE, FALSE, UNDEF, INF, NINF, NAN, ZERO, ONE
    TRUE = mk('true')
    FALSE = mk('false')
    UNDEF = mk('undef')
    INF = mk('inf')
    NINF = mk('ninf')
    NAN = mk('nan')
    ZERO = num(0)
    ONE = num(1)
    PI_ATOM[0] = mk('sym', 'pi')


PI_ATOM = [None]


def num(v):
    if isinstance(v, Fraction):
        if v.denominator == 1:
            v = int(v)
    return mk('num', v)


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


_PIS = {}
for _k in [Fraction(1), Fraction(1, 2), Fraction(1, 4), Fraction(1, 3), Fraction(1, 6), Fraction(1, 8), Fraction(2), Fraction(4), Fraction(3, 2)]:
    _PIS[f32(float(_k) * math.pi)] = ('m', _k)
for _k in [Fraction(1), Fraction(2), Fraction(1, 2), Fraction(1, 4)]:
    _PIS[f32(float(_k) / math.pi)] = ('d', _k)
_PIS[f32(math.pi / 180)] = ('m', Fraction(1, 180))
_PIS[f32(180 / math.pi)] = ('d', Fraction(180))


def fconst(v, text=None):
    """A float constant: multiples of pi are symbolic, short dyadics exact, others by shortest decimal."""
    if isinstance(v, str):
        v = v.strip()
        if v in ('inf', 'NaN', '-inf'):
            return {'inf': INF, '-inf': NINF, 'NaN': NAN}[v]
        text = v
        v = float(v)
    if v != v:
        return NAN
    if v in (float('inf'), float('-inf')):
        return INF if v > 0 else NINF
    if v == 0 and NEG_ZERO[0] and math.copysign(1, v) < 0:
        return mk('negzero')
    s = abs(f32(v)) if abs(v) < 3e38 else abs(v)
    if s in _PIS:
        t, k = _PIS[s]
        k = -k if v < 0 else k
        return mul(num(k), PI_ATOM[0]) if t == 'm' else fdiv(num(k), PI_ATOM[0])
    fr = Fraction(v)
    d = fr.denominator
    if d <= 4096 and abs(fr.numerator) < 2 ** 24:
        return num(fr)
    m, e = math.frexp(v)
    if Fraction(m) * 4096 == int(m * 4096):
        return num(fr)
    return num(Fraction(text if text is not None else repr(v)))


def sym(name):
    return mk('sym', name)


# ---------------------------------------------------------------- booleans (ROBDD)

def atom(n):
    return mk('B', None, n, TRUE, FALSE)


def is_bool(n):
    return n.op in ('B', 'true', 'false')


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = ('bite', f.id, g.id, h.id)
    r = _memo.get(key)
    if r is not None:
        return r
    v = None
    for x in (f, g, h):
        if x.op == 'B' and (v is None or x.a[0].id < v.id):
            v = x.a[0]

    def cof(x, b):
        if x.op == 'B' and x.a[0] is v:
            return x.a[1] if b else x.a[2]
        return x
    hi = bite(cof(f, 1), cof(g, 1), cof(h, 1))
    lo = bite(cof(f, 0), cof(g, 0), cof(h, 0))
    r = hi if hi is lo else mk('B', None, v, hi, lo)
    _memo[key] = r
    return r


def bnot(f):
    return bite(f, FALSE, TRUE)


def band(*xs):
    r = TRUE
    for x in xs:
        r = bite(r, x, FALSE)
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = bite(r, TRUE, x)
    return r


def implies(a, b):
    return band(a, bnot(b)) is FALSE


def restrict(f, c):
    """f simplified using the care set c (agrees with f wherever c holds)."""
    if c is FALSE or c is TRUE or f.op != 'B':
        return f
    key = ('rs', f.id, c.id)
    r = _memo.get(key)
    if r is not None:
        return r
    v = c.a[0]
    fv = f.a[0]
    if v.id < fv.id:
        r = restrict(f, bor(c.a[1], c.a[2]))
    elif v.id > fv.id:
        hi, lo = restrict(f.a[1], c), restrict(f.a[2], c)
        r = hi if hi is lo else mk('B', None, fv, hi, lo)
    else:
        if c.a[1] is FALSE:
            r = restrict(f.a[2], c.a[2])
        elif c.a[2] is FALSE:
            r = restrict(f.a[1], c.a[1])
        else:
            hi, lo = restrict(f.a[1], c.a[1]), restrict(f.a[2], c.a[2])
            r = hi if hi is lo else mk('B', None, v, hi, lo)
    _memo[key] = r
    return r


def bool_atoms(f, out=None):
    """atoms occurring in a decision diagram"""
    if out is None:
        out = {}
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.id in seen or x.op != 'B':
            continue
        seen.add(x.id)
        out[x.a[0].id] = x.a[0]
        st += [x.a[1], x.a[2]]
    return out


# ---------------------------------------------------------------- ite on values

def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x is UNDEF:
        return y
    if y is UNDEF:
        return x
    if is_bool(x) and is_bool(y):
        return bite(c, x, y)
    if x.op == 'adt' and y.op == 'adt' and x.k == y.k and len(x.a) == len(y.a):
        return mk('adt', x.k, *[ite(c, p, q) for p, q in zip(x.a, y.a)])
    if x.op == 'arr' and y.op == 'arr' and len(x.a) == len(y.a):
        return mk('arr', x.k, *[ite(c, p, q) for p, q in zip(x.a, y.a)])
    if x.op == 'enum' and y.op == 'enum' and x.k == y.k:
        return mk('enum', x.k, *[ite(c, p, q) for p, q in zip(x.a, y.a)])
    key = ('ite', c.id, x.id, y.id)
    r = _memo.get(key)
    if r is not None:
        return r
    if not NAN_AWARE[0] and c.op == 'B' and c.a[0].op == 'lt' and (c.a[1], c.a[2]) in ((TRUE, FALSE), (FALSE, TRUE)):
        p, q = c.a[0].a
        hi, lo = (x, y) if c.a[1] is TRUE else (y, x)
        if hi is p and lo is q:
            return fn('min', p, q)
        if hi is q and lo is p:
            return fn('max', p, q)
    # same-condition collapse
    x2 = _under(x, c, True)
    y2 = _under(y, c, False)
    if x2 is y2:
        r = x2
    elif x2.op == 'num' and y2.op == 'num' and False:
        r = None
    else:
        # orient: prefer the condition whose top polarity is positive
        if c.op == 'B' and c.a[1] is FALSE and c.a[2] is TRUE:
            r = mk('ite', None, bnot(c), y2, x2)
        else:
            r = mk('ite', None, c, x2, y2)
    _memo[key] = r
    return r


def _under(v, c, pol):
    """simplify an ite value under the assumption c == pol (top level only)"""
    n = 0
    while v.op == 'ite' and n < 64:
        n += 1
        d = v.a[0]
        cc = c if pol else bnot(c)
        if implies(cc, d):
            v = v.a[1]
        elif implies(cc, bnot(d)):
            v = v.a[2]
        else:
            break
    return v


def assume(v, c):
    """simplify v's top-level ites knowing that c holds"""
    if c is TRUE:
        return v
    if is_bool(v):
        return restrict(v, c) if c is not FALSE else v
    return _under(v, c, True)


# ---------------------------------------------------------------- arithmetic

def isnum(x, v=None):
    return x.op == 'num' and (v is None or x.k == v)


def add(x, y):
    if x.op == 'num' and y.op == 'num':
        return num(Fraction(x.k) + y.k)
    if isnum(x, 0):
        return y
    if isnum(y, 0):
        return x
    if x.op in ('inf', 'ninf', 'nan') or y.op in ('inf', 'ninf', 'nan'):
        if x.op == 'num':
            return y
        if y.op == 'num':
            return x
    # re-associate integer-style constants: (p + c1) + c2
    if y.op == 'num' and x.op == 'add' and x.a[1].op == 'num':
        return add(x.a[0], num(Fraction(x.a[1].k) + y.k))
    if x.op == 'num':
        x, y = y, x
    elif y.op != 'num' and x.id > y.id:
        x, y = y, x
    if x.op == 'neg' and x.a[0] is y or y.op == 'neg' and y.a[0] is x:
        return ZERO
    return remainder(x, y) or remainder(y, x) or mk('add', None, x, y)


def remainder(x, y):
    """x - (x div q) * q is x mod q (both truncate)"""
    if y.op == 'neg':
        m = y.a[0]
        while m.op == 'wrap':
            m = m.a[0]
        if m.op == 'mul':
            for d, q in (m.a, m.a[::-1]):
                if d.op == 'idiv' and d.a[0] is x and d.a[1] is q:
                    return irem(x, q)
    elif y.op == 'mul' and y.a[0].op == 'idiv' or y.op == 'mul' and y.a[1].op == 'idiv':
        for d, q in (y.a, y.a[::-1]):
            if d.op == 'idiv' and d.a[0] is x and d.a[1].op == 'num' and q.op == 'num' and q.k == -d.a[1].k:
                return irem(x, d.a[1])
    return None


def neg(x):
    if x.op == 'num':
        return num(-x.k)
    if x.op == 'neg':
        return x.a[0]
    if x is INF:
        return NINF
    if x is NINF:
        return INF
    return mk('neg', None, x)


def sub(x, y):
    if x is y and x.op not in ('inf', 'ninf', 'nan'):
        return ZERO
    return add(x, neg(y))


def mul(x, y):
    if x.op == 'num' and y.op == 'num':
        return num(Fraction(x.k) * y.k)
    for p, q in ((x, y), (y, x)):
        if isnum(p, 0) and q.op not in ('inf', 'ninf', 'nan'):
            return ZERO
        if isnum(p, 1):
            return q
        if isnum(p, -1):
            return neg(q)
        if q is INF and p.op == 'num' and p.k != 0:
            return INF if p.k > 0 else NINF
    if x.id > y.id:
        x, y = y, x
    return mk('mul', None, x, y)


def fdiv(x, y):
    if y.op == 'num' and y.k != 0:
        if x.op == 'num':
            return num(Fraction(x.k) / y.k)
        return mul(x, num(Fraction(1) / y.k))
    if isnum(x, 0) and y.op != 'num':
        return ZERO
    if x is y:
        return ONE
    return mk('fdiv', None, x, y)


def idiv(x, y):
    if x.op == 'num' and y.op == 'num' and y.k != 0:
        q = abs(x.k) // abs(y.k)
        return num(q if (x.k >= 0) == (y.k >= 0) else -q)
    if isnum(y, 1):
        return x
    if isnum(x, 0):
        return ZERO
    return mk('idiv', None, x, y)


def irem(x, y):
    if x.op == 'num' and y.op == 'num' and y.k != 0:
        r = abs(x.k) % abs(y.k)
        return num(r if x.k >= 0 else -r)
    if isnum(x, 0):
        return ZERO
    if y.op == 'num' and y.k > 0:
        # ((a mod b) + b) mod b: the remainder made positive
        t = x
        while t.op == 'wrap':
            t = t.a[0]
        if t.op == 'add' and isnum(t.a[1], y.k):
            r = t.a[0]
            while r.op == 'wrap':
                r = r.a[0]
            if r.op == 'irem' and r.a[1] is y:
                return ite(lt(r, ZERO), x, t.a[0])
    return mk('irem', None, x, y)


def fn(name, *a):
    """elementary function with a few exact folds"""
    x = a[0]
    if name == 'abs':
        if x.op == 'num':
            return num(abs(x.k))
        if x.op == 'neg':
            return fn('abs', x.a[0])
        if x.op == 'abs':
            return x
        if x in (INF, NINF):
            return INF
    elif name == 'sqrt':
        if x.op == 'num' and x.k >= 0:
            r = math.isqrt(Fraction(x.k).numerator), math.isqrt(Fraction(x.k).denominator)
            if r[0] ** 2 == Fraction(x.k).numerator and r[1] ** 2 == Fraction(x.k).denominator:
                return num(Fraction(r[0], r[1]))
    elif name == 'floor' and x.op == 'num':
        return num(math.floor(x.k))
    elif name == 'ceil' and x.op == 'num':
        return num(math.ceil(x.k))
    elif name in ('floor', 'ceil', 'round', 'trunc') and x.op in ('floor', 'ceil', 'round', 'trunc', 'i2f'):
        return x
    elif name in ('min', 'max'):
        xs = []
        for y in a:
            xs += list(y.a) if y.op == name else [y]
        ns = [y.k for y in xs if y.op == 'num']
        ys = {y.id: y for y in xs if y.op != 'num'}
        if name == 'min':
            ys = {i: y for i, y in ys.items() if y is not INF}
        else:
            ys = {i: y for i, y in ys.items() if y is not NINF}
        out = [ys[i] for i in sorted(ys)]
        if ns:
            out.append(num(min(ns) if name == 'min' else max(ns)))
        if not out:
            return x
        return out[0] if len(out) == 1 else mk(name, None, *out)
    return mk(name, None, *a)


# ---------------------------------------------------------------- comparisons -> bool

ENUMN = {}


def lt(x, y):
    if x.op == 'num' and y.op == 'num':
        return TRUE if x.k < y.k else FALSE
    if x is y:
        return FALSE
    if y is INF and x.op == 'num' or x is NINF and y.op == 'num' or x is NINF and y is INF:
        return TRUE
    if x is INF or y is NINF:
        return FALSE
    if _numtree(x) and _numtree(y):
        return _dist(lt, x, y)
    return atom(mk('lt', None, x, y))


def le(x, y):
    if NAN_AWARE[0]:
        if x.op == 'num' and y.op == 'num':
            return TRUE if x.k <= y.k else FALSE
        return atom(mk('le', None, x, y))
    return bnot(lt(y, x))


def _numtree(x):
    return x.op == 'num' or x.op == 'ite' and _numtree(x.a[1]) and _numtree(x.a[2])


def _dist(f, x, y):
    if x.op == 'ite':
        return bite(x.a[0], _dist(f, x.a[1], y), _dist(f, x.a[2], y))
    if y.op == 'ite':
        return bite(y.a[0], _dist(f, x, y.a[1]), _dist(f, x, y.a[2]))
    return f(x, y)


def eq(x, y):
    if is_bool(x) and is_bool(y):
        return bite(x, y, bnot(y))
    if x.op == 'num' and y.op == 'num':
        return TRUE if x.k == y.k else FALSE
    if x is y and not NAN_AWARE[0]:
        return TRUE
    if x.op in ('inf', 'ninf') and y.op in ('inf', 'ninf', 'num') or y.op in ('inf', 'ninf') and x.op == 'num':
        return TRUE if x is y else FALSE
    if x.op == 'num':
        x, y = y, x
    if x.op == 'ite' and (_numtree(x) or y.op == 'num') and (y.op == 'num' or _numtree(y)):
        return _dist2(x, y)
    if y.op == 'num' and y.k == 0 and x.op == 'bit&':
        for c, z in (x.a, x.a[::-1]):
            if c.op == 'num' and z.op == 'not':
                # none of the bits of c is clear in z
                return eq(bitand(c, z.a[0]), c)
    if y.op == 'num' and x.op == 'bit&' and isinstance(y.k, int) and y.k > 0 and y.k & (y.k - 1) == 0 and y in x.a:
        # a single bit is set or clear
        return bnot(atom(mk('eq', None, x, num(0))))
    if y.op == 'num' and x.id in ENUMN and isinstance(y.k, int):
        n = ENUMN[x.id]
        if y.k >= n or y.k < 0:
            return FALSE
        r = TRUE
        for j in range(y.k):
            r = band(r, bnot(atom(mk('eq', None, x, num(j)))))
        if y.k < n - 1:
            r = band(r, atom(mk('eq', None, x, y)))
        return r
    if y.op != 'num' and x.id > y.id:
        x, y = y, x
    return atom(mk('eq', None, x, y))


def _dist2(x, y):
    if x.op == 'ite':
        return bite(x.a[0], _dist2(x.a[1], y), _dist2(x.a[2], y))
    if y.op == 'ite':
        return bite(y.a[0], _dist2(x, y.a[1]), _dist2(x, y.a[2]))
    return eq(x, y)


# ---------------------------------------------------------------- aggregates

def adt(name, fields, variant=0):
    return mk('adt', (name, variant), *fields)


def tup(*f):
    return mk('adt', ('()', 0), *f)


UNIT = None


def arr(items):
    return mk('arr', None, *items)


def enum(name, shape, d, payload):
    """shape: tuple of field counts per variant; payload: flat list in variant order."""
    return mk('enum', (name, shape), d, *payload)


def enum_off(shape, v):
    return 1 + sum(shape[:v])


def some(x):
    return enum('Option', (0, 1), ONE, [x])


def none():
    return enum('Option', (0, 1), ZERO, [UNDEF])


def seq_len(v):
    if v.op == 'arr':
        return num(len(v.a))
    if v.op == 'push':
        return add(seq_len(v.a[0]), ONE)
    if v.op == 'store':
        return seq_len(v.a[0])
    if v.op == 'repeat':
        return v.a[1]
    if v.op == 'vecgen':
        return v.a[0]
    if v.op == 'slice':
        return sub(v.a[2], v.a[1])
    if v.op == 'ite':
        return ite(v.a[0], seq_len(v.a[1]), seq_len(v.a[2]))
    if v.op in ('sorted', 'reversed'):
        return seq_len(v.a[0])
    if v.op == 'append':
        return add(seq_len(v.a[0]), seq_len(v.a[1]))
    if v.op == 'popped':
        return sub(seq_len(v.a[0]), ONE)
    return mk('len', None, v)


def subst(n, m, memo=None):
    """replace nodes by id -> node; rebuilds through smart constructors. Respects binders by level numbering."""
    if memo is None:
        memo = {}
    r = m.get(n.id)
    if r is not None:
        return r
    r = memo.get(n.id)
    if r is not None:
        return r
    if not n.a:
        return n
    if n.op in ('loopres', 'vecgen') and '__d' in m and n.k[0] not in m['__d'] and any(n.k[0] in x.fv for i, x in m.items() if i != '__d'):
        n = rebind(n)
    if n.op in ('loopres', 'vecgen') and '__d' in m and n.k[0] in m['__d']:
        # the substituted level is rebound here: only the parts outside the binder are affected
        if n.op == 'vecgen':
            a = [subst(n.a[0], m, memo), n.a[1]]
        else:
            c = len(n.a) - n.k[2]
            a = list(n.a[:c]) + [subst(x, m, memo) for x in n.a[c:]]
    else:
        a = [subst(x, m, memo) for x in n.a]
    r = n if all(p is q for p, q in zip(a, n.a)) else rebuild(n, a)
    memo[n.id] = r
    return r


def rebind(n):
    """alpha-rename a binder to a fresh level so that a substituted value is not captured"""
    d = n.k[0]
    e = d + 100
    m = {mk('it', d).id: mk('it', e), '__d': ()}
    if n.op == 'loopres':
        for j in range(n.k[1]):
            m[mk('phi', (d, 'c%d' % j)).id] = mk('phi', (e, 'c%d' % j))
        c = len(n.a) - n.k[2]
        a = [subst(x, m) for x in n.a[:c]] + list(n.a[c:])
        return mk('loopres', (e,) + n.k[1:], *a)
    return mk('vecgen', (e,) + n.k[1:], n.a[0], subst(n.a[1], m))


def rebuild(n, a):
    op = n.op
    if op == 'B':
        v = a[0]
        return bite(v if is_bool(v) else atom(v), a[1], a[2])
    if op == 'add':
        return add(*a)
    if op == 'mul':
        return mul(*a)
    if op == 'neg':
        return neg(*a)
    if op == 'fdiv':
        return fdiv(*a)
    if op == 'idiv':
        return idiv(*a)
    if op == 'irem':
        return irem(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'lt':
        return lt(*a)
    if op == 'le':
        return le(*a)
    if op == 'eq':
        return eq(*a)
    if op in ('abs', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'min', 'max'):
        return fn(op, *a)
    if op == 'len':
        return seq_len(a[0])
    if op == 'idx':
        return idx_raw(a[0], a[1])
    if op == 'fld' and a[0].op == 'adt':
        return a[0].a[n.k[1]]
    if op == 'ref':
        return mk('ref', n.k, *a)
    if op == 'wrap':
        return wrap(n.k, a[0])
    if op == 'bit&':
        return bitand(*a)
    if op in ('bit|', 'bit^') and a[0].op == 'num' and a[1].op == 'num':
        x, y = int(a[0].k), int(a[1].k)
        return num({'bit&': x & y, 'bit|': x | y, 'bit^': x ^ y}[op])
    return mk(op, n.k, *a)


def bitand(x, y):
    if x.op == 'not' and y.op == 'num':
        x, y = y, x
    if x.op == 'num' and y.op == 'num':
        return num(int(x.k) & int(y.k))
    if x.op == 'num' and y.op == 'not' and y.a[0].op == 'num':
        return num(int(x.k) & ~int(y.a[0].k))
    if x.op == 'num' or y.op != 'num' and x.id > y.id:
        x, y = y, x
    if y.op == 'num' and y.k == 0:
        return num(0)
    return x if x is y else mk('bit&', None, x, y)


WIDTH = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64}


def wrap(t, x):
    if x.op == 'num' and t in WIDTH and x.k == int(x.k):
        v = int(x.k) % (1 << WIDTH[t])
        if t[0] == 'i' and v >> (WIDTH[t] - 1):
            v -= 1 << WIDTH[t]
        return num(v)
    return mk('wrap', t, x)


def idx_raw(v, i):
    """element i of a sequence value (no type-directed expansion)"""
    if v.op == 'arr' and i.op == 'num' and 0 <= i.k < len(v.a):
        return v.a[i.k]
    if v.op == 'arr' and 0 < len(v.a) <= 4:
        r = v.a[-1]
        for j in range(len(v.a) - 2, -1, -1):
            r = ite(eq(i, num(j)), v.a[j], r)
        return r
    if v.op == 'repeat':
        return v.a[0]
    if v.op == 'vecgen':
        return subst(v.a[1], {mk('it', v.k[0]).id: i, '__d': (v.k[0],)})
    if v.op == 'store':
        e = eq_int(v.a[1], i)
        if e is True:
            return v.a[2]
        if e is False:
            return idx_raw(v.a[0], i)
        if v.a[2].op not in ('adt', 'enum', 'arr') or True:
            return ite(eq(v.a[1], i), v.a[2], idx_raw(v.a[0], i))
    if v.op == 'push':
        l = seq_len(v.a[0])
        e = eq_int(l, i)
        if e is True:
            return v.a[1]
        if e is False:
            return idx_raw(v.a[0], i)
    if v.op == 'slice':
        return idx_raw(v.a[0], add(v.a[1], i))
    if v.op == 'ite':
        return ite(v.a[0], idx_raw(v.a[1], i), idx_raw(v.a[2], i))
    return mk('idx', None, v, i)


def eq_int(x, y):
    if x is y:
        return True
    d = sub(x, y)
    if d.op == 'num':
        return d.k == 0
    if x.op == 'add' and x.a[1].op == 'num' and (x.a[0] is y):
        return False
    if y.op == 'add' and y.a[1].op == 'num' and (y.a[0] is x):
        return False
    return None


def show(n, depth=6):
    o = n.op
    if o == 'num':
        return str(n.k if isinstance(n.k, int) or n.k.denominator < 10 ** 4 else float(n.k))
    if o == 'sym':
        return str(n.k)
    if o in ('true', 'false', 'undef', 'inf', 'ninf', 'nan'):
        return o
    if o == 'phi':
        return 'φ%d.%s' % (n.k[0], n.k[1])
    if o == 'it':
        return 'n%d' % n.k
    if depth <= 0:
        return '…'
    d = depth - 1
    s = [show(x, d) for x in n.a]
    if o in ('add', 'mul', 'fdiv', 'lt', 'le', 'eq', 'idiv', 'irem'):
        return '(%s %s %s)' % (s[0], {'add': '+', 'mul': '*', 'fdiv': '/', 'lt': '<', 'le': '<=', 'eq': '==', 'idiv': 'div', 'irem': 'mod'}[o], s[1])
    if o == 'neg':
        return '-' + s[0]
    if o == 'B':
        if n.a[1] is TRUE and n.a[2] is FALSE:
            return s[0]
        if n.a[1] is FALSE and n.a[2] is TRUE:
            return '!' + s[0]
        if n.a[2] is FALSE:
            return '(%s && %s)' % (s[0], s[1])
        if n.a[1] is TRUE:
            return '(%s || %s)' % (s[0], s[2])
        return '(%s ? %s : %s)' % tuple(s)
    if o == 'ite':
        return '(%s ? %s : %s)' % tuple(s)
    if o == 'fld':
        return '%s.%s' % (s[0], n.k[1] if n.k[0] in (None, 0) else '%s_%s' % n.k[:2])
    if o == 'idx':
        return '%s[%s]' % tuple(s)
    if o == 'adt':
        return '%s{%s}' % (str(n.k[0]).split('::')[-1], ', '.join(s))
    if o == 'enum':
        return '%s<%s>' % (n.k[0].split('::')[-1], ', '.join(s))
    return '%s%s(%s)' % (o, '' if n.k is None else ':' + str(n.k), ', '.join(s))


init_consts()
