"""Reading loop summaries: what a loop writes, what it enumerates, its first steps, the text a writer receives."""
import terms as T
import norm as N
import eval as E
from terms import mk, num, band, bor, bnot, TRUE, FALSE


class Loop(object):
    """a loopres node taken apart"""

    def __init__(self, n):
        self.n = n
        self.d, self.kk, self.ni = n.k
        self.term, self.cont = n.a[0], n.a[1]
        self.nexts, self.inits = n.a[2:2 + self.kk], n.a[2 + self.kk:]
        self.phis = [mk('phi', (self.d, 'c%d' % i)) for i in range(self.kk)]
        self.it = mk('it', self.d)

    def at(self, x, k, vals):
        """x in iteration k with the carried values vals"""
        m = {p.id: v for p, v in zip(self.phis, vals)}
        m[self.it.id] = num(k) if isinstance(k, int) else k
        m['__d'] = (self.d,)
        return T.subst(x, m)

    def start(self, x):
        return self.at(x, 0, self.inits)


def loops_in(n):
    """outermost loop nodes of a term"""
    out, seen = [], set()
    st = [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'loopres':
            out.append(x)
            continue
        st += list(x.a)
    return out


def replace(n, m, memo=None):
    mm = {'__d': ()}
    mm.update(m)
    return T.subst(n, mm, memo)


class Undecided(Exception):
    pass


def peel(n, prover, limit=3):
    """unroll loops whose course is decided under the prover's assumptions"""
    for _ in range(20):
        ls = loops_in(n)
        if not ls:
            return n
        m = {}
        for l in ls:
            if any(loops_in(x) for x in l.a[2 + l.k[1]:]):
                inner = [peel(x, prover, limit) for x in l.a[2 + l.k[1]:]]
                l2 = mk('loopres', l.k, *(list(l.a[:2 + l.k[1]]) + inner))
                m[l.id] = peel(l2, prover, limit) if l2 is not l else l2
                continue
            L = Loop(l)
            vals, k = list(L.inits), 0
            while True:
                c = L.at(L.cont, k, vals)
                c = peel(c, prover, limit) if loops_in(c) else c
                if prover.prove(c, FALSE) is None:
                    m[l.id] = L.at(L.term, k, vals)
                    break
                if k >= limit or prover.prove(c, TRUE) is not None:
                    raise Undecided('iteration %d of a loop is not decided: continues while %s' % (k, T.show(c, 6)))
                vals = [L.at(x, k, vals) for x in L.nexts]
                k += 1
        n2 = replace(n, m)
        if n2 is n:
            return n
        n = n2
    return n


def strip(n, memo=None):
    """drop value-preserving integer conversions everywhere"""
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    if not n.a:
        r = n
    else:
        a = [strip(x, memo) for x in n.a]
        if n.op == 'wrap':
            r = a[0]
        else:
            r = n if all(p is q for p, q in zip(a, n.a)) else T.rebuild(n, a)
    memo[n.id] = r
    return r


class Iter(object):
    """a loop driven by an opaque iterator: element leaves, the iterator it started from"""

    def __init__(self, L, call, elem, init):
        self.L, self.call, self.elem, self.init = L, call, elem, init


def flatten(n):
    if n.op in ('adt', 'arr', 'enum'):
        out = []
        for x in n.a:
            out += flatten(x)
        return out
    return [n]


def as_iter(ev, L, name, statety, elemty, covers=None):
    """the loop takes one element from `name` per iteration until it is exhausted
    covers: a list known to have one entry per element, walked at the same time"""
    calls = [x for x in N.subterms(L.cont) if x.op == 'call' and x.k == name]
    calls = list({c.id: c for c in calls}.values())
    if len(calls) != 1:
        return None
    c = calls[0]
    ex = ev.expand(('adt', 'std::option::Option', (elemty,)), c)
    some = T.eq(ex.a[0], num(1))
    both = some if covers is None else T.band(some, T.lt(L.it, T.seq_len(covers)))
    if N.Prover().prove(L.cont, some) is not None and N.Prover().prove(L.cont, both) is not None:
        return None
    st = c.a[0]
    after = ev.expand(statety, mk('callmut', (name, 0), st))
    vals = {p.id: (n, i) for p, n, i in zip(L.phis, L.nexts, L.inits)}
    for x, y in zip(flatten(st), flatten(after)):
        if x.op == 'phi':
            if x.id not in vals or vals[x.id][0] is not y:
                return None
        elif L.d in x.fv or x is not y:
            return None
    init = replace(st, {p.id: i for p, i in zip(L.phis, L.inits)})
    return Iter(L, c, ex.a[1], init)


class Write(object):
    def __init__(self, binders, guard, idx, val, prev):
        self.binders, self.guard, self.idx, self.val, self.prev = binders, guard, idx, val, prev


class NotWrites(Exception):
    pass


def writes(n, base, binders=(), guard=TRUE, out=None):
    """every store into the array `base` that `n` is made of: [Write]"""
    if out is None:
        out = []
    if n is base:
        return out
    if n.op == 'store':
        writes(n.a[0], base, binders, guard, out)
        out.append(Write(binders, guard, n.a[1], n.a[2], n.a[0]))
        return out
    if n.op == 'ite':
        writes(n.a[1], base, binders, band(guard, n.a[0]), out)
        writes(n.a[2], base, binders, band(guard, bnot(n.a[0])), out)
        return out
    if n.op == 'loopres':
        L = Loop(n)
        if L.term in L.phis:
            i = L.phis.index(L.term)
            writes(L.inits[i], base, binders, guard, out)
            writes(L.nexts[i], L.phis[i], binders + (L,), guard, out)
            return out
    raise NotWrites('the array is not made of stores into the previous one: ' + T.show(n, 4))


def counted(L):
    """(lo, hi, step) such that the loop runs for it = 0, 1, .. while lo + it < hi, or None"""
    c = L.cont
    if c.op != 'B':
        return None
    ats = list(T.bool_atoms(c).values())
    if len(ats) > 4 or T.band(*[T.atom(a) for a in ats]) is not c:
        return None
    found = []
    for a in ats:
        if a.op != 'lt':
            return None
        x, y = a.a
        d = T.sub(y, x)
        # trip count: d at it = 0, provided d falls by one per iteration
        d0 = replace(d, {L.it.id: num(0)})
        d1 = replace(d, {L.it.id: num(1)})
        if N.Prover().prove(T.sub(d0, d1), num(1)) is not None or L.d in d0.fv or any(p.id in {z.id for z in N.subterms(d)} for p in L.phis):
            return None
        if not any(N.Prover().prove(d0, f) is None for f in found):
            found.append(d0)
    n = found[0]
    for f in found[1:]:
        n = T.fn('min', n, f)
    return n


# ---------------------------------------------------------------- text sent to a writer

SINKS = {'write_all': 1, 'write_fmt': 1, 'write_str': 1, 'push_str': 1, 'write': 1, 'extend_from_slice': 1, 'push': 1}
PASS = ('as_bytes', 'as_str', 'into_bytes', 'as_ref', 'deref', 'must_use', 'to_string', 'to_owned', 'into_string', 'as_slice')


def last(s):
    s = s.split('::<')[0] if s.endswith('>') else s
    return s.split('::')[-1]


class Odd(Exception):
    pass


def text(n):
    """pieces of a byte string: ('lit', str) | ('val', node) | ('loop', Loop, pieces)"""
    if n.op == 'str':
        return [('lit', n.k)]
    if n.op == 'ref' and n.a:
        return text(n.a[0])
    if n.op == 'call':
        l = last(n.k)
        if l in PASS or l == 'format' or l == 'from' or l == 'into':
            return text(n.a[0])
        if n.k.startswith('std::fmt::Arguments') or n.k.startswith('core::fmt::Arguments'):
            if l in ('new', 'new_v1'):
                return template(n.a[0], n.a[1])
            if l in ('from_str', 'new_const', 'from_str_nonconst'):
                return text(n.a[0])
        if l in ('new', 'with_capacity') and 'String' in n.k or l in ('new', 'with_capacity') and 'Vec' in n.k:
            return []
    if n.op == 'callmut':
        return sent(n, None)
    if n.op == 'loopres':
        return sent(n, None)
    if n.op == 'arr':
        if all(x.op == 'num' for x in n.a):
            return [('lit', ''.join(chr(x.k) for x in n.a))]
    raise Odd('text of unknown origin: ' + T.show(n, 4))


def template(t, args):
    if t.op == 'ref' and t.a:
        t = t.a[0]
    if args.op == 'ref' and args.a:
        args = args.a[0]
    if t.op == 'str':
        raise Odd('format template')
    if t.op != 'arr' or args.op != 'arr':
        raise Odd('format template ' + T.show(t, 3))
    if all(x.op == 'str' for x in t.a):
        out = []
        for i, x in enumerate(t.a):
            out.append(('lit', x.k))
            if i < len(args.a):
                out.append(arg(args.a[i]))
        return out
    b = [x.k for x in t.a]
    out, i, nxt = [], 0, 0
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 128:
            out.append(('lit', bytes(b[i + 1:i + 1 + c]).decode('utf8', 'replace')))
            i += 1 + c
        elif c == 192:
            if nxt >= len(args.a):
                raise Odd('format template')
            out.append(arg(args.a[nxt]))
            nxt += 1
            i += 1
        else:
            raise Odd('formatting options in the template')
    return out


def arg(n):
    if n.op == 'call' and 'new_display' in n.k:
        x = n.a[0]
        if x.op == 'ref' and x.a:
            x = x.a[0]
        return ('val', x)
    raise Odd('a value is not printed in plain decimal form: ' + T.show(n, 3))


def sent(n, base):
    """everything written to a sink whose state went from `base` to `n` (base None: started empty)"""
    if base is not None and n is base:
        return []
    if n.op == 'callmut':
        l = last(n.k[0])
        if l == 'flush':
            return sent(n.a[0], base)
        if l in SINKS:
            x = n.a[SINKS[l]]
            return sent(n.a[0], base) + ([('lit', chr(x.k))] if x.op == 'num' else text(x))
        raise Odd('the writer is used by ' + n.k[0])
    if n.op == 'loopres':
        L = Loop(n)
        if L.term in L.phis:
            i = L.phis.index(L.term)
            return sent(L.inits[i], base) + [('loop', L, sent(L.nexts[i], L.phis[i]))]
    if n.op == 'call' and base is None:
        return text(n)
    raise Odd('what is written cannot be followed: ' + T.show(n, 4))


def tokens(ps):
    """words separated by blanks; a word is a list of pieces"""
    out, cur = [], []

    def flush():
        if cur:
            out.append(tuple(cur))
            del cur[:]
    for p in ps:
        if p[0] == 'lit':
            w = ''
            for ch in p[1]:
                if ch in ' \n\t\r':
                    if w:
                        cur.append(('lit', w))
                        w = ''
                    flush()
                else:
                    w += ch
            if w:
                if cur and cur[-1][0] == 'lit':
                    cur[-1] = ('lit', cur[-1][1] + w)
                else:
                    cur.append(('lit', w))
        elif p[0] == 'val':
            cur.append(p)
        else:
            inner = p[2]
            if cur and not starts_blank(inner):
                raise Odd('a value runs into the next one')
            flush()
            if inner and not ends_blank(inner) and not starts_blank(inner):
                raise Odd('values written in a loop run into each other')
            out.append(('loop', p[1], tokens(inner)))
    flush()
    return out


def starts_blank(ps):
    return bool(ps) and ps[0][0] == 'lit' and ps[0][1][:1] in (' ', '\n', '\t')


def ends_blank(ps):
    return bool(ps) and ps[-1][0] == 'lit' and ps[-1][1][-1:] in (' ', '\n', '\t')
