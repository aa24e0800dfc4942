"""Containers: closest hit, traversal and construction of the kd-tree."""
import math
import terms as T
import norm as N
import eval as E
import loops as LP
from terms import mk, num, band, bor, bnot, bite, TRUE, FALSE
from ck import V, Vec, S, fn, ap, xyz, Missing, n_, strip
from p_algebra import last
from p_light import fl, whole, Call, calls, traitret
from p_shape import Ieee, given, cond, impls


def dyn(t, trait):
    """the type refers to a trait object of that trait"""
    if isinstance(t, tuple):
        if t and t[0] == 'dyn':
            return any(last(x) == trait for x in t[1])
        return any(dyn(x, trait) for x in t)
    return False


def opt(t, trait):
    return t[0] == 'adt' and last(t[1]) == 'Option' and dyn(t, trait)


def hit_result(ck, ev, c, elem):
    """(hit?, leaves of the interaction with its shape set, parameter) of a call of Shape::intersect"""
    v = V(ev.expand(traitret(ck, 'Shape', 'intersect'), c), traitret(ck, 'Shape', 'intersect'), ev)
    i, t = v.some()[0], v.some()[1]
    out = []
    for k, f in enumerate(ck.M.adts[i.base()[1]]['v'][0]['f']):
        ft = ck.M.fieldty(i.base(), 0, k)
        out += [num(1), elem] if opt(ft, 'Shape') else fl(i.field(k))
    return v.isome(), out, t.n


def extent(ray):
    """the node of Ray.t_max of a ray argument of a call"""
    return fl(ray)[-1]


def bare(n):
    """what a shared pointer points to"""
    while n.op == 'ref' and n.k[0][0] == 'H' and not n.k[1] and n.a:
        n = n.a[0]
    return n


def unref(n):
    m = {}
    for x in N.subterms(n):
        if x.op == 'ref':
            y = bare(x)
            if y is not x:
                m[x.id] = y
    return LP.replace(n, m) if m else n


def element(arr, i):
    return bare(V(arr.n, arr.t, arr.ev)[V(i)].n)


class Fold(object):
    """the closest-hit update: state = (extent, found?, leaves of the interaction)"""

    def __init__(self, ck, ev, where, ray):
        self.ck, self.ev, self.where, self.ray, self.raynode = ck, ev, where, fl(ray), ray.n

    def upd(self, elem, ext, cur, j, c=None):
        """value j of the state after testing elem; j = -1 is the extent"""
        c = c if c is not None else mk('call', 'shape::Shape::intersect', elem, self.rayat(ext))
        h, leaves, t = hit_result(self.ck, self.ev, c, elem)
        new = t if j < 0 else ([num(1)] + leaves)[j]
        return T.ite(h, new, cur)

    def rayat(self, ext):
        m = {self.ray[-1].id: ext}
        return LP.replace(self.raynode, m)

    def loop(self, rule, n, arr, n_elems, ext0, cur0, j, pr=None):
        """n is value j after testing every element of arr in turn"""
        ck = self.ck
        # the loop's value, whatever it is if the loop is not entered
        if n.op != 'loopres':
            return ck.fail(rule, self.where, 'not every shape of the list is tested for the nearest hit: ' + T.show(n, 6))
        L = LP.Loop(n)
        if L.term not in L.phis:
            return ck.fail(rule, self.where, 'the result is not the last hit found: ' + T.show(L.term, 6))
        me = L.phis.index(L.term)
        ex = me if j < 0 else ([i for i in range(L.kk) if i != me and L.inits[i] is ext0] or [None])[0]
        if ex is None:
            return ck.fail(rule, self.where, 'the extent of the ray is not shortened to the nearest hit so far')
        elem = element(arr, L.it)
        pr = pr or N.Prover()
        ok = ck.same(rule, self.where, L.cont, T.lt(L.it, n_elems), pr)
        if not L.inits[me].op == 'undef' and cur0 is not None:
            ok = ok and ck.same(rule, self.where, L.inits[me], cur0, pr)
        ok = ok and ck.same(rule, self.where, unref(L.nexts[me]), self.upd(elem, L.phis[ex], L.phis[me], j), pr)
        if ok and ex != me:
            ck.same(rule, self.where, unref(L.nexts[ex]), self.upd(elem, L.phis[ex], L.phis[ex], -1), pr)
        return ok


def exists(ck, rule, where, n, arr, n_elems, test):
    """n tells whether the test holds for some element of arr"""
    neg = False
    c = n
    if T.is_bool(c) and c.op == 'B':
        if (c.a[1], c.a[2]) == (FALSE, TRUE):
            neg = True
        c = c.a[0]
    if c.op != 'loopres':
        return ck.fail(rule, where, 'not every shape of the list is tested: ' + T.show(n, 6))
    L = LP.Loop(c)
    elem = element(arr, L.it)
    h = test(elem)
    inside = T.lt(L.it, n_elems)
    term = cond(L.term)
    term = bnot(term) if neg else term
    if L.kk == 0:
        ok = ck.same(rule, where, L.cont, band(inside, bnot(h)))
        return ok and ck.same(rule, where, term, inside, N.Prover(assume=bnot(L.cont)))
    if L.kk == 1:
        f = cond(L.phis[0])
        ok = ck.same(rule, where, L.inits[0], FALSE if T.is_bool(L.inits[0]) else num(0))
        ok = ok and ck.same(rule, where, band(L.cont, bnot(f)), band(inside, bnot(f)))
        ok = ok and ck.same(rule, where, band(L.cont, cond(L.nexts[0])), band(L.cont, bor(f, h)))
        return ok and ck.same(rule, where, term, f)
    return ck.fail(rule, where, 'the search over the list is not recognised: ' + T.show(n, 6))


def listfield(ck, v, trait):
    """the field of v holding a list of trait objects"""
    out = []
    for k, f in enumerate(ck.M.adts[v.base()[1]]['v'][0]['f']):
        ft = ck.M.fieldty(v.base(), 0, k)
        if dyn(ft, trait):
            out.append(v.field(k))
    if len(out) != 1:
        raise Missing('no list of %s in %s' % (trait, v.base()[1]))
    return out[0]


def box_test(ck, r, where, ray):
    """the only test of the bounding box, with the whole ray, against the stored box"""
    bi = calls(ck, r.ev, 'intersect')
    bi = [c for c in bi if 'BBox3f' in c.name]
    u = {c.n.id: c for c in bi}
    if len(u) != 1:
        raise Missing('%s: expected one test of the bounding box, found %d' % (where, len(u)))
    c = list(u.values())[0]
    me = r.arg('self')
    boxes = [me.field(k) for k, f in enumerate(ck.M.adts[me.base()[1]]['v'][0]['f']) if last(str(ck.M.fieldty(me.base(), 0, k)[1])) == 'BBox3f']
    ck.require(any(fl(c.args[0]) == fl(b) for b in boxes), 'culling-by-the-box', where, 'the box tested is not the box of the container')
    ck.require(fl(c.args[1]) == fl(ray), 'culling-by-the-box', where, 'the box is not tested with the ray asked for')
    return c


def simple(ck, i):
    bi = ck.fn('BBox3f', 'intersect')
    a, b = i['im']['intersect'], i['im']['intersect_p']
    ra, rb = ck.run(a, 'self', 'ray', opaque=[bi]), ck.run(b, 'self', 'ray', opaque=[bi])
    for r, p in ((ra, a), (rb, b)):
        ray = r.arg('ray')
        c = box_test(ck, r, p, ray)
        shapes = listfield(ck, r.arg('self'), 'Shape')
        hit = c.v.isome()
        if p is a:
            f = Fold(ck, r.ev, p, ray)
            ck.same('missed-box', p, r.ret.isome(), FALSE, N.Prover(assume=bnot(hit)))
            for j, x in enumerate(fl(r.ret)):
                f.loop('closest-hit', given(x, hit), shapes, shapes.len().n, extent(ray), num(0) if j == 0 else None, j)
        else:
            ck.same('missed-box', p, r.ret.n, FALSE, N.Prover(assume=bnot(hit)))
            exists(ck, 'any-hit', p, given(r.ret.n, hit), shapes, shapes.len().n, lambda e: cond(mk('call', 'shape::Shape::intersect_p', e, ray.n)))


def cases(n, g=TRUE):
    """guarded alternatives of a value"""
    if n.op == 'ite':
        return cases(n.a[1], band(g, n.a[0])) + cases(n.a[2], band(g, bnot(n.a[0])))
    return [] if g is FALSE else [(g, n)]


def under(n, g):
    """n with the choices decided that the guard decides"""
    if n.op == 'ite':
        if band(g, bnot(n.a[0])) is FALSE:
            return under(n.a[1], g)
        if band(g, n.a[0]) is FALSE:
            return under(n.a[2], g)
        return T.ite(n.a[0], under(n.a[1], band(g, n.a[0])), under(n.a[2], band(g, bnot(n.a[0]))))
    return n


def pick(n, f):
    """a condition on a value, by its alternatives"""
    if n.op == 'ite':
        return bite(n.a[0], pick(n.a[1], f), pick(n.a[2], f))
    return f(n)


class Tree(object):
    """the traversal loop taken apart"""

    def __init__(self, ck, p):
        self.ck, self.p = ck, p
        bi = ck.fn('BBox3f', 'intersect')
        T.NAN_AWARE[0] = True
        try:
            self.r = r = ck.run(p, 'self', 'ray', opaque=[bi])
            self.setup()
        finally:
            T.NAN_AWARE[0] = False

    def setup(self):
        ck, p, r = self.ck, self.p, self.r
        ev = self.ev = r.ev
        self.ray, me = r.arg('ray'), r.arg('self')
        outer = [l for l in ev.loops if l.d == 0]
        if len(outer) != 1:
            raise Missing('%s: expected one traversal loop, found %d' % (p, len(outer)))
        L = self.L = outer[0]
        self.box = box_test(ck, r, p, self.ray)
        self.nodes = [me.field(k) for k, f in enumerate(ck.M.adts[me.base()[1]]['v'][0]['f']) if dyn(ck.M.fieldty(me.base(), 0, k), 'Shape') or 'Node' in str(ck.M.fieldty(me.base(), 0, k))][0]
        # roles of the carried values
        st = [i for i, n in enumerate(L.inits) if n.op == 'arr' and not n.a]
        if len(st) != 1:
            raise Missing('%s: the list of nodes still to visit is not found' % p)
        self.todo = L.phis[st[0]]
        self.todo2 = L.nexts[st[0]]
        u = whole(self.box.v.some()) if self.box.v.some().t else fl(self.box.v.n)[1:]
        used = [i for i in range(len(L.phis)) if any(x.op == 'idx' and x.a[1] is L.phis[i] for n in L.nexts for x in N.subterms(n))]
        ndi = [i for i in used if L.phis[i] is not self.todo]
        lo = [i for i, n in enumerate(L.inits) if n is u[0]]
        hi = [i for i, n in enumerate(L.inits) if n is u[1]]
        if len(ndi) != 1 or len(lo) != 1 or len(hi) != 1:
            raise Missing('%s: the current node and its interval are not found' % p)
        self.roles = [ndi[0], lo[0], hi[0]]
        self.state = [L.phis[i] for i in self.roles]
        self.next = [L.nexts[i] for i in self.roles]
        ck.require(L.inits[ndi[0]] is num(0), 'starts-at-the-root', p, 'the traversal starts at node ' + T.show(L.inits[ndi[0]], 3))
        ext = [i for i, n in enumerate(L.inits) if n is extent(self.ray)]
        self.ext = L.phis[ext[0]] if ext else extent(self.ray)
        self.exti = ext[0] if ext else None
        self.node = self.nodes[V(self.state[0])]
        a = ck.M.adts[self.node.base()[1]]
        self.kind = {}
        for k in range(len(a['v'])):
            fs = [ck.M.fieldty(self.node.base(), k, j) for j in range(len(a['v'][k]['f']))]
            kd = 'empty' if not fs else 'split' if ('prim', 'usize') in fs else 'shapes' if 'slice' in str(fs) or 'Vec' in str(fs) else 'shape'
            self.kind.setdefault(kd, []).append((k, fs))
        if len(self.kind.get('split', ())) != 1:
            raise Missing('%s: the kind of interior nodes is not found' % p)
        k, fs = self.kind['split'][0]
        self.split = T.eq(self.node.n.a[0], num(k))
        self.axis = self.node.field([j for j, t in enumerate(fs) if t[0] == 'adt' and last(t[1]) == 'Axis'][0], k)
        self.at = self.node.field(fs.index(('prim', 'f32')), k).n
        self.upper = self.node.field(fs.index(('prim', 'usize')), k).n
        self.lower = T.add(self.state[0], num(1))
        # the element types of the list: positions of node, near and far
        self.elem = {}
        self.dropped = T.lt(self.ext, self.state[1])

    def frame(self, leaves):
        return [leaves[self.pos[i]] for i in range(3)]


def traversal(ck, p):
    t = Tree(ck, p)
    T.NAN_AWARE[0] = True
    try:
        obs = coverage(ck, p, t)
    finally:
        T.NAN_AWARE[0] = False
    classes(ck, p, t, obs)
    return t


def coverage(ck, p, t):
    """(rule, assumption, conclusion) about one step of the traversal"""
    L, s = t.L, mk('sym', 's')
    node, lo, hi = t.state
    # the entries remembered for later: which part is the node, the near end, the far end
    t.pos = {}
    last_ = T.sub(T.seq_len(t.todo), num(1))
    kinds = set()
    for g, x in cases(t.todo2):
        if x is t.todo:
            kinds.add('keep')
        elif x.op == 'push' and x.a[0] is t.todo:
            kinds.add('push')
        elif x.op == 'popped' and x.a[0] is t.todo:
            kinds.add('pop')
            for i in range(3):
                y = under(t.next[i], band(g, L.cont))
                good = y.op == 'fld' and y.a[0].op == 'idx' and y.a[0].a[0] is t.todo and N.Prover().prove(y.a[0].a[1], last_) is None
                if not ck.require(good and t.pos.setdefault(i, y.k[1]) == y.k[1], 'takes-up-the-last', p,
                                  'after a leaf the %s is %s, not that of the entry remembered last' % (('node', 'near end', 'far end')[i], T.show(y, 6))):
                    return []
        else:
            raise Missing('%s: the list of nodes still to visit becomes %s' % (p, T.show(x, 5)))
    if kinds != {'keep', 'push', 'pop'}:
        raise Missing('%s: no node is remembered for later, or none is taken up again' % p)

    def part(entry, i):
        return entry.a[t.pos[i]]
    obs = []
    k = t.axis.n.a[0] if t.axis.n.op == 'enum' else t.axis.n
    t.k = k
    o, d = xyz(t.ray.origin), xyz(t.ray.direction)
    inside = band(bnot(T.lt(s, lo)), bnot(T.lt(hi, s)), bnot(T.lt(t.ext, s)))
    def covered(f, child):
        return band(pick(f[0], lambda x: T.eq(x, child)), bnot(pick(f[1], lambda x: T.lt(s, x))), bnot(pick(f[2], lambda x: T.lt(x, s))))

    for name, child in (('lower', t.lower), ('upper', t.upper)):
        pre = band(t.split, inside)
        obs.append(('no-early-end', name, pre, L.cont))
        for (g, x) in cases(t.todo2):
            if x is t.todo:
                c = covered(t.next, child)
            elif x.op == 'popped':
                c = FALSE
            else:
                c = bor(covered(t.next, child), covered([part(x.a[1], i) for i in range(3)], child))
            obs.append(('covers-the-%s-child' % name, name, band(pre, g, L.cont), c))
    return obs


def classes(ck, p, t, obs):
    s = mk('sym', 's')
    o, d = xyz(t.ray.origin), xyz(t.ray.direction)
    node, lo, hi = t.state
    ts, pp, w, z, wa, wb, wr = [mk('sym', x) for x in ('ts', 'dp', 'w', 'z', 'wa', 'wb', 'wr')]
    n = 0
    for ax in range(3):
        ways = []
        for sg, dn in ((1, 'forward through'), (-1, 'backward through')):
            dd = pp if sg > 0 else T.neg(pp)
            for what, tv, sv, before in (('before', T.add(s, w), s, True), ('past', ts, T.add(ts, w), False), ('past', T.neg(z), s, False)):
                m = {t.k.id: num(ax), d[ax].n.id: dd, o[ax].n.id: T.sub(t.at, T.mul(dd, tv))}
                ways.append((dn, 'lower' if before == (sg > 0) else 'upper', m, {}, sv))
        for an, av in (('below', -1.), ('above', 1.), ('in', 0.)):
            for zero in (0., -0.):
                f = {t.at.id: 0., o[ax].n.id: av, d[ax].n.id: zero}
                for side in ('lower', 'upper'):
                    if av == 0 or (av < 0) == (side == 'lower'):
                        ways.append(('parallel to and ' + an, side, {t.k.id: num(ax)}, f, s))
        for dn, side, m, f, sv in ways:
            for av in (None, math.nan):
                for bv in (None, math.nan, math.inf):
                    for rv in (None, math.inf):
                        fm, m2 = dict(f), dict(m)
                        for x, v, y in ((lo, av, T.sub(sv, wa)), (hi, bv, T.add(sv, wb)), (t.ext, rv, T.add(sv, wr))):
                            if v is None:
                                m2[x.id] = y
                            else:
                                fm[x.id] = v
                        m2[s.id] = sv
                        q = Ieee(fm)
                        pr = N.Prover(pos=[s, pp, ts], nn=[w, z, wa, wb, wr])
                        for rule, child, a, c in obs:
                            if child == side:
                                T.NAN_AWARE[0] = True
                                x = LP.replace(bor(bnot(a), c), m2)
                                T.NAN_AWARE[0] = False
                                r = pr.prove(q.bool(x), TRUE, 'step')
                                ck.require(r is None, rule, p, 'a ray %s the split plane can lose the %s child (interval %s..%s): %s' % (dn, child, av, bv, r.text() if r else ''), key='%s|%s' % (rule, p))
                        n += 1
    ck.floor('ray classes', n, 200)


def leaves(ck, t):
    """(kind, variant condition, payload) of the kinds of leaves"""
    out = []
    for kd in ('empty', 'shape', 'shapes'):
        for k, fs in t.kind.get(kd, ()):
            v = [t.node.field(j, k) for j, ft in enumerate(fs) if dyn(ft, 'Shape')]
            out.append((kd, T.eq(t.node.n.a[0], num(k)), v[0] if v else None))
    return out


def nearest(ck, p, t):
    """every leaf updates the nearest hit; nothing else does"""
    L, r = t.L, t.r
    hit = t.box.v.isome()
    ret = [unref(given(L.unwrap(x), hit)) for x in fl(r.ret)]
    ck.same('missed-box', p, r.ret.isome(), FALSE, N.Prover(assume=bnot(hit)))
    kinds = leaves(ck, t)
    if t.exti is None:
        return ck.fail('closest-hit', p, 'the extent of the ray is not shortened to the nearest hit so far')
    f = Fold(ck, t.ev, p, t.ray)
    # the carried value behind each part of the result
    empty = [c for kd, c, _ in kinds if kd == 'empty']
    q = [t.exti]
    for j, x in enumerate(ret):
        x = x
        for kd, c, _ in kinds:
            if kd == 'empty':
                x = under(given(x, c), band(c, bnot(L.cont)))
        if x not in L.phis:
            raise Missing('%s: the nearest hit is not carried through the traversal: %s' % (p, T.show(x, 5)))
        q.append(L.phis.index(x))
    ck.same('nothing-hit-at-first', p, L.inits[q[1]], num(0))
    reach = [(x, j - 1, L.phis[q[j]]) for j, x in enumerate([None] + ret)]
    for j, i in enumerate(q):
        cur = L.phis[i]
        for what, val, g in (('next', unref(L.nexts[i]), L.cont),) + ((('result', ret[j - 1], bnot(L.cont)),) if j else ()):
            x = under(val, band(g, t.split))
            ck.same('only-shapes-change-the-hit', p, x, cur, N.Prover(assume=band(g, t.split)))
            for kd, c, v in kinds:
                seen = band(c, g, bnot(t.dropped))
                x = under(given(val, seen), seen)
                pr = N.Prover(assume=seen)
                if kd == 'empty':
                    ck.same('closest-hit', p, x, cur, pr)
                elif kd == 'shape':
                    ck.same('closest-hit', p, x, f.upd(bare(v.n), t.ext, cur, j - 1), pr)
                else:
                    f.loop('closest-hit', x, v, v.len().n, t.ext, cur, j - 1)
                gone = band(c, g, t.dropped)
                x = under(given(val, gone), gone)
                if x is not cur:
                    ck.same('closest-hit', p, x, cur, N.Prover(assume=gone))


def anyhit(ck, p, t):
    L, r = t.L, t.r
    hit = t.box.v.isome()
    ck.same('missed-box', p, r.ret.n, FALSE, N.Prover(assume=bnot(hit)))
    kinds = leaves(ck, t)
    test = lambda e: cond(mk('call', 'shape::Shape::intersect_p', e, t.ray.n))
    ret, go = L.unwrap(given(r.ret.n, hit)), L.cont
    # searches of lists of shapes stand for what they find
    found, m = {}, {}
    for n in (ret, go):
        for x in N.subterms(n):
            if x.op == 'loopres' and x.id not in m:
                for kd, c, v in kinds:
                    if kd == 'shapes' and any(y is LP.Loop(x).it for z in N.subterms(LP.Loop(x).cont) for y in [z]):
                        ok = exists(ck, 'any-hit', p, T.atom(x), v, v.len().n, test)
                        m[x.id] = cond(mk('sym', 'hit in list'))
                        found[kd] = m[x.id]
    ret, go = LP.replace(ret, m), LP.replace(go, m)
    for kd, c, v in kinds:
        h = FALSE if kd == 'empty' else test(bare(v.n)) if kd == 'shape' else cond(mk('sym', 'hit in list'))
        seen = band(c, bnot(t.dropped), h)
        ck.implies('any-hit', p, seen, bnot(go), what='a hit ends the search')
        ck.implies('any-hit', p, band(seen, bnot(go)), ret, what='a hit is reported')
        ck.implies('any-hit', p, band(c, bnot(h), bnot(go)), bnot(ret), what='no hit, none reported')
    ending(ck, p, t, L.unwrap(given(r.ret.n, hit)))
    ck.implies('any-hit', p, band(t.split, bnot(go)), bnot(ret), what='interior nodes are no hit')


def ending(ck, p, t, done=FALSE):
    """the traversal ends when nothing is left to visit, and every step but those into children takes up an entry"""
    L = t.L
    left = bnot(T.eq(T.seq_len(t.todo), num(0)))
    over = band(bnot(t.split), L.cont)
    ck.implies('visits-everything', p, band(bnot(L.cont), bnot(done)), bnot(left), what='the traversal ends only if no node is left to visit')
    for g, x in cases(t.todo2):
        if not (x.op == 'popped'):
            ck.require(band(g, over) is FALSE or N.Prover().prove(band(g, over), FALSE) is None, 'leaf-visited-once', p, 'a leaf is not left after its visit')
        else:
            ck.implies('takes-up-the-last', p, band(g, L.cont), left, what='there is an entry to take up')


def containers(ck):
    n = 0
    for i in ck.M.impls:
        if (i.get('trait') or '').split('::')[-1] != 'Container':
            continue
        n += 1
        a, b = i['im'].get('intersect'), i['im'].get('intersect_p')
        st = strip(ck.M.bodies[a].locals[1])
        if any(dyn(ck.M.fieldty(st, 0, k), 'Shape') for k in range(len(ck.M.adts[st[1]]['v'][0]['f']))):
            simple(ck, i)
            continue
        t = traversal(ck, a)
        ending(ck, a, t)
        nearest(ck, a, t)
        t = traversal(ck, b)
        anyhit(ck, b, t)
    ck.floor('containers', n, 2)
    # the scene asks its container
    for m in ('intersect', 'intersect_p'):
        p = ck.fn('Scene', m)
        r = ck.run(p, 'self', 'ray')
        cs = calls(ck, r.ev, m, r.rett)
        ok = len({c.n.id for c in cs}) == 1 and cs[0].pc is TRUE and fl(cs[0].args[1]) == fl(r.arg('ray')) and N.subterms(cs[0].args[0])
        if ck.require(ok, 'scene-asks-container', p, 'the scene does not ask its container once, with the ray it is given'):
            ck.same('scene-asks-container', p, fl(r.ret), fl(cs[0].v))


def C15(ck):
    ck.technique = ('Inductive invariants on the evaluated MIR of both containers: each visited shape replaces the hit if and only if it is hit within the extent shortened so far, and every step of the '
                    'k-d tree traversal keeps each point of the ray within an interval still to be visited, for all IEEE classes of ray direction and interval bounds (zeros of both signs, NaN, infinity).')
    ck.assumptions = ['real arithmetic along axes on which the ray moves', 'Shape::intersect only reports hits within the extent of its ray (C18, C19)', 'leaves hold all shapes that reach into them (C17)']
    containers(ck)


# ---------------------------------------------------------------- construction

def ever(n, memo=None):
    """carried values that only ever become one loop-invariant value are told by whether they did"""
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    if not n.a:
        return n
    if bare(n) is not n:
        r = memo[n.id] = ever(bare(n), memo)
        return r
    a = [ever(x, memo) for x in n.a]
    if n.op != 'loopres':
        r = n if all(p is q for p, q in zip(a, n.a)) else T.rebuild(n, a)
    else:
        r = once(prune(mk('loopres', n.k, *a)))
    memo[n.id] = r
    return r


def prune(n):
    """a loop without the carried values its result does not depend on"""
    L = LP.Loop(n)
    if L.d is None:
        return n
    keep = [i for i in range(L.kk) if L.nexts[i] is not L.phis[i]]
    m = {L.phis[i].id: L.inits[i] for i in range(L.kk) if i not in keep and L.d not in L.inits[i].fv}
    if any(i not in keep and L.phis[i].id not in m for i in range(L.kk)):
        return n
    f = (lambda x: LP.replace(x, m)) if m else (lambda x: x)
    term, cont, nexts = f(L.term), f(L.cont), [f(x) for x in L.nexts]
    live, todo = set(), [term, cont]
    while todo:
        ns = {x.id for x in N.subterms(todo.pop())}
        for i in keep:
            if L.phis[i].id in ns and i not in live:
                live.add(i)
                todo.append(nexts[i])
    live = sorted(live)
    if len(live) == L.kk:
        return n
    if not live and L.d not in term.fv:
        return term
    m = {L.phis[i].id: mk('phi', (L.d, 'c%d' % q)) for q, i in enumerate(live)}
    m['__d'] = (L.d,)
    g = lambda x: T.subst(x, m)
    k = len(live)
    return mk('loopres', (L.d, k, k), g(term), g(cont), *([g(nexts[i]) for i in live] + [L.inits[i] for i in live]))


def once(n):
    if n.op != 'loopres':
        return n
    L = LP.Loop(n)
    if L.term not in L.phis:
        return n
    j = L.phis.index(L.term)
    c, v = FALSE, None
    if L.nexts[j] is L.term:
        return L.inits[j]
    for g, x in cases(L.nexts[j]):
        if x is L.term:
            continue
        if v is not None and x is not v or L.d in x.fv:
            return n
        v, c = x, bor(c, g)
    if v is None:
        return n
    keep, todo = [], [c, L.cont]
    while todo:
        ns = {x.id for x in N.subterms(todo.pop())}
        for i, p in enumerate(L.phis):
            if p.id in ns and i not in keep:
                keep.append(i)
                todo.append(L.nexts[i])
    if j in keep:
        return n
    keep.sort()
    m = {L.phis[i].id: mk('phi', (L.d, 'c%d' % q)) for q, i in enumerate(keep)}
    m['__d'] = (L.d,)
    f = lambda x: T.subst(x, m)
    e = mk('phi', (L.d, 'c%d' % len(keep)))
    k = len(keep) + 1
    b = mk('loopres', (L.d, k, k), T.atom(e), f(L.cont), *([f(L.nexts[i]) for i in keep] + [bor(T.atom(e), f(c))] + [L.inits[i] for i in keep] + [FALSE]))
    return T.ite(T.atom(b), v, L.inits[j])


def flags(n):
    """conditions told by a loop"""
    out = []
    for x in N.subterms(n):
        if x.op == 'B' and x.a[0].op == 'loopres' and x.a[0] not in out:
            out.append(x.a[0])
    return out


def decided(vals, pc):
    """the values under every feasible outcome of the searches they depend on"""
    out = []
    todo = [([], vals, pc)]
    while todo:
        path, vs, g = todo.pop()
        if g is FALSE:
            continue
        fs = [f for v in vs + [g] for f in flags(v)]
        # innermost first: one that depends on no other
        fs = [f for f in fs if not any(h is not f for h in flags(f))]
        fs = [f for f in fs if f.id not in path]
        if not fs:
            out.append((vs, g))
            continue
        f = fs[0]
        for b in (TRUE, FALSE):
            m = {f.id: b}
            todo.append((path + [f.id], [LP.replace(v, m) for v in vs], LP.replace(g, m)))
        if len(out) > 64:
            raise Missing('too many cases in the construction of the tree')
    return out


def edge_list(ck, where, e, ax, shapes, bb):
    """e is the sorted list of both bounds of every shape along axis ax: (type of lower bounds, type field, bound field, shape field) or None"""
    if e.op != 'sorted' or e.k not in ('sort_by', 'sort_unstable_by') or len(e.a) != 2:
        ck.fail('edges-sorted', where, 'the bounds of the shapes are not sorted: ' + T.show(e, 4))
        return None
    raw, cl = e.a
    items = None
    if raw.op == 'loopres':
        L = LP.Loop(raw)
        if L.term in L.phis:
            j = L.phis.index(L.term)
            x, items = L.nexts[j], []
            while x.op == 'push':
                items.insert(0, x.a[1])
                x = x.a[0]
            if x is not L.term or L.inits[j].op != 'arr' or L.inits[j].a:
                items = None
            elif ck.same('edges-of-every-shape', where, L.cont, T.lt(L.it, shapes.len().n)) is not True:
                return None
    if items is None or len(items) != 2 or any(x.op != 'adt' for x in items):
        ck.fail('edges-of-every-shape', where, 'the list is not made of two bounds of every shape: ' + T.show(raw, 5))
        return None
    s = element(shapes, L.it)
    box = V(mk('call', 'shape::Shape::bbox', s), traitret(ck, 'Shape', 'bbox'), shapes.ev)
    box = V(shapes.ev.expand(box.t, box.n), box.t, box.ev)
    want = {'lower': xyz(box.min)[ax].n, 'upper': xyz(box.max)[ax].n}
    roles = {}
    for x in items:
        fs = [unref(y) for y in x.a]
        sh = [k for k, y in enumerate(fs) if bare(y) is s]
        ty = [k for k, y in enumerate(fs) if y.op == 'enum']
        tt = [k for k in range(len(fs)) if k not in sh + ty]
        if len(sh) != 1 or len(ty) != 1 or len(tt) != 1:
            ck.fail('edges-of-every-shape', where, 'a bound is not recorded with its shape and kind: ' + T.show(x, 5))
            return None
        w = [k for k, y in want.items() if N.Prover().prove(y, fs[tt[0]]) is None]
        if not w:
            ck.fail('edges-of-every-shape', where, 'the bound recorded is not a bound of the shape along the axis: ' + T.show(fs[tt[0]], 6))
            return None
        roles[w[0]] = (fs[ty[0]].a[0], ty[0], tt[0], sh[0])
    if len(roles) != 2 or roles['lower'][1:] != roles['upper'][1:] or roles['lower'][0] is roles['upper'][0]:
        ck.fail('edges-of-every-shape', where, 'not both bounds of every shape are recorded')
        return None
    ck.ok('edges-of-every-shape', where)
    # the order: by bound, lower bounds before upper bounds where they coincide
    cp = cl.k[0][1] if cl.op == 'adt' and cl.k[0][0] == 'closure' else None
    if cp is None:
        ck.fail('edges-sorted', where, 'the order of the bounds is not understood')
        return None
    r = ck.run(cp, 'c', 'a', 'b')
    lo, up = roles['lower'][0], roles['upper'][0]
    a, b = r.arg('a'), r.arg('b')
    d = lambda v: v.field(roles['lower'][1]).n.a[0]
    t = lambda v: v.field(roles['lower'][2]).n
    o = r.ret.n.a[0]
    ords = ck.M.adts[[k for k in ck.M.adts if last(k) == 'Ordering' and 'cmp' in k][0]]['v'] if any(last(k) == 'Ordering' and 'cmp' in k for k in ck.M.adts) else None
    less, equal, more = num(0), num(1), num(2)
    ck.same('order-by-bound', cp, o, less, N.Prover(assume=T.lt(t(a), t(b))))
    ck.same('order-by-bound', cp, o, more, N.Prover(assume=T.lt(t(b), t(a))))
    tie = T.eq(t(a), t(b))
    for x, y, w in ((lo, up, less), (up, lo, more), (lo, lo, equal), (up, up, equal)):
        ck.same('order-lower-first', cp, o, w, N.Prover(assume=band(tie, T.eq(d(a), x), T.eq(d(b), y))))
    return roles


def selection(ck, where, s, side, t, ax, shapes, bb, sel):
    """s holds every shape that reaches to that side of the split position t"""
    if s.op != 'loopres':
        return ck.fail('child-gets-its-shapes', where, 'the shapes of the %s child are not chosen from the sorted bounds: %s' % (side, T.show(s, 5)))
    L = LP.Loop(s)
    if L.term not in L.phis or L.inits[L.phis.index(L.term)].op != 'arr' or L.inits[L.phis.index(L.term)].a:
        return ck.fail('child-gets-its-shapes', where, 'the shapes of the %s child are not collected in a list: %s' % (side, T.show(s, 5)))
    j = L.phis.index(L.term)
    took = FALSE
    idxs = {}
    for g, x in cases(L.nexts[j]):
        if x is L.term:
            continue
        if x.op != 'push' or x.a[0] is not L.term:
            return ck.fail('child-gets-its-shapes', where, 'the list of the %s child does not only grow: %s' % (side, T.show(x, 4)))
        took = bor(took, g)
        y = bare(unref(x.a[1]))
        if y.op != 'fld' or y.a[0].op != 'idx':
            return ck.fail('child-gets-its-shapes', where, 'the %s child gets something that is not a shape of the list: %s' % (side, T.show(y, 5)))
        idxs[y.a[0].id] = y.a[0]
    if len(idxs) != 1:
        return ck.fail('child-gets-its-shapes', where, 'the %s child gets shapes from several places' % side)
    el = list(idxs.values())[0]
    e, at = el.a
    if L.d in e.fv:
        return ck.fail('child-gets-its-shapes', where, 'the list of bounds changes while it is read')
    # the split position is a bound in the same list
    tb = unref(t)
    if tb.op != 'fld' or tb.a[0].op != 'idx' or tb.a[0].a[0] is not e:
        return ck.fail('split-at-a-bound', where, 'the split position is not a bound in the list the %s child is chosen from: %s' % (side, T.show(tb, 5)))
    ck.ok('split-at-a-bound', where)
    b = tb.a[0].a[1]
    roles = sel.get(e.id)
    if roles is None:
        roles = sel[e.id] = edge_list(ck, where, e, ax, shapes, bb) or ()
    if not roles:
        return None
    ck.require(tb.k == (0, roles['lower'][2]) or tb.k[1] == roles['lower'][2], 'split-at-a-bound', where, 'the split position is not the position of a bound')
    kind = roles['lower' if side == 'lower' else 'upper'][0]
    lo = T.subst(at, {L.it.id: num(0), '__d': (L.d,)})
    step = T.sub(at, lo)
    if N.Prover().prove(LP.strip(step), L.it) is not None:
        return ck.fail('child-gets-its-shapes', where, 'the bounds are not read one after another: position ' + T.show(at, 5))
    lo = LP.strip(lo)
    cont = L.cont
    idx = T.add(lo, L.it)
    two = V(T.seq_len(e)).n
    isk = T.eq(V(el).n.op == 'x' and num(0) or T.mk('discr', None, mk('fld', (0, roles['lower'][1]), el)), kind)
    ln = T.mul(num(2), shapes.len().n)
    nn = [L.it, b, shapes.len().n]
    # the part of the list that must be read
    if side == 'lower':
        ck.implies('child-gets-its-shapes', where, band(T.le(num(0), b), bnot(T.eq(lo, num(0)))), FALSE, what='the shapes of the lower child are looked for from the first bound on')
        # the bound at b was read
        ck.implies('child-gets-its-shapes', where, band(T.lt(idx, b), T.lt(b, ln)), LP.strip(LP.replace(cont, {two.id: ln})), N.Prover(nn=nn), what='all bounds before the split are looked at for the lower child')
    else:
        ck.implies('child-gets-its-shapes', where, TRUE, T.le(lo, T.add(b, num(1))), N.Prover(nn=nn), what='the shapes of the upper child are looked for from the split on')
        ck.implies('child-gets-its-shapes', where, T.lt(idx, ln), LP.strip(LP.replace(cont, {two.id: ln})), N.Prover(nn=nn), what='all bounds after the split are looked at for the upper child')
    return isk, took


def nodekinds(ck, nt):
    """variant number -> kind of node"""
    out = {}
    for v, a in enumerate(ck.M.adts[nt[1]]['v']):
        ts = [ck.M.fieldty(nt, v, k) for k in range(len(a['f']))]
        if not ts:
            out[v] = 'empty'
        elif len(ts) == 1 and dyn(ts[0], 'Shape'):
            b = strip(ts[0])
            out[v] = 'shapes' if b[0] in ('slice', 'array', 'boxptr') or b[0] == 'adt' and last(b[1]) in ('Vec', 'Box') else 'shape'
        else:
            out[v] = 'split'
    return out


def ordinal(ck, n):
    """number of an enum value without payload"""
    return T.mk('discr', None, n) if n.op not in ('enum', 'adt') else n.a[0]


def unboxed(n):
    """the value in a box"""
    while True:
        m = bare(unref(n))
        if m.op == 'adt' and len(m.a) == 1 and m.k == ('Box', 0):
            m = m.a[0]
        if m is n:
            return n
        n = m


def whole_shapes(n, want):
    return unboxed(n) is unboxed(want)


def C17(ck):
    ck.technique = ('Symbolic dataflow over the evaluated MIR of the recursive construction: for every outcome of the split search, the lists handed to the two children are proved to hold every shape with a bound on '
                    'their side of the split position, the stored node is proved to refer to that position and to the child built, and the leaf to hold all its shapes.')
    ck.assumptions = ['a shape lies within its bounding box (C31, C39)', 'sort_by sorts', 'no bound of a box is NaN']
    KD = [k for k in ck.M.adts if last(k) == 'KdTree']
    if len(KD) != 1:
        raise Missing('the k-d tree is not found')
    import graph as G
    cg = G.calls(ck.M)
    rec = [p for p in cg if p in cg[p] and p.startswith(KD[0] + '::') and '{' not in p]
    if len(rec) != 1:
        raise Missing('expected one recursive construction function of the k-d tree, found %d' % len(rec))
    p = rec[0]
    b = ck.M.bodies[p]
    names = ['a%d' % i for i in range(b.argc)]
    role = {}
    for i, nm in enumerate(names):
        t = strip(b.locals[i + 1])
        if t[0] == 'adt' and t[1] == KD[0]:
            role['tree'] = i
        elif dyn(t, 'Shape'):
            role['shapes'] = i
    if len(role) != 2:
        raise Missing('%s: the tree and the list of shapes are not found among the arguments' % p)
    op = [p] + [x.path for x in ck.M.method('BBox3f', 'max_extent')]
    r = ck.run(p, *names, opaque=op)
    tree, shapes = r.arg(names[role['tree']]), r.arg(names[role['shapes']])
    shapes = V(unboxed(shapes.n), shapes.t, r.ev)
    tt = tree.base()
    nf = [k for k in range(len(ck.M.adts[tt[1]]['v'][0]['f'])) if ck.M.fieldty(tt, 0, k)[0] == 'adt' and last(ck.M.fieldty(tt, 0, k)[1]) == 'Vec']
    if len(nf) != 1:
        raise Missing('no list of nodes in the k-d tree')
    nf = nf[0]
    n0 = tree.field(nf)
    nt = n0.t[2][0]
    kinds = nodekinds(ck, nt)
    out = r.out(names[role['tree']])
    # everything else of the tree stays
    for k in range(len(ck.M.adts[tt[1]]['v'][0]['f'])):
        if k != nf:
            ck.require(kept(r.ev, p, role, tt, k, fl(out.field(k))) == fl(tree.field(k)), 'box-stays', p, 'building nodes changes another part of the tree')
    final = out.field(nf).n
    # the first axis tried is any
    ds = [x for x in N.subterms(final) if x.op == 'discr' and x.a[0].op == 'call' and 'max_extent' in str(x.a[0].k)]
    vals = [final]
    if len(ds) == 1:
        vals = [LP.replace(final, {ds[0].id: num(k)}) for k in range(3)]
    elif ds:
        raise Missing('%s: more than one choice of the first axis' % p)
    seen, sel, nleaf, nsplit = {}, {}, 0, 0
    for f in vals:
        f = ever(f)
        for (v,), g in decided([f], TRUE):
            for g2, x in cases(v, g):
                if (g2.id, x.id) in seen:
                    continue
                seen[g2.id, x.id] = 1
                if built(ck, p, x, KD[0]):
                    nsplit += 1
                    split(ck, r, p, role, nf, nt, kinds, n0, shapes, x, g2, sel)
                else:
                    nleaf += 1
                    leaf(ck, r, p, nt, kinds, n0, shapes, x, g2)
    ck.floor('leaf cases of the construction', nleaf, 1)
    ck.floor('split cases of the construction', nsplit, 3)
    starts(ck, p, role, nf)


def kept(ev, p, role, tt, k, leaves):
    """the leaves of field k of a tree, as they were before nodes were built"""
    for _ in range(8):
        m = {}
        for x in leaves:
            for c in N.subterms(x):
                if c.op == 'callmut' and c.k[0] == p:
                    a = [V(ev.expand(tt, c), tt, ev).field(k), V(c.a[role['tree']], tt, ev).field(k)]
                    for u, v in zip(fl(a[0]), fl(a[1])):
                        m[u.id] = v
        if not m:
            break
        leaves = [LP.replace(x, m) for x in leaves]
    return leaves


def built(ck, p, x, kd):
    return any(y.op == 'callmut' and y.k[0] == p for y in N.subterms(x))


def leaf(ck, r, p, nt, kinds, n0, shapes, x, g):
    if x.op != 'push' or x.a[0] is not n0.n:
        return ck.fail('leaf-is-added', p, 'a leaf is not added at the end of the nodes: ' + T.show(x, 4))
    v = V(x.a[1], nt, r.ev)
    ln = shapes.len().n
    nn = N.Prover(nn=[ln], assume=g)
    d = ordinal(ck, v.n)
    for k, kind in kinds.items():
        is_ = T.eq(d, num(k))
        if kind == 'empty':
            ck.implies('leaf-holds-all', p, is_, T.eq(ln, num(0)), nn, what='only a leaf without shapes is empty')
        elif kind == 'split':
            ck.implies('leaf-holds-all', p, is_, FALSE, nn, what='a leaf is no interior node')
        elif kind == 'shape':
            ck.implies('leaf-holds-all', p, is_, T.eq(ln, num(1)), nn, what='only a leaf with one shape holds a single shape')
            if g is FALSE or band(g, is_) is FALSE:
                continue
            ck.same('leaf-holds-all', p, bare(unref(v.field(0, k).n)), element(shapes, num(0)), N.Prover(assume=band(g, is_, T.eq(ln, num(1)))))
        else:
            if band(g, is_) is FALSE:
                continue
            ck.require(whole_shapes(v.field(0, k).n, shapes.n), 'leaf-holds-all', p, 'a leaf does not hold the list of all its shapes: ' + T.show(v.field(0, k).n, 5))


def split(ck, r, p, role, nf, nt, kinds, n0, shapes, x, g, sel):
    """an interior node: its two children are built right after it, the lower one first"""
    order, node = [], None
    y = x
    i0 = T.seq_len(n0.n)
    while True:
        if y.op == 'store':
            ck.same('node-in-its-place', p, T.norm_len(y.a[1]) if hasattr(T, 'norm_len') else y.a[1], i0)
            if node is None:
                node = y.a[2]
            y = y.a[0]
        elif y.op == 'fld' and y.a[0].op == 'callmut' and y.a[0].k[0] == p and y.k[1] == nf:
            order.insert(0, (y, y.a[0].a))
            y = V(y.a[0].a[role['tree']], r.argty(r.names[role['tree']]), r.ev).field(nf).n
        elif y.op == 'push' and y.a[0] is n0.n:
            if node is None:
                node = y.a[1]
            break
        else:
            return ck.fail('children-follow', p, 'the nodes after a split are not its node and its two children: ' + T.show(y, 5))
    if len(order) != 2:
        return ck.fail('children-follow', p, '%d children are built for an interior node' % len(order))
    ck.ok('children-follow', p)
    v = V(node, nt, r.ev)
    ks = [k for k, kind in kinds.items() if kind == 'split']
    if ordinal(ck, node) is not num(ks[0]):
        return ck.fail('node-is-interior', p, 'the node of a split is not an interior node: ' + T.show(node, 4))
    fts = [ck.M.fieldty(nt, ks[0], i) for i in range(len(ck.M.adts[nt[1]]['v'][ks[0]]['f']))]
    vals = {}
    for i, ft in enumerate(fts):
        vals['axis' if ft[0] == 'adt' else 'at' if ft in (('prim', 'f32'), ('prim', 'f64')) else 'upper'] = v.field(i, ks[0]).n
    if len(vals) != 3:
        raise Missing('%s: interior nodes are not made of an axis, a position and an index' % nt[1])
    ax = ordinal(ck, vals['axis'])
    if ax.op != 'num' or ax.k not in (0, 1, 2):
        return ck.fail('node-has-the-axis', p, 'the axis of the split is not known: ' + T.show(ax, 5))
    ax = int(ax.k)
    # the upper child comes after all of the lower one
    ck.same('upper-child-found', p, vals['upper'], T.seq_len(order[0][0]))
    for side, (after, args) in zip(('lower', 'upper'), order):
        q = selection(ck, p, bare(unref(args[role['shapes']])), side, vals['at'], ax, shapes, None, sel)
        if q:
            ck.implies('child-gets-its-shapes', p, q[0], q[1], what='every shape with a bound on the side of the %s child goes there' % side)
    # termination: a number goes down to zero
    down = []
    for i in range(len(r.names)):
        if i in role.values() or strip(r.argty(r.names[i]))[0] != 'prim':
            continue
        a = r.arg(r.names[i]).n
        if all(N.Prover().prove(args[i], T.sub(a, num(1))) is None for _, args in order):
            down.append(a)
    ck.require(any(N.Prover(assume=g, nn=[shapes.len().n]).prove(T.atom_true(T.eq(a, num(0))) if hasattr(T, 'atom_true') else T.eq(a, num(0)), FALSE) is None for a in down),
               'construction-ends', p, 'no depth bounds the construction')


def starts(ck, p, role, nf):
    """the construction starts with all shapes, no nodes, and a box around all shapes"""
    bs = ck.fn('BBox3f', 'bbox_of_shapes')
    new = ck.fn('KdTree', 'new')
    b = ck.M.bodies[new]
    names = ['a%d' % i for i in range(b.argc)]
    r = ck.run(new, *names, opaque=[p, bs])
    sh = [nm for nm in names if dyn(strip(r.argty(nm)), 'Shape')]
    if len(sh) != 1:
        raise Missing('%s: the list of shapes is not found among the arguments' % new)
    shapes = r.arg(sh[0])
    ret = r.ret
    nodes = ret.field(nf).n
    ok = nodes.op == 'fld' and nodes.a[0].op == 'callmut' and nodes.a[0].k[0] == p
    if ck.require(ok, 'starts-with-all', new, 'the nodes of the tree are not those built: ' + T.show(nodes, 4)):
        args = nodes.a[0].a
        before = V(args[role['tree']], ('adt', ret.base()[1], ()), r.ev).field(nf).n
        ck.require(before.op == 'arr' and not before.a, 'starts-with-all', new, 'the construction does not start without nodes: ' + T.show(before, 4))
        ck.require(whole_shapes(args[role['shapes']], shapes.n), 'starts-with-all', new, 'the construction does not start with all shapes: ' + T.show(args[role['shapes']], 4))
    for path, rr, v, arg in [(new, r, ret, shapes)] + simple_new(ck, bs):
        ks = [k for k in range(len(ck.M.adts[v.base()[1]]['v'][0]['f'])) if last(str(ck.M.fieldty(v.base(), 0, k)[1])) == 'BBox3f']
        boxes, k = [v.field(k) for k in ks], ks[0]
        cs = [c for c in calls(ck, rr.ev, 'bbox_of_shapes') if whole_shapes(c.args[0].n if hasattr(c.args[0], 'n') else c.args[0], arg.n)]
        ck.require(len(boxes) == 1 and any(kept(rr.ev, p, role, v.base(), k, fl(boxes[0])) == fl(c.v) for c in cs), 'box-of-all-shapes', path, 'the box of the container is not the box of all shapes')


def simple_new(ck, bs):
    out = []
    for i in ck.M.impls:
        if (i.get('trait') or '').split('::')[-1] != 'Container':
            continue
        st = strip(ck.M.bodies[i['im']['intersect']].locals[1])
        fs = range(len(ck.M.adts[st[1]]['v'][0]['f']))
        if not any(dyn(ck.M.fieldty(st, 0, k), 'Shape') for k in fs):
            continue
        for m in ck.M.method(last(st[1]), 'new'):
            r = ck.run(m.path, 'shapes', opaque=[bs])
            l = listfield(ck, r.ret, 'Shape')
            ck.require(whole_shapes(l.n, r.arg('shapes').n), 'list-of-all-shapes', m.path, 'the container does not keep all shapes: ' + T.show(l.n, 4))
            out.append((m.path, r, r.ret, r.arg('shapes')))
    return out
