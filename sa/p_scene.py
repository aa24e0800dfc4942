"""Scenes: what the builder hands to the renderer."""
import json
import math
import struct
import re
import graph as G
import terms as T
import norm as N
import eval as E
import loops as LP
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, S, Missing, strip, xyz, absf
from p_shape import Ieee
from p_algebra import last
from p_light import fl, calls, traitret
from p_kd import dyn, element, bare, cases, prune


def parts(n):
    """a list taken apart into what it was put together from"""
    if n.op == 'append':
        return [p for x in n.a for p in parts(x)]
    if n.op == 'loopres':
        L = LP.Loop(prune(n))
        if L.term in L.phis:
            j = L.phis.index(L.term)
            x = L.nexts[j]
            if x.op == 'push' and x.a[0] is L.term and L.kk == 1 and L.it.id not in {y.id for y in N.subterms(L.inits[j])}:
                return parts(L.inits[j]) + [('each', L.cont, x.a[1], L.it)]
    if n.op == 'vecgen':
        it = mk('it', n.k[0])
        if n.a[1].op == 'idx' and n.a[1].a[1] is it and n.k[0] not in n.a[1].a[0].fv and N.Prover().prove(n.a[0], T.seq_len(n.a[1].a[0])) is None:
            return parts(n.a[1].a[0])
        return [('each', T.lt(it, n.a[0]), n.a[1], it)]
    if n.op == 'arr' and not n.a:
        return []
    return [n]


class Builder(object):
    def __init__(self, ck):
        self.ck = ck
        self.p = ck.fn('Builder', 'construct')
        b = ck.M.bodies[self.p]
        st = strip(b.locals[1])
        self.t = st
        self.role = {}
        for k in range(len(ck.M.adts[st[1]]['v'][0]['f'])):
            ft = ck.M.fieldty(st, 0, k)
            if dyn(ft, 'Light'):
                self.role['lights'] = k
            elif dyn(ft, 'Shape'):
                self.role['shapes'] = k
            elif 'AreaLight' in str(ft):
                self.role['area'] = k
        if len(self.role) != 3 or len(ck.M.adts[st[1]]['v'][0]['f']) != 3:
            raise Missing('the lists of the builder are not found')


def C21(ck):
    ck.technique = 'Dataflow over the evaluated MIR of the scene builder: which list every light and shape ends up in, and which box every light is prepared with.'
    B = Builder(ck)
    bs = ck.fn('BBox3f', 'bbox_of_shapes')
    r = ck.run(B.p, 'self', 'container', opaque=[bs])
    p = B.p
    me = r.arg('self')
    L = {k: me.field(i) for k, i in B.role.items()}
    al = strip(L['area'].t[2][0])
    al = al[2][0] if al[0] == 'adt' and last(al[1]) == 'Arc' else al
    # --- the scene
    sc = r.ret
    k = [i for i in range(len(ck.M.adts[sc.base()[1]]['v'][0]['f'])) if dyn(ck.M.fieldty(sc.base(), 0, i), 'Light')]
    if len(k) != 1:
        raise Missing('the list of lights of the scene is not found')
    has_all(ck, r, p, 'every-light-in-the-scene', sc.field(k[0]).n, L['lights'].n, L['area'])
    ap = [e for e in r.ev.events if e[1] == 'apply' and e[2] and e[2][0].op == 'sym' and e[2][0].k == 'container']
    if ck.require(len(ap) == 1 and ap[0][0] is TRUE, 'container-built-once', p, 'the container is built %d times' % len(ap)):
        has_all(ck, r, p, 'every-shape-in-the-container', ap[0][2][1], L['shapes'].n, L['area'])
        others = [i for i in range(len(ck.M.adts[sc.base()[1]]['v'][0]['f'])) if i != k[0]]
        c = mk('call', 'apply', *ap[0][2])
        ck.require(len(others) == 1 and sc.field(others[0]).n is c, 'container-built-once', p, 'the scene does not hold the container built')
    # --- every light is prepared with a box around everything
    pp = [e for e in r.ev.events if e[1].endswith('::pre_process')]
    own = [e for e in pp if prepared(ck, r, e, L['lights'])]
    if ck.require(len(own) >= 1, 'every-light-prepared', p, 'no loop over all lights prepares each of them'):
        for e in own:
            box = V(e[2][1], ck.M.fieldty(('adt', 'bbox::BBox3f', ()), 0, 0), r.ev)
            bt = [x for x in ck.M.bodies[ck.M.trait_default('Light', 'pre_process').path].locals[1:3]][1]
            box = V(r.ev.expand(strip(bt), e[2][1]), strip(bt), r.ev)
            covers(ck, r, p, box, L)
    # area lights: either prepared too, or their preparation does nothing
    n = [m for m in ck.M.method('AreaLight', 'pre_process')]
    ck.require(not n or any(prepared(ck, r, e, L['area']) for e in pp), 'every-light-prepared', p, 'area lights are not prepared')
    # lights are still the builder's own when they are prepared
    alone(ck, p)
    # --- adding
    start = ck.run(ck.fn('Builder', 'new'))
    for kk, i in B.role.items():
        f = start.ret.field(i).n
        ck.require(f.op == 'arr' and not f.a, 'starts-empty', start.path, 'a new builder is not empty')
    seen = set()
    for m in sorted(ck.M.bodies):
        if not m.startswith(B.t[1] + '::') or '{' in m or m in (p, start.path):
            continue
        b = ck.M.bodies[m]
        if b.argc != 2 or strip(b.locals[1])[:2] != B.t[:2]:
            continue
        r2 = ck.run(m, 'self', 'x')
        out = r2.out('self')
        grown = []
        for kk, i in B.role.items():
            f, old = out.field(i).n, r2.arg('self').field(i).n
            if f is old:
                continue
            grown.append(kk)
            ok = f.op == 'push' and f.a[0] is old
            x = bare(f.a[1]) if ok else None
            v = V(r2.ev.expand(strip(r2.argty('x')), mk('sym', 'x')), r2.argty('x'), r2.ev)
            ck.require(ok and (x.op == 'sym' and x.k == 'x' or [y for y in fl(V(x, r2.argty('x'), r2.ev))] == fl(v)), 'added-once', m,
                       'what is added is not put at the end of its list: ' + T.show(f, 5))
        ck.require(len(grown) == 1, 'added-once', m, 'adding changes %d lists' % len(grown))
        seen |= set(grown)
    ck.require(len(seen) == 3, 'added-once', p, 'lights, shapes and area lights can not all be added')
    # the lights of the scene
    g = ck.run(ck.fn('Scene', 'lights'), 'self')
    ck.require(bare(g.ret.n) is bare(g.arg('self').field(k[0]).n) or g.ret.n is g.arg('self').field(k[0]).n, 'every-light-in-the-scene', g.path, 'not all lights are handed out: ' + T.show(g.ret.n, 4))


def has_all(ck, r, p, rule, n, own, area):
    """the list is made of all of its own entries and every area light, each once"""
    ps = parts(n)
    rest = [x for x in ps if x is not own]
    ok = len(rest) == len(ps) - 1
    ck.require(ok, rule, p, 'the list does not hold all that were added: ' + T.show(n, 5))
    if not ck.require(len(rest) == 1 and isinstance(rest[0], tuple), rule, p, 'the list does not hold every area light: ' + T.show(n, 5)):
        return
    _, cont, x, it = rest[0]
    ck.same(rule, p, cont, T.lt(it, area.len().n))
    t = strip(area.t[2][0])
    t = strip(t[2][0]) if t[0] == 'adt' and last(t[1]) == 'Arc' else t
    el = element(area, it)
    want = fl(V(r.ev.expand(t, el), t, r.ev))
    got = fl(V(bare(x), t, r.ev)) if bare(x).op == 'adt' else fl(V(r.ev.expand(t, bare(x)), t, r.ev))
    ck.require(bare(x) is el or [bare(y) for y in got] == [bare(y) for y in want], rule, p, 'what is listed is not the area light: ' + T.show(x, 5))


def prepared(ck, r, e, lst):
    """the call prepares every light of the list"""
    for L in r.ev.loops:
        for x in N.subterms(e[0]):
            if x.op == 'phi' and x.k[0] == L.d:
                pass
        j = [i for i, x in enumerate(L.nexts) if x.op == 'callmut' and x.k[0] == e[1] and x.a[0] is L.phis[i]]
        for i in j:
            if L.nexts[i].a[1] is not e[2][1]:
                continue
            it = [i2 for i2, c in enumerate(L.phis)]
            init = bare(L.inits[i])
            if init.op != 'idx' or init.a[0] is not lst.n:
                continue
            # one entry after another, all of them
            if L.trip is None or N.Prover().prove(L.trip, lst.len().n) is not None:
                continue
            # nothing but the loop's own condition guards it
            if N.Prover().prove(e[0], e[0]) is None and guard_only(e[0], L):
                return True
    return False


def guard_only(pc, L):
    cs = T.bool_atoms(pc)
    return len(cs) <= 1


def covers(ck, r, p, box, L):
    sh, area = L['shapes'], L['area']
    some = bnot(T.eq(sh.len().n, num(0)))
    bcalls = [e for e in r.ev.events if last(e[1]) == 'bbox_of_shapes']
    for m, (c, sgn) in enumerate((('min', 1), ('max', -1))):
        for a in range(3):
            leaf = box.field(m).field(a).n
            le = (lambda x, y: T.le(x, y)) if sgn == 1 else (lambda x, y: T.le(y, x))
            rest, ok = leaf, False
            if leaf.op == 'loopres':
                Q = LP.Loop(prune(leaf))
                if Q.term in Q.phis and Q.kk == 1:
                    el = element(area, Q.it)
                    t = traitret(ck, 'Shape', 'bbox')
                    cands = [x for x in N.subterms(Q.nexts[0]) if x.op == 'call' and str(x.k).endswith('Shape::bbox')]
                    t2 = V(r.ev.expand(t, cands[0]), t, r.ev).field(m).field(a).n if cands else num(0)
                    ck.require(len(cands) == 1 and any(bare(y) is el or y.op == 'fld' and y.a[0] is el for y in [bare(cands[0].a[0])]), 'box-around-everything', p,
                               'the box does not grow by the box of each area light')
                    ck.same('box-around-everything', p, Q.cont, T.lt(Q.it, area.len().n))
                    ck.implies('box-around-everything', p, TRUE, le(Q.nexts[0], Q.term), what='the box only grows')
                    ck.implies('box-around-everything', p, TRUE, le(Q.nexts[0], t2), what='the box holds the area light')
                    rest, ok = Q.inits[0], True
            if not ok:
                # a box of all shapes, area lights included
                b = leaf
                while b.op == 'fld':
                    b = b.a[0]
                ok = b.op == 'call' and str(b.k).endswith('bbox_of_shapes') and b.k and leaf is V(r.ev.expand(box.t, b), box.t, r.ev).field(m).field(a).n
                if ck.require(ok, 'box-around-everything', p, 'the box lights are prepared with does not grow by that of each area light: ' + T.show(leaf, 5)):
                    has_all(ck, r, p, 'box-around-everything', bare(b.a[0]), sh.n, area)
                continue
            for e in bcalls:
                if bare(e[2][0]) is not sh.n:
                    continue
                cn = mk('call', e[1], *e[2])
                w = V(r.ev.expand(box.t, cn), box.t, r.ev).field(m).field(a).n
                ck.implies('box-around-everything', p, some, le(rest, w), what='the box holds all shapes')
                break
            else:
                ck.fail('box-around-everything', p, 'the box lights are prepared with is not that of the shapes')


def reach(b, start, stop=()):
    seen, todo = set(), list(b.succs(start))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            if x not in stop:
                todo += b.succs(x)
    return seen


def shared_before(b, c, uses):
    """uses that come after the clone in block c; in a loop that takes each pointer out of a vector the next round has another pointer"""
    out = reach(b, c) & uses
    for i, blk in enumerate(b.blocks):
        t = blk['t']
        if t['t'] == 'call' and isinstance(t['f'], dict) and 'IntoIter' in json.dumps(t['f']) and last(str(t['f'].get('n') or t['f'].get('m'))) == 'next':
            rd = reach(b, i)
            if c in rd and i in reach(b, c):
                same = reach(b, c, (i,))
                out = {u for u in out if u in same or not (u in rd and i in reach(b, u))}
    return out


def alone(ck, p, rule='lights-are-exclusive', why='a pointer is cloned before exclusive access is asked for, which then fails'):
    """no shared pointer is cloned before exclusive access to it is asked for"""
    b = ck.M.bodies[p]
    cg = G.calls(ck.M)

    def does(path, m, seen):
        if path in seen:
            return False
        seen.add(path)
        return any(is_(blk, m) for blk in ck.M.bodies[path].blocks) or any(does(q, m, seen) for q in cg[path])

    def is_(blk, m):
        t = blk['t']
        if t['t'] != 'call' or not isinstance(t['f'], dict):
            return False
        n = str(t['f'].get('res') or t['f'].get('n'))
        return last(n) == m and 'Arc' in json.dumps(t['f'])

    def at(i, m):
        blk = b.blocks[i]
        if is_(blk, m):
            return True
        sub = [p + x for x in set(re.findall(r'::\{closure#\d+\}', json.dumps(blk)))]
        t = blk['t']
        if t['t'] == 'call':
            sub += [x for x in G.targets(ck.M, t['f'])]
        return any(q in ck.M.bodies and does(q, m, set()) for q in sub)
    n = len(b.blocks)
    uses = {i for i in range(n) if at(i, 'get_mut')}
    clones = [i for i in range(n) if at(i, 'clone')]
    ck.count('exclusive accesses', len(uses))
    for c in clones:
        ck.require(not shared_before(b, c, uses), rule, p, why)
    if not clones:
        ck.ok(rule, p)
    used, work = set(), [p]
    while work:
        q = work.pop()
        if q not in used:
            used.add(q)
            work += [x for x in cg.get(q, ())] + [x for x in ck.M.bodies if x.startswith(q + '::{closure#')]
    return used


# ---------------------------------------------------------------- spawned rays

def neighbours(ck):
    """the next representable number"""
    up, down = ck.free('next_float_up'), ck.free('next_float_down')
    save = T.NAN_AWARE[0], T.NEG_ZERO[0]
    T.NAN_AWARE[0] = T.NEG_ZERO[0] = True
    try:
        for p, s in ((up, 1), (down, -1)):
            r = ck.run(p, 'x')
            x = r.arg('x').n
            f32 = lambda b: struct.unpack('<f', struct.pack('<I', b))[0]
            tiny = f32(1) * s
            for v, want in ((0., tiny), (-0., tiny), (s * math.inf, s * math.inf), (-s * math.inf, -s * f32(0x7f7fffff))):
                q = Ieee({x.id: v})
                got = q.val(r.ret.n)
                ck.require(isinstance(got, float) and got == want, 'next-number', p, 'of %s is not %s but %s' % (v, want, got if isinstance(got, float) else T.show(got, 6)))
            bits = mk('bits', 'f32', x)
            for sgn in (1, -1):
                q = Ieee({})
                got = Ieee.node(q.val(r.ret.n))
                want = mk('bits', 'u32', T.add(bits, num(s * sgn)))
                # away from zero the pattern grows, towards zero it shrinks
                g = under(got, T.lt(num(0), x) if sgn > 0 else T.lt(x, num(0)))
                ck.require(g is want, 'next-number', p, 'of a %s number: computes %s' % ('positive' if sgn > 0 else 'negative', T.show(g, 8)))
    finally:
        T.NAN_AWARE[0], T.NEG_ZERO[0] = save
    return up, down


def under(n, c):
    pr = N.Prover(assume=c)
    if n.op == 'ite':
        if pr.prove(n.a[0], TRUE) is None:
            return under(n.a[1], c)
        if pr.prove(n.a[0], FALSE) is None:
            return under(n.a[2], c)
        return n
    return T.rebuild(n, [under(x, c) if not T.is_bool(x) else x for x in n.a]) if n.a else n


def unrounded(ck, p, n, up, down, off, pr):
    """a coordinate before it is pushed one number further, in the direction of the offset"""
    for c, s, f in ((T.lt(num(0), off), 'away', up), (T.lt(off, num(0)), 'away', down), (T.eq(off, num(0)), None, None)):
        for g, x in pieces(n):
            gg = band(g, c)
            if gg is FALSE or N.Prover(assume=gg, nn=pr).prove(num(0), num(1)) is None:
                continue
            yield gg, x, f


def pieces(n, g=TRUE):
    if n.op == 'ite':
        return pieces(n.a[1], band(g, n.a[0])) + pieces(n.a[2], band(g, bnot(n.a[0])))
    return [] if g is FALSE else [(g, n)]


def offset(ck, rule, p, got, i, v, up, down):
    """got is the point of the interaction moved off its surface to the side v points to"""
    P, n, e = xyz(i.p), xyz(i.field('n')), xyz(i.p_err)
    v = list(v)
    nn = [x.n for x in e]
    d = sum((absf(n[k]) * e[k] for k in range(3)), S(0))
    side = sum((n[k] * v[k] for k in range(3)), S(0))
    for sg in (1, -1):
        c = T.lt(num(0), side.n) if sg > 0 else T.lt(side.n, num(0))
        for k in range(3):
            off = n[k] * d * sg
            for g, x, f in unrounded(ck, p, got[k].n, up, down, off.n, nn):
                gg = band(c, g)
                pr = N.Prover(assume=gg, nn=nn)
                if pr.prove(num(0), num(1)) is None:
                    continue
                core = x.a[0] if x.op == 'call' and x.k in (up, down) else x
                if f is not None:
                    ck.require(x.op == 'call' and x.k == f, rule, p, 'coordinate %d is not pushed to the next number on the side of the offset: %s' % (k, T.show(x, 5)))
                ck.same(rule, p, core, (P[k] + off).n, pr)


def target(d, o):
    """the end of a vector from o"""
    ts, todo = [], [d]
    while todo:
        x = todo.pop()
        if x.op == 'add':
            todo += list(x.a)
        elif x.op == 'neg' and x.a[0].op == 'add':
            todo += [T.neg(y) for y in x.a[0].a]
        else:
            ts.append(x)
    m = T.neg(o)
    if m in ts:
        ts.remove(m)
        r = ts[0] if ts else num(0)
        for x in ts[1:]:
            r = T.add(r, x)
        return r
    return T.add(d, o)


def C34(ck):
    ck.technique = 'Case analysis over IEEE classes for the next representable number, and algebraic equivalence of the evaluated MIR of the ray constructors with the offset formula on each side of the surface.'
    ck.assumptions = ['real arithmetic, apart from the last step to the next number', 'error bounds are non-negative']
    up, down = neighbours(ck)
    op = [up, down]
    p = ck.fn('Interaction', 'spawn_ray')
    r = ck.run(p, 'self', 'w', opaque=op)
    i, w, ray = r.arg('self'), r.arg('w'), r.ret
    offset(ck, 'starts-off-the-surface', p, xyz(ray.origin), i, xyz(w), up, down)
    ck.same('keeps-direction', p, fl(ray.direction), fl(w))
    ck.require(ray.t_max.n is T.INF, 'keeps-direction', p, 'the ray is limited: ' + T.show(ray.t_max.n, 4))
    p = ck.fn('Interaction', 'spawn_ray_to')
    r = ck.run(p, 'self', 'to', opaque=op)
    a, b, ray = r.arg('self'), r.arg('to'), r.ret
    d = [xyz(b.p)[k] - xyz(a.p)[k] for k in range(3)]
    o = xyz(ray.origin)
    offset(ck, 'starts-off-the-surface', p, o, a, d, up, down)
    offset(ck, 'ends-off-the-surface', p, [V(target(ray.direction.field(k).n, o[k].n)) for k in range(3)], b, [-x for x in d], up, down)
    t = ray.t_max.n
    ck.require(t.op == 'num' and 0.99 <= t.k < 1, 'ends-off-the-surface', p, 'the ray to another point does not end just before it: ' + T.show(t, 4))
    p = ck.fn('Ray', 'position')
    r = ck.run(p, 'self', 't')
    s = r.arg('self')
    ck.same('position', p, fl(r.ret), [(xyz(s.origin)[k] + xyz(s.direction)[k] * r.arg('t')).n for k in range(3)])
    for m in ck.M.method('Ray', 'default'):
        r = ck.run(m.path)
        ck.require(r.ret.t_max.n is T.INF, 'position', m.path, 'a ray is limited by default')
