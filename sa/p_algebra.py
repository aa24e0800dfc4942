"""Vectors, boxes, transforms, camera."""
import terms as T
import norm as N
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, Vec, S, fn, ap, sqrt, absf, vmax, vmin, ite, PI, xyz, xy, rgb, Missing, n_
import ck as CK

F32 = ('prim', 'f32')
VT = {'Vector3f': 3, 'Normal3f': 3, 'Point3f': 3, 'Spectrum': 3, 'Vector2': 2, 'Point2': 2}
OPS = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'Div': lambda a, b: a / b}


def last(s):
    return s.split('::')[-1]


def vname(t):
    return last(t[1]) if t[0] == 'adt' and last(t[1]) in VT else None


def comps(v):
    """the coordinates in declaration order"""
    t = v.base()
    k = len(v.ev.M.adts[t[1]]['v'][0]['f'])
    return Vec([v.field(i) for i in range(k)])


ROLE = {'x': 0, 'y': 1, 'z': 2, 'r': 0, 'g': 1, 'b': 2}


def coords(v):
    """coordinates in x, y, z order, by name when the names say so"""
    t = v.base()
    names = [f['n'] for f in v.ev.M.adts[t[1]]['v'][0]['f']]
    if all(n in ROLE for n in names):
        names = sorted(names, key=lambda n: ROLE[n])
        return Vec([v.field(n) for n in names])
    return comps(v)


def impls_of(M, name):
    for i in M.impls:
        if vname(i['selft']) == name:
            yield i


def C33(ck):
    ck.technique = ('Value-graph equality over MIR: every arithmetic, assignment, indexing and conversion operator of every vector, point, normal and colour type '
                    'is reduced to an expression per coordinate and compared with the mathematical definition for all real inputs; cross, dot, permutation, '
                    'axis choice and frame construction are checked against their defining identities.')
    ck.assumptions = ['float arithmetic is compared as exact real arithmetic; rounding is outside this property']
    nops = 0
    for i in ck.M.impls:
        name = vname(i['selft'])
        if name is None:
            continue
        env = {p: F32 for p in ('T',)}
        tr = i.get('trait') or ''
        short = last(tr)
        if tr.startswith('std::ops::') or tr.startswith('core::ops::'):
            base = short.replace('Assign', '') if short.endswith('Assign') else short
            if base in OPS:
                p = [x for k, x in i['im'].items() if k not in ('Output',)][0]
                r = ck.run(p, 'a', 'b', env=env)
                other = i['ta'][1] if len(i['ta']) > 1 else i['selft']
                a = coords(r.arg('a'))
                b = coords(r.arg('b')) if vname(other) else S(r.arg('b').n)
                want = a._b(b, OPS[base])
                got = coords(r.out('a')) if short.endswith('Assign') else coords(r.ret)
                ck.same('operator-componentwise', p, got, want)
                ck.require(r.cond is TRUE, 'operator-total', p, 'the operator can fail to return a value')
                nops += 1
            elif base == 'Neg':
                r = ck.run(i['im']['neg'], 'a', env=env)
                ck.same('operator-componentwise', i['im']['neg'], coords(r.ret), -coords(r.arg('a')))
                nops += 1
            elif base in ('Index', 'IndexMut'):
                p = [x for k, x in i['im'].items() if k != 'Output'][0]
                r = ck.run(p, 'a', 'i', env=env)
                it = i['ta'][1]
                d = r.arg('i').n
                idx = d.a[0] if d.op == 'enum' else d
                a = coords(r.arg('a'))
                k = len(a)
                inr = TRUE if it[0] == 'adt' else bor(*[T.eq(idx, num(j)) for j in range(k)])
                # a read through the returned place
                st = dict(r.R.st)
                got = r.ev.read(st, r.R.raw, F32)
                w = a[k - 1]
                for j in range(k - 2, -1, -1):
                    w = ite(T.eq(idx, num(j)), a[j], w)
                ck.same('index-selects-coordinate', p, got, w, assume=inr)
                ck.same('index-in-range-exactly', p, r.cond, inr)
                if base == 'IndexMut':
                    r.ev.write(st, r.R.raw, mk('sym', 'new'))
                    a2 = coords(V(r.ev.export(st, r.ev.read(st, r.R.arg('a'))), r.arg('a').t, r.ev))
                    w = [ite(T.eq(idx, num(j)), S(mk('sym', 'new')), a[j]) for j in range(k)]
                    ck.same('index-writes-coordinate', p, a2, Vec(w), assume=inr)
                nops += 1
        elif short == 'From':
            src = i['ta'][1]
            if vname(src) and VT[vname(src)] == VT[name]:
                p = i['im']['from']
                r = ck.run(p, 'a', env=env)
                a = coords(r.arg('a'))
                if i['selft'][2:] and i['selft'][2] and src[2] and i['selft'][2] != src[2] and src[2][0] == F32:
                    a = None       # a float -> integer cast: direction of rounding is the caller's business
                    got = coords(r.ret)
                    for j in range(len(got)):
                        f = [x for x in N.subterms(got[j].n)]
                        leaves = {x.id for x in f}
                        ck.require(coords(r.arg('a'))[j].n.id in leaves and all(coords(r.arg('a'))[q].n.id not in leaves for q in range(len(got)) if q != j),
                                   'conversion-coordinatewise', p, 'coordinate %d of the result is not made from coordinate %d alone' % (j, j))
                else:
                    got = coords(r.ret)
                    gs = [strip_cast(x.n) for x in got]
                    ck.same('conversion-coordinatewise', p, gs, [x.n for x in a])
                nops += 1
            elif src == F32 and name == 'Spectrum':
                r = ck.run(i['im']['from'], 'a')
                ck.same('conversion-coordinatewise', i['im']['from'], coords(r.ret), [mk('sym', 'a')] * 3)
        elif short == 'PartialEq':
            p = i['im']['eq']
            r = ck.run(p, 'a', 'b', env=env)
            a, b = coords(r.arg('a')), coords(r.arg('b'))
            ck.same('equality-componentwise', p, r.ret.n, band(*[x.eq(y) for x, y in zip(a, b)]))
        elif short == 'Default':
            p = i['im']['default']
            r = ck.run(p, env=env)
            ck.same('default-is-zero', p, coords(r.ret), [num(0)] * VT[name])
    ck.floor('operators', nops, 70)

    def meth(ad, m, *names, **kw):
        p = ck.fn(ad, m)
        return p, ck.run(p, *names, **kw)
    for ad in ('Vector3f', 'Normal3f', 'Point3f', 'Spectrum'):
        p, r = meth(ad, 'new', 'p', 'q', 's')
        ck.same('constructor-order', p, coords(r.ret), [mk('sym', x) for x in 'pqs'])
        p, r = meth(ad, 'abs', 'a')
        ck.same('abs-componentwise', p, coords(r.ret), coords(r.arg('a')).abs())
        p, r = meth(ad, 'length', 'a')
        ck.same('euclidean-length', p, r.ret, coords(r.arg('a')).length())
        p, r = meth(ad, 'normalize', 'a')
        ck.same('unit-direction', p, coords(r.ret), coords(r.arg('a')).unit())
    for ad in ('Vector2', 'Point2'):
        p, r = meth(ad, 'new', 'p', 'q', env={'T': F32})
        ck.same('constructor-order', p, coords(r.ret), [mk('sym', x) for x in 'pq'])
    for m, f in (('min', vmin), ('max', vmax)):
        for ad, e in (('Point3f', {}), ('Point2', {'T': F32})):
            p, r = meth(ad, m, 'a', 'b', env=e)
            ck.same('%s-componentwise' % m, p, coords(r.ret), Vec([f(x, y) for x, y in zip(coords(r.arg('a')), coords(r.arg('b')))]))
    for m in ('floor', 'ceil'):
        p, r = meth('Point2', m, 'a')
        ck.same('%s-componentwise' % m, p, coords(r.ret), Vec([fn(m, x) for x in coords(r.arg('a'))]))
    for ad, m in (('Vector3f', 'dot'), ('Vector3f', 'dot_n'), ('Normal3f', 'dot')):
        p, r = meth(ad, m, 'a', 'b')
        ck.same('dot-product', p, r.ret, coords(r.arg('a')).dot(coords(r.arg('b'))))
    p, r = meth('Vector3f', 'cross', 'a', 'b')
    ck.same('cross-product', p, coords(r.ret), coords(r.arg('a')).cross(coords(r.arg('b'))))
    p, r = meth('Point3f', 'distance', 'a', 'b')
    ck.same('distance', p, r.ret, (coords(r.arg('a')) - coords(r.arg('b'))).length())
    p, r = meth('Vector3f', 'max_component', 'a')
    ck.same('max-component', p, r.ret, vmax(*coords(r.arg('a'))))
    p, r = meth('Vector3f', 'from_spherical_direction', 's', 'c', 'f')
    s, c, f = [S(mk('sym', x)) for x in 'scf']
    ck.same('spherical-direction', p, coords(r.ret), Vec([s * ap('cos', f), s * ap('sin', f), c]))
    for ad in ('Vector3f', 'Point3f'):
        p, r = meth(ad, 'permute', 'a', 'i', 'j', 'k')
        a = coords(r.arg('a'))
        ws = []
        for q in 'ijk':
            d = r.arg(q).n.a[0]
            ws.append(ite(T.eq(d, num(0)), a[0], ite(T.eq(d, num(1)), a[1], a[2])))
        ck.same('permute-follows-axes', p, coords(r.ret), ws)
    p, r = meth('Vector3f', 'construct_coordinate_system', 'a')
    a = coords(r.arg('a'))
    v1, v2 = coords(r.ret[0]), coords(r.ret[1])
    unit = [(a[2].n, 2, (1 - a[0] * a[0] - a[1] * a[1]).n)]
    pr = N.Prover(rules=unit)
    nonz = bor(*[bnot(x.eq(0)) for x in a])
    for rule, got, want in (('frame-orthogonal', a.dot(v1), 0), ('frame-orthogonal-2', a.dot(v2), 0), ('frame-mutually-orthogonal', v1.dot(v2), 0),
                            ('frame-unit', v1.len2(), 1)):
        ck.same(rule, p, got, num(want), N.Prover(assume=nonz))
    ck.defined('frame-exists', p, list(v1) + list(v2), nonz)
    ck.same('frame-unit-2', p, v2.len2(), num(1), pr)
    # axes
    X, Y, Z = 0, 1, 2
    axis = {'next': {0: 1, 1: 2, 2: 0}, 'prev': {0: 2, 1: 0, 2: 1}}
    for m, tab in axis.items():
        p, r = meth('Axis', m, 'a')
        d = r.arg('a').n.a[0]
        for k, w in tab.items():
            ck.same('axis-%s' % m, p + '(%d)' % k, r.ret.n.a[0], num(w), assume=T.eq(d, num(k)))
    p, r = meth('Axis', 'others', 'a')
    d = r.arg('a').n.a[0]
    for k in range(3):
        o = [r.ret[j].n.a[0] for j in (0, 1)]
        asm = T.eq(d, num(k))
        w = [j for j in range(3) if j != k]
        g = bor(band(T.eq(o[0], num(w[0])), T.eq(o[1], num(w[1]))), band(T.eq(o[0], num(w[1])), T.eq(o[1], num(w[0]))))
        ck.implies('axis-others', p + '(%d)' % k, asm, g)
    # axis of the largest coordinate: the chosen one is not smaller than any other
    for ad, m, get in (('Vector3f', 'max_abs_axis', lambda r: coords(r.arg('a')).abs()), ('BBox3f', 'max_extent', lambda r: coords(r.arg('a').max) - coords(r.arg('a').min))):
        p, r = meth(ad, m, 'a')
        c = get(r)
        d = r.ret.n.a[0]
        for k in range(3):
            for j in range(3):
                if j != k:
                    ck.implies('largest-axis', p, band(r.cond, T.eq(d, num(k))), c[j] <= c[k], what='axis %d is chosen only when its extent is the largest' % k)
        # on ordered (non-NaN) coordinates a choice is always made
        ck.implies('largest-axis-total', p, TRUE, r.cond, what='an axis is always chosen')


def strip_cast(n):
    while n.op in ('i2f', 'cast', 'u2i', 'i2u', 'wrap', 'wrapu', 'wraps') and n.a:
        n = n.a[0]
    return n


def box(v):
    return coords(v.min), coords(v.max)


def C20(ck):
    ck.technique = ('Value-graph equality over MIR: each bounding-box operation is reduced to a closed expression per coordinate and compared for all real inputs '
                    'with the lattice definition (minimum / maximum per coordinate); folds over shape lists are compared as loop summaries.')
    p = ck.fn('BBox3f', 'new')
    r = ck.run(p, 'a', 'b')
    a, b = coords(r.arg('a')), coords(r.arg('b'))
    mn, mx = box(r.ret)
    ck.same('box-from-corners-min', p, mn, Vec([vmin(x, y) for x, y in zip(a, b)]))
    ck.same('box-from-corners-max', p, mx, Vec([vmax(x, y) for x, y in zip(a, b)]))
    p = ck.fn('BBox2', 'new')
    r = ck.run(p, 'a', 'b', env={'T': F32})
    a, b = coords(r.arg('a')), coords(r.arg('b'))
    mn, mx = box(r.ret)
    ck.same('box2-from-corners-min', p, mn, Vec([vmin(x, y) for x, y in zip(a, b)]))
    ck.same('box2-from-corners-max', p, mx, Vec([vmax(x, y) for x, y in zip(a, b)]))
    p = ck.fn('BBox3f', 'union')
    r = ck.run(p, 'a', 'b')
    (a0, a1), (b0, b1) = box(r.arg('a')), box(r.arg('b'))
    mn, mx = box(r.ret)
    ck.same('union-min', p, mn, Vec([vmin(x, y) for x, y in zip(a0, b0)]))
    ck.same('union-max', p, mx, Vec([vmax(x, y) for x, y in zip(a1, b1)]))
    p = ck.fn('BBox3f', 'union_point')
    r = ck.run(p, 'a', 'b')
    (a0, a1), b = box(r.arg('a')), coords(r.arg('b'))
    mn, mx = box(r.ret)
    ck.same('union-point-min', p, mn, Vec([vmin(x, y) for x, y in zip(a0, b)]))
    ck.same('union-point-max', p, mx, Vec([vmax(x, y) for x, y in zip(a1, b)]))
    p = ck.fn('BBox3f', 'diagonal')
    r = ck.run(p, 'a')
    a0, a1 = box(r.arg('a'))
    ck.same('diagonal', p, coords(r.ret), a1 - a0)
    p = ck.fn('BBox3f', 'surface_area')
    r = ck.run(p, 'a')
    a0, a1 = box(r.arg('a'))
    d = a1 - a0
    ck.same('surface-area', p, r.ret, (d[0] * d[1] + d[1] * d[2] + d[2] * d[0]) * 2)
    for m in ('diagonal', 'area'):
        p = ck.fn('BBox2', m)
        r = ck.run(p, 'a', env={'T': F32})
        a0, a1 = box(r.arg('a'))
        if m == 'diagonal':
            ck.same('diagonal', p, coords(r.ret), a1 - a0)
        else:
            ck.same('box2-area', p, r.ret, (a1[0] - a0[0]) * (a1[1] - a0[1]))
    p = ck.fn('BBox3f', 'overlaps')
    r = ck.run(p, 'a', 'b')
    (a0, a1), (b0, b1) = box(r.arg('a')), box(r.arg('b'))
    ck.same('overlap-closed', p, r.ret.n, band(*[band(b0[i] <= a1[i], a0[i] <= b1[i]) for i in range(3)]))
    p = ck.fn('BBox3f', 'point_inside')
    r = ck.run(p, 'a', 'b')
    (a0, a1), b = box(r.arg('a')), coords(r.arg('b'))
    ck.same('inside-closed', p, r.ret.n, band(*[band(a0[i] <= b[i], b[i] <= a1[i]) for i in range(3)]))
    p = ck.fn('BBox3f', 'bounding_sphere')
    r = ck.run(p, 'a')
    a0, a1 = box(r.arg('a'))
    c = (a0 + a1) / 2
    ordered = band(*[a0[i] <= a1[i] for i in range(3)])
    ck.same('bounding-sphere-centre', p, coords(r.ret[0]), c)
    ck.same('bounding-sphere-reaches-corner', p, r.ret[1], (c - a1).length(), assume=ordered)
    # box of a shape list: fold of union over every shape
    p = ck.fn('BBox3f', 'bbox_of_shapes')
    fold_covers(ck, p)
    # the bound of every shape kind
    p = ck.fn('Sphere', 'bbox', 'Shape')
    r = ck.run(p, 'self')
    s = r.arg('self')
    mn, mx = box(r.ret)
    ce, ra = coords(s.center), s.radius
    ck.same('sphere-bound-min', p, mn, Vec([x - ra for x in ce]), assume=(ra >= 0))
    ck.same('sphere-bound-max', p, mx, Vec([x + ra for x in ce]), assume=(ra >= 0))
    p = ck.fn('Triangle', 'bbox', 'Shape')
    r = ck.run(p, 'self')
    vs = [coords(r.arg('self').vertices[i]) for i in range(3)]
    mn, mx = box(r.ret)
    ck.same('triangle-bound-min', p, mn, Vec([vmin(*[v[i] for v in vs]) for i in range(3)]))
    ck.same('triangle-bound-max', p, mx, Vec([vmax(*[v[i] for v in vs]) for i in range(3)]))
    p = ck.fn('AreaLight', 'bbox', 'Shape')
    r = ck.run(p, 'self')
    ck.require(any(n == 'shape::Shape::bbox' for n in r.ev.opaque_called), 'light-bound-delegates', p, 'the bound of an emitting shape is not the bound of its shape')
    w = mk('call', 'shape::Shape::bbox', r.arg('self').shape.n)
    ck.same('light-bound-delegates', p, coords(r.ret.min), coords(V(r.ev.expand(r.ret.t, w), r.ret.t, r.ev).min))


def fold_covers(ck, p):
    """result = union over every element of a shape sequence (by induction on the loop summary)"""
    r = ck.run(p, 'shapes')
    seq = mk('sym', 'shapes')
    ln = T.seq_len(seq)
    ev = r.ev
    # bbox of element i, as the code names it
    bt = r.ret.t
    evs = [e for e in ev.events if e[1] == 'shape::Shape::bbox']
    ck.require(len(evs) >= 1, 'fold-reads-bounds', p, 'no shape bound is read')
    loops = [l for l in ev.loops]
    ck.require(len(loops) >= 1, 'fold-loops', p, 'no loop over the shapes')
    got = r.ret
    # reference: evaluate the definition written with the same primitives
    d = mk('call', 'shape::Shape::bbox', T.idx_raw(seq, num(0)))
    first = V(ev.expand(bt, d), bt, ev)
    res = coords(got.min), coords(got.max)
    for (vals, f, which) in ((res[0], 'min', 0), (res[1], 'max', 1)):
        for k in range(3):
            n = vals[k].n
            okv, why = fold_shape(ck, ev, n, seq, f, which, k, bt)
            ck.require(okv, 'fold-' + f, p, 'coordinate %d of the %s corner: %s' % (k, f, why))


def fold_shape(ck, ev, n, seq, f, which, k, bt):
    """n == fold of min/max over coordinate (which,k) of every element's bound"""
    def el(i):
        b = V(ev.expand(bt, mk('call', 'shape::Shape::bbox', T.idx_raw(seq, i))), bt, ev)
        return coords(b.min if which == 0 else b.max)[k].n
    n = N.pretty(n)
    if n.op == 'ite':
        # some special case for an empty list
        for br in (n.a[1], n.a[2]):
            r = fold_shape(ck, ev, br, seq, f, which, k, bt)
            if r[0]:
                return r
        return False, 'not a fold over the shapes'
    if n.op != 'loopres':
        return False, 'not a fold over the shapes: ' + T.show(n, 4)
    d, kk, ni = n.k
    cont, nexts, inits = n.a[1], n.a[2:2 + kk], n.a[2 + kk:]
    term = n.a[0]
    phis = [mk('phi', (d, 'c%d' % i)) for i in range(kk)]
    # find the accumulator: term must be one phi
    if term not in phis:
        return False, 'the fold does not return its accumulator'
    acc = phis.index(term)
    init, nxt = inits[acc], nexts[acc]
    pr = N.Prover()
    it = mk('it', d)
    for start in (0, 1):
        if start == 1:
            oki = pr.prove(init, el(num(0))) is None
        else:
            neutral = T.INF if f == 'min' else T.NINF
            oki = init is neutral or init.op == 'num' and False
        if not oki:
            continue
        idx = T.add(it, num(start))
        idxs = [idx] + [ph for ph in phis]
        for ix in idxs:
            if pr.prove(nxt, T.fn(f, phis[acc], el(ix))) is None:
                # the counter must cover start .. len
                if ix is idx:
                    c = T.lt(idx, T.seq_len(seq))
                    c2 = T.lt(it, T.sub(T.seq_len(seq), num(start)))
                    if pr.prove(cont, c) is None or pr.prove(cont, c2) is None:
                        return True, ''
                    return False, 'the loop does not run over every remaining shape: continues while ' + T.show(cont, 5)
                j = phis.index(ix)
                if pr.prove(inits[j], num(start)) is None and pr.prove(nexts[j], T.add(ix, num(1))) is None and pr.prove(cont, T.lt(ix, T.seq_len(seq))) is None:
                    return True, ''
                return False, 'the loop does not run over every remaining shape'
        return False, 'one step is not the %s with the next bound: %s' % (f, T.show(nxt, 5))
    return False, 'the accumulator does not start from the first shape: ' + T.show(init, 4)


def mat(v):
    """4x4 entries of a Matrix value"""
    m = v.field(0)
    return [[m[i][j] for j in range(4)] for i in range(4)]


def mmul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(1, 4)), a[i][0] * b[0][j]) for j in range(4)] for i in range(4)]


def flat(m):
    return [x for row in m for x in row]


IDENT = [num(1 if i == j else 0) for i in range(4) for j in range(4)]


def pair(v):
    return mat(v.field(0)), mat(v.field(1))


def det4(a):
    def minor(m, i, j):
        return [[m[r][c] for c in range(len(m)) if c != j] for r in range(len(m)) if r != i]

    def det(m):
        if len(m) == 1:
            return m[0][0]
        r = None
        for j in range(len(m)):
            t = m[0][j] * det(minor(m, 0, j))
            r = t if r is None else (r + t if j % 2 == 0 else r - t)
        return r
    return det(a)


def C31(ck):
    ck.technique = ('Value-graph equality over MIR: for each way of making a transform the stored matrix times the stored inverse is reduced to a matrix of rational '
                    'functions of the arguments and compared with the identity; composition and inversion are compared with the algebraic laws that preserve this.')
    ck.assumptions = ['real arithmetic; singular arguments (zero scale, zero determinant, near plane equal to far plane, camera looking along its up vector) are outside the property']

    def inv_pair(p, r, nonzero=TRUE, rules=()):
        m, mi = pair(r.ret)
        ck.same('inverse-pair', p, flat(mmul(m, mi)), IDENT, N.Prover(assume=nonzero, rules=rules))
        if not rules:
            ck.same('inverse-pair-left', p, flat(mmul(mi, m)), IDENT, N.Prover(assume=nonzero, rules=rules))
    sy = lambda n: S(mk('sym', n))
    p = ck.fn('Transform', 'translate')
    inv_pair(p, ck.run(p, 'x', 'y', 'z'))
    p = ck.fn('Transform', 'scale')
    inv_pair(p, ck.run(p, 'x', 'y', 'z'), band(*[bnot(sy(c).eq(0)) for c in 'xyz']))
    for c in 'xyz':
        p = ck.fn('Transform', 'rotate_' + c)
        inv_pair(p, ck.run(p, 'a'))
    p = ck.fn('Transform', 'perspective')
    r = ck.run(p, 'fov', 'n', 'f')
    inv_pair(p, r, band(bnot(sy('n').eq(0)), bnot(sy('f').eq(0)), bnot((sy('f') - sy('n')).eq(0))))
    # matrix inverse proper
    p = ck.fn('Matrix', 'inverse')
    r = ck.run(p, 'a')
    a = mat(r.arg('a'))
    d = det4(a)
    ck.same('matrix-inverse', p, flat(mmul(a, mat(r.ret))), IDENT, N.Prover(assume=bnot(d.eq(0))))
    p = ck.fn('Matrix', 'transpose')
    r = ck.run(p, 'a')
    a = mat(r.arg('a'))
    ck.same('matrix-transpose', p, flat(mat(r.ret)), [a[j][i] for i in range(4) for j in range(4)])
    p = ck.fn('Matrix', 'mul', 'Mul')
    r = ck.run(p, 'a', 'b')
    ck.same('matrix-product', p, flat(mat(r.ret)), flat(mmul(mat(r.arg('a')), mat(r.arg('b')))))
    p = ck.fn('Matrix', 'div', 'Div')
    r = ck.run(p, 'a', 'b')
    ck.same('matrix-quotient', p, flat(mat(r.ret)), [x / S(r.arg('b').n) for x in flat(mat(r.arg('a')))])
    # entries are stored where they are named
    p = ck.fn('Matrix', 'new')
    nm = ['m%d' % i for i in range(16)]
    r = ck.run(p, *nm)
    ck.same('matrix-row-major', p, flat(mat(r.ret)), [mk('sym', x) for x in nm])
    for b in ck.M.method('Transform', 'from', 'From'):
        r = ck.run(b.path, 'a')
        mm, mi = pair(r.ret)
        src = r.arg('a')
        a = mat(src) if r.argty('a')[0] == 'adt' else [[src[i][j] for j in range(4)] for i in range(4)]
        ck.same('from-matrix-keeps-matrix', b.path, flat(mm), flat(a))
        iv = ck.run(ck.fn('Matrix', 'inverse'), 'q')
        sub = {x.n.id: y.n for x, y in zip(flat(mat(iv.arg('q'))), flat(a))}
        sub['__d'] = ()
        ck.same('from-matrix-inverse', b.path, flat(mi), [T.subst(x.n, sub) for x in flat(mat(iv.ret))])
    # look_at stores the inverse of the very matrix it stores
    p = ck.fn('Transform', 'look_at')
    r = ck.run(p, 'pos', 'look', 'up', opaque=[ck.fn('Matrix', 'inverse')])
    iv = [e for e in r.ev.events if e[1] == ck.fn('Matrix', 'inverse')]
    mm = r.ret.field(0)
    if iv:
        w = mk('call', ck.fn('Matrix', 'inverse'), mm.n)
        t = mm.t
        ck.same('look-at-inverse', p, flat(mat(r.ret.field(1))), flat(mat(V(r.ev.expand(t, w), t, r.ev))))
    else:
        m0, mi = pair(r.ret)
        ck.same('look-at-inverse', p, flat(mmul(m0, mi)), IDENT)
    # laws
    p = ck.fn('Transform', 'inverse')
    r = ck.run(p, 'a')
    m, mi = pair(r.ret)
    am, ai = pair(r.arg('a'))
    ck.same('inverse-swaps', p, flat(m), flat(ai))
    ck.same('inverse-swaps', p, flat(mi), flat(am))
    p = ck.fn('Transform', 'mul', 'Mul')
    r = ck.run(p, 'a', 'b')
    m, mi = pair(r.ret)
    (am, ai), (bm, bi) = pair(r.arg('a')), pair(r.arg('b'))
    ck.same('composition-matrix', p, flat(m), flat(mmul(am, bm)))
    ck.same('composition-inverse', p, flat(mi), flat(mmul(bi, ai)))
    for b in ck.M.method('Transform', 'transpose'):
        r = ck.run(b.path, 'a')
        m, mi = pair(r.ret)
        am, ai = pair(r.arg('a'))
        ck.same('transpose-pair', b.path, flat(m), [am[j][i] for i in range(4) for j in range(4)])
        ck.same('transpose-pair', b.path, flat(mi), [ai[j][i] for i in range(4) for j in range(4)])
    # nobody else can put a transform together: the constructors above are the only places that build one
    makers = builders(ck, 'transform::Transform')
    known = {ck.fn('Transform', x) for x in ('translate', 'scale', 'rotate_x', 'rotate_y', 'rotate_z', 'look_at', 'inverse', 'perspective')} | \
        {b.path for b in ck.M.method('Transform', 'from', 'From')} | {ck.fn('Transform', 'mul', 'Mul')} | {b.path for b in ck.M.method('Transform', 'transpose')} | \
        {b.path for b in ck.M.method('Transform', 'clone', 'Clone')}
    closed = close_private(ck, makers, known)
    for m in sorted(closed):
        ck.require(False, 'transform-built-elsewhere', m, 'builds a transform from parts without being one of the checked constructors')
    ck.floor('constructors', len(makers), 4)


def builders(ck, adt):
    """bodies with an aggregate of the given type"""
    out = set()
    for b in ck.M.bodies.values():
        for bl in b.blocks:
            for s in bl['s']:
                if s['s'] == 'assign' and s['v'].get('r') == 'agg' and s['v']['k'].get('n') == adt:
                    out.add(b.path)
    return out


def close_private(ck, makers, known):
    """makers neither known themselves nor only ever inlined into known ones"""
    import graph
    g = graph.calls(ck.M)
    rest = set(makers) - set(known)
    bad = set()
    for m in rest:
        up = graph.callers_of(g, m)
        # a helper all of whose callers are checked constructors has been analysed as part of them
        seen, st = set(), [m]
        okv = True
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            ups = graph.callers_of(g, x)
            if not ups and x not in known:
                okv = False
            for u in ups:
                if u not in known:
                    st.append(u)
        if not okv:
            bad.add(m)
    return bad


def point(m, p):
    h = [m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3] for i in range(4)]
    return Vec([h[0] / h[3], h[1] / h[3], h[2] / h[3]]), h[3]


def vect(m, v):
    return Vec([m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2] for i in range(3)])


def norml(mi, n):
    return Vec([mi[0][i] * n[0] + mi[1][i] * n[1] + mi[2][i] * n[2] for i in range(3)])


def C32(ck):
    ck.technique = ('Value-graph equality over MIR: applying a transform to each kind of geometric value is reduced to closed expressions and compared with the '
                    'homogeneous-coordinate definition (points move and are divided by w, directions ignore translation, normals use the inverse transpose, rays keep their extent); '
                    'each named transform is compared with the geometric map it is named after.')
    ck.assumptions = ['real arithmetic; points are not on the plane at infinity (w != 0)']
    apply = ck.fn('Transform', 'apply')
    inva = ck.fn('Transform', 'inverse_apply')
    ad = lambda n: ('adt', [k for k in ck.M.adts if last(k) == n][0], ())
    for fnp, flip in ((apply, False), (inva, True)):
        tag = 'inverse-' if flip else ''

        def go(kind):
            tp = [g for g in ck.M.bodies[fnp].gparams]
            return ck.run(fnp, 't', 'a', env={g: ad(kind) for g in tp})
        r = go('Point3f')
        m, mi = pair(r.arg('t'))
        m, mi = (mi, m) if flip else (m, mi)
        want, w = point(m, coords(r.arg('a')))
        ck.same(tag + 'point', fnp + '(Point3f)', coords(r.ret), want, assume=bnot(w.eq(0)))
        r = go('Vector3f')
        ck.same(tag + 'direction', fnp + '(Vector3f)', coords(r.ret), vect(m, coords(r.arg('a'))))
        r = go('Normal3f')
        ck.same(tag + 'normal', fnp + '(Normal3f)', coords(r.ret), norml(mi, coords(r.arg('a'))))
        r = go('Ray')
        want, w = point(m, coords(r.arg('a').origin))
        ck.same(tag + 'ray-origin', fnp + '(Ray)', coords(r.ret.origin), want, assume=bnot(w.eq(0)))
        ck.same(tag + 'ray-direction', fnp + '(Ray)', coords(r.ret.direction), vect(m, coords(r.arg('a').direction)))
        ck.same(tag + 'ray-extent', fnp + '(Ray)', r.ret.t_max, r.arg('a').t_max)
    # equality of transforms is equality of their matrices
    b = ck.M.method('Transform', 'eq', 'PartialEq')
    for x in b:
        r = ck.run(x.path, 'a', 'b')
        ck.same('transform-equality', x.path, r.ret.n, band(*[p.eq(q) for p, q in zip(flat(pair(r.arg('a'))[0]), flat(pair(r.arg('b'))[0]))]))
    sy = lambda n: S(mk('sym', n))
    P = Vec([sy('px'), sy('py'), sy('pz')])

    def moved(r):
        return point(pair(r.ret)[0], P)[0]
    p = ck.fn('Transform', 'translate')
    ck.same('translate-adds', p, moved(ck.run(p, 'x', 'y', 'z')), P + Vec([sy(c) for c in 'xyz']))
    p = ck.fn('Transform', 'scale')
    ck.same('scale-multiplies', p, moved(ck.run(p, 'x', 'y', 'z')), P * Vec([sy(c) for c in 'xyz']))
    a = sy('a') * PI / 180
    cs, sn = ap('cos', a), ap('sin', a)
    x, y, z = P
    for c, want in (('x', [x, y * cs - z * sn, y * sn + z * cs]), ('y', [x * cs + z * sn, y, z * cs - x * sn]), ('z', [x * cs - y * sn, x * sn + y * cs, z])):
        p = ck.fn('Transform', 'rotate_' + c)
        ck.same('rotation-right-handed-degrees', p, moved(ck.run(p, 'a')), Vec(want))
    p = ck.fn('Transform', 'perspective')
    r = ck.run(p, 'fov', 'n', 'f')
    n, f = sy('n'), sy('f')
    k = 1 / ap('tan', sy('fov') * PI / 180 / 2)
    ck.same('perspective-divides-by-depth', p, moved(r), Vec([x * k / z, y * k / z, (f / (f - n)) * (z - n) / z]), assume=band(bnot(z.eq(0)), bnot((f - n).eq(0))))
    p = ck.fn('Transform', 'look_at')
    r = ck.run(p, 'pos', 'look', 'up', opaque=[ck.fn('Matrix', 'inverse')])
    m = mat(r.ret.field(0))
    pos, look, up = [coords(r.arg(q)) for q in ('pos', 'look', 'up')]
    d = (look - pos).unit()
    left = up.unit().cross(d).unit()
    col = lambda j: Vec([m[i][j] for i in range(3)])
    ck.same('look-at-forward', p, col(2), d)
    ck.same('look-at-right', p, col(0), left)
    ck.same('look-at-up', p, col(1), d.cross(left))
    ck.same('look-at-position', p, col(3), pos)
    ck.same('look-at-affine', p, m[3], [num(0), num(0), num(0), num(1)])


def C39(ck):
    ck.technique = ('Value-graph implication over MIR: applying an affine transform to a bounding box yields a box whose every face bounds the image of all eight corners '
                    '(hence of the whole box); the transformed error bound dominates the worst case over all errors within the old bound; the other parts of a '
                    'surface interaction move by the map of their kind, and its normals keep unit length.')
    ck.assumptions = ['real arithmetic; the transform is affine (last row 0 0 0 1), as every transform of scene geometry is']
    apply = ck.fn('Transform', 'apply')
    inva = ck.fn('Transform', 'inverse_apply')
    ad = lambda n: ('adt', [k for k in ck.M.adts if last(k) == n][0], ())
    for fnp, flip in ((apply, False), (inva, True)):
        tag = 'inverse-' if flip else ''

        def go(kind):
            tp = [g for g in ck.M.bodies[fnp].gparams]
            r = ck.run(fnp, 't', 'a', env={g: ad(kind) for g in tp})
            m, mi = pair(r.arg('t'))
            m, mi = (mi, m) if flip else (m, mi)
            return r, m, mi, band(m[3][0].eq(0), m[3][1].eq(0), m[3][2].eq(0), m[3][3].eq(1))
        aff = lambda m, p: Vec([m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3] for i in range(3)])
        r, m, mi, af = go('BBox3f')
        lo, hi = coords(r.arg('a').min), coords(r.arg('a').max)
        glo, ghi = coords(r.ret.min), coords(r.ret.max)
        for k in range(8):
            c = aff(m, [(hi if k >> j & 1 else lo)[j] for j in range(3)])
            for j in range(3):
                w = '%s(BBox3f) corner %d axis %d' % (fnp, k, j)
                ck.implies(tag + 'box-bounds-corners', w, af, glo[j] <= c[j], what='the lower face is not above the corner')
                ck.implies(tag + 'box-bounds-corners', w, af, c[j] <= ghi[j], what='the upper face is not below the corner')
        r, m, mi, af = go('Interaction')
        a, o = r.arg('a'), r.ret
        w = fnp + '(Interaction)'
        ck.same(tag + 'interaction-point', w, coords(o.p), aff(m, coords(a.p)), assume=af)
        e = coords(a.p_err)
        epos = band(*[x >= 0 for x in e])
        g = coords(o.p_err)
        for i in range(3):
            bound = absf(m[i][0]) * e[0] + absf(m[i][1]) * e[1] + absf(m[i][2]) * e[2]
            ck.implies(tag + 'error-stays-bound', '%s axis %d' % (w, i), band(af, epos), bound <= g[i],
                       what='the transformed error bound covers the worst case')
        for f in ('dpdu', 'dpdv', 'wo'):
            ck.same(tag + 'interaction-direction', '%s.%s' % (w, f), coords(o.field(f)), vect(m, coords(a.field(f))), assume=af)
        for f in ('n', 'sn'):
            v = norml(mi, coords(a.field(f)))
            some = bor(*[bnot(x.eq(0)) for x in v])
            got = coords(o.field(f))
            ck.same(tag + 'normal-unit', '%s.%s' % (w, f), got, v.unit(), assume=band(v.length() > 0, some))
            zero = {x.n.id: num(0) for x in coords(a.field(f))}
            ck.same(tag + 'normal-missing-stays-missing', '%s.%s' % (w, f), [T.subst(x.n, zero) for x in got], [num(0)] * 3)
        ck.same(tag + 'interaction-parameters', w, coords(o.uv), coords(a.uv))
        so, sa = o.shape.n, a.shape.n
        bare = lambda x: x.a[0] if x.op == 'ref' and x.a else x
        ck.require(so is sa or so.op == 'enum' and sa.op == 'enum' and so.a[0] is sa.a[0] and bare(so.a[1]) is bare(sa.a[1]),
                   tag + 'interaction-shape', w, 'the shape of the interaction is lost')


def C35(ck):
    ck.technique = ('Value-graph equality over MIR: the raster-to-camera chain stored by the camera constructor is reduced to a matrix product and compared with the '
                    'corner-to-corner screen mapping, and the generated ray is compared with the pinhole construction for every film position.')
    ck.assumptions = ['real arithmetic; the screen window has non-zero width and height']
    p = ck.fn('PerspectiveCamera', 'new')
    mi_f = ck.fn('Matrix', 'inverse')
    r = ck.run(p, 'c2w', 'c2s', 'win', 'res')
    cam = r.ret
    w0, w1 = box(r.arg('win'))
    rx, ry = coords(r.arg('res'))
    names = [f['n'] for f in ck.M.adts[cam.base()[1]]['v'][0]['f']]
    # which stored transform the ray generator uses
    g = ck.fn('PerspectiveCamera', 'generate_ray', 'Camera')
    q = ck.run(g, 'self', 's')
    used = [n for n in names if any(x.n in set(N.subterms(q.ret.n)) for m in pair(q.arg('self').field(n)) for x in flat(m))]
    ck.count('transforms used', len(used))
    film = coords(q.arg('s').p_film)
    ck.require(len(used) == 2, 'ray-uses-camera-transforms', g, 'expected the raster and the world transform, found %s' % used)
    sub = {'__d': ()}
    for n in used:
        for a, b in zip(pair(q.arg('self').field(n)), pair(cam.field(n))):
            for s, t in zip(flat(a), flat(b)):
                sub[s.n.id] = t.n
    memo = {}
    composed = lambda x: S(T.subst(x.n, sub, memo))
    # screen window corner to corner: film (0,0) is the upper left corner
    sx = w0[0] + film[0] / rx * (w1[0] - w0[0])
    sy_ = w1[1] - film[1] / ry * (w1[1] - w0[1])
    cs, csi = pair(r.arg('c2s'))
    camp, wp = point(csi, Vec([sx, sy_, 0]))
    wm, wmi = pair(r.arg('c2w'))
    dirn = vect(wm, camp.unit())
    orig, ow = point(wm, Vec([0, 0, 0]))
    ok = band(bnot((w1[0] - w0[0]).eq(0)), bnot((w1[1] - w0[1]).eq(0)), bnot(rx.eq(0)), bnot(ry.eq(0)))
    h = [csi[i][0] * sx + csi[i][1] * sy_ + csi[i][3] for i in range(4)]
    got_d = [composed(x) for x in coords(q.ret.direction)]
    got_o = [composed(x) for x in coords(q.ret.origin)]
    ck.same('ray-origin-is-eye', g, Vec(got_o), orig, assume=band(bnot(ow.eq(0)), ok))
    # direction: first the raster-to-camera matrix itself
    rn = [n for n in used if any(x.n in set(N.subterms(q.ret.direction.n)) for x in flat(pair(q.arg('self').field(n))[0])) and n not in [m for m in used if any(x.n in set(N.subterms(q.ret.origin.n)) for x in flat(pair(q.arg('self').field(m))[0]))]]
    if ck.require(len(rn) == 1, 'ray-uses-raster-transform', g, 'no transform carries the film position to the camera'):
        m = mat(cam.field(rn[0]).field(0))
        hm = [m[i][0] * film[0] + m[i][1] * film[1] + m[i][3] for i in range(4)]
        ck.same('raster-to-camera', p, hm, h, assume=ok)
        sm, smi = pair(q.arg('self').field(rn[0]))
        pc, w = point(sm, Vec([film[0], film[1], 0]))
        wname = [n for n in used if n != rn[0]][0]
        wt = mat(q.arg('self').field(wname).field(0))
        ck.same('ray-direction', g, coords(q.ret.direction), vect(wt, pc.unit()), assume=bnot(w.eq(0)))
        wmat = mat(cam.field(wname).field(0))
        ck.same('camera-placement', p, flat(wmat), flat(wm))
    ck.same('ray-unbounded', g, q.ret.t_max, T.INF)
