"""Sampling maps and textures."""
from fractions import Fraction
import terms as T
import norm as N
import loops as LP
import p_kd as K
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, Vec, S, PI, sqrt, xyz, xy, Missing, n_, strip
from p_light import fl, calls, traitret
from p_bxdf import Settled, sole
from p_emit import deriv, circle, NoDerivative, unit_square, args_are

HALF = Fraction(1, 2)


def at(n, m):
    """the value with some inputs replaced, constant angles evaluated"""
    n = LP.replace(n, {v.id: x for v, x in m})
    pi = PI.n
    h = mk('sym', 'sqrt-half')
    d = {}
    nn = N.Norm()
    for x in N.subterms(n):
        name = x.k if x.op == 'fn' else x.op
        if name not in ('sin', 'cos'):
            continue
        for k in range(-16, 17):
            if nn.canon(T.sub(x.a[0], T.mul(pi, num(Fraction(k, 4))))) is nn.canon(num(0)):
                j = (k if name == 'cos' else k - 2) % 8
                d[x.id] = {0: num(1), 1: h, 2: num(0), 3: T.neg(h), 4: num(-1), 5: T.neg(h), 6: num(0), 7: h}[j]
    return LP.replace(n, d) if d else n


def disk(ck):
    r = ck.run(ck.free('sampling::concentric_sample_disk'), 'u')
    p = r.path
    u = xy(r.arg('u'))
    a, b = [x * 2 - S(1) for x in u]
    P = [x.n for x in xy(r.ret)]
    sq = unit_square(u)
    ck.defined('defined', p, P, assume=sq)
    ck.same('centre', p, [at(x, [(v.n, num(HALF)) for v in u]) for x in P], [num(0), num(0)])
    branch = {}
    sg = []
    for i, big, small in ((0, a, b), (1, b, a)):
        for s in (1, -1):
            for t in (1, -1):
                z = Settled(band(sq, T.lt(num(0), (big * s).n), T.lt(num(0), (small * t).n), T.lt((small * t).n, (big * s).n)))
                Q = [z.val(x) for x in P]
                branch[i, s, t] = Q
                ck.same('radius', p, circle((S(Q[0]) * S(Q[0]) + S(Q[1]) * S(Q[1])).n), big * big, prover=z.pr)
                try:
                    d = [[S(deriv(x, v.n)) for v in u] for x in Q]
                    J = circle((d[0][0] * d[1][1] - d[0][1] * d[1][0]).n)
                    ck.same('uniform', p, T.mul(J, J), PI * PI, prover=z.pr)
                    for w in (1, -1):
                        if z.pr.prove(J, (PI * w).n) is None:
                            sg.append(w)
                except NoDerivative as e:
                    ck.fail('uniform', p, 'whether points are sampled uniformly is not decided: ' + str(e))
    ck.require(len(sg) == 8 and len(set(sg)) == 1, 'one-to-one', p, 'the map does not keep one orientation: parts of the disk are covered twice')
    # the pieces meet on the diagonals and on the axes
    for s in (1, -1):
        for t in (1, -1):
            m = [(u[1].n, (u[0] if s == t else S(1) - u[0]).n)]
            pr = N.Prover(assume=band(sq, T.lt(num(0), (a * s).n)))
            ck.same('continuous', p, [at(x, m) for x in branch[0, s, t]], [at(x, m) for x in branch[1, t, s]], prover=pr)
        for i, big in ((0, a), (1, b)):
            m = [(u[1 - i].n, num(HALF))]
            pr = N.Prover(assume=band(sq, T.lt(num(0), (big * s).n)))
            ck.same('continuous', p, [at(x, m) for x in branch[i, s, 1]], [at(x, m) for x in branch[i, s, -1]], prover=pr)
    return r


def hemisphere(ck, d):
    r = ck.run(ck.free('sampling::cosine_sample_hemisphere'), 'u')
    p = r.path
    P = [x.n for x in xyz(r.ret)]
    D = [LP.replace(x.n, {v.n.id: w.n for v, w in zip(xy(d.arg('u')), xy(r.arg('u')))}) for x in xy(d.ret)]
    ck.same('projects-to-disk', p, P[:2], D)
    x, y = [S(mk('sym', 'disk-' + v)) for v in 'xy']
    g = LP.replace(P[2], {D[0].id: x.n, D[1].id: y.n})
    ok = T.le((x * x + y * y).n, num(1))
    ck.same('unit-length', p, S(g) * S(g), S(1) - x * x - y * y, assume=T.lt((x * x + y * y).n, num(1)))
    ck.implies('upper-half', p, ok, T.le(num(0), g), what='the direction lies in the upper half')


def degree(n, vs, memo):
    """the power of a common factor of `vs` in the value; None if it is no power"""
    if n.id in memo:
        return memo[n.id]
    if n in vs:
        return 1
    if not any(v in N.subterms(n) for v in vs):
        return 0
    d = [degree(x, vs, memo) for x in n.a if not T.is_bool(x)]
    name = n.k if n.op == 'fn' else n.op
    r = None
    if None not in d:
        if n.op == 'mul':
            r = sum(d)
        elif n.op == 'fdiv':
            r = d[0] - d[1]
        elif name == 'sqrt':
            r = Fraction(d[0]) / 2
        elif n.op in ('neg', 'abs') or name in ('abs', 'neg', 'i2f', 'f2f'):
            r = d[0]
        elif n.op in ('add', 'max', 'min', 'ite'):
            r = d[0] if len(set(d)) == 1 else None
    memo[n.id] = r
    return r


def heuristic(ck):
    pa = ck.free('sampling::power_heuristic')
    r = ck.run(pa, 'n1', 'f', 'n2', 'g')
    p = r.path
    n1, f, n2, g = [r.arg(x) for x in ('n1', 'f', 'n2', 'g')]
    pos = band(T.lt(num(0), f.n), T.lt(num(0), g.n), T.lt(num(0), n1.n), T.lt(num(0), n2.n))
    A, B = n1 * f, n2 * g
    ck.same('power-heuristic', p, r.ret, (A * A) / (A * A + B * B), assume=pos)
    q = ck.run(pa, 'n1', 'f', 'n2', 'g', args=[n2.n, g.n, n1.n, f.n])
    ck.same('weights-sum-to-one', p, r.ret + q.ret, S(1), assume=pos)
    # every intermediate value stays within the range of the densities and their ratio
    memo = {}
    n = 0
    for x in N.subterms(r.ret.n):
        if T.is_bool(x) or x.op in ('sym', 'num'):
            continue
        k = degree(x, (f.n, g.n), memo)
        n += 1
        if k is None or abs(k) > 1:
            ck.fail('no-overflow', p, 'a value of degree %s in the densities is formed, which overflows for large densities: %s' % (k, T.show(x, 4)))
            break
    else:
        ck.ok('no-overflow', p)
    ck.count('weight-terms', n)


def C38(ck):
    ck.technique = ('Evaluated MIR of the sampling maps, split into the sectors where their conditions are decided; the area element by symbolic differentiation with sines and cosines as rational functions; '
                    'homogeneity (degree) analysis of the weights.')
    d = disk(ck)
    hemisphere(ck, d)
    heuristic(ck)
    r = ck.run(ck.fn('Vector3f', 'from_spherical_direction'), 's', 'c', 'p')
    s, c, ph = [r.arg(x) for x in 'scp']
    ck.same('spherical-direction', r.path, list(xyz(r.ret)), [s * S(T.fn('cos', ph.n)), s * S(T.fn('sin', ph.n)), c])


# -- textures

class Undecided(Exception):
    pass


def values(n, par):
    """an integer as {parity} or {exact value, up to sign}; par gives the parity of atoms"""
    name = n.k if n.op == 'fn' else n.op
    if n.op == 'num':
        if n.k.denominator != 1:
            raise Undecided(T.show(n, 3))
        return ('=', {int(n.k)})
    if n.id in par:
        return ('~', par[n.id])
    if n.op == 'ite':
        c = truth(n.a[0], par)
        return values(n.a[1] if c else n.a[2], par)
    v = [values(x, par) for x in n.a if not T.is_bool(x)]
    if any(T.is_bool(x) for x in n.a):
        raise Undecided(T.show(n, 3))
    odd = [next(iter(x[1])) & 1 if x[0] == '=' else x[1] for x in v]
    const = all(x[0] == '=' for x in v)
    nm = strip_kind(n)
    if nm == 'add':
        return ('=', {a + b for a in v[0][1] for b in v[1][1]}) if const and len(v) == 2 else ('~', sum(odd) & 1)
    if nm == 'mul':
        r = 1
        for o in odd:
            r &= o
        return ('=', {a * b for a in v[0][1] for b in v[1][1]}) if const and len(v) == 2 else ('~', r)
    if nm == 'neg':
        return ('=', {-a for a in v[0][1]}) if const else v[0]
    if nm == 'abs':
        return ('=', {abs(a) for a in v[0][1]}) if const else v[0]
    if nm == 'wide':
        return v[0]
    if nm in ('xor', 'and', 'or'):
        r = odd[0] ^ odd[1] if nm == 'xor' else odd[0] & odd[1] if nm == 'and' else odd[0] | odd[1]
        if nm == 'and' and ('=', {1}) in v:
            return ('=', {r})
        if const:
            f = {'xor': int.__xor__, 'and': int.__and__, 'or': int.__or__}[nm]
            return ('=', {f(a, b) for a in v[0][1] for b in v[1][1]})
        return ('~', r)
    if nm in ('mod', 'rem_euclid') and v[1] == ('=', {2}):
        if not odd[0]:
            return ('=', {0})
        return ('=', {1} if nm == 'rem_euclid' else {1, -1})
    raise Undecided(T.show(n, 3))


def strip_kind(n):
    name = n.k if n.op == 'fn' else n.op
    if n.op == 'f2i' or str(name).startswith('f2i'):
        if not any(w in str(n.k) for w in ('64', '128', 'size')):
            raise Undecided('a number of cells is kept in too few bits: ' + T.show(n, 3))
        return 'wide'
    if n.op in ('floor',) or name == 'floor':
        return 'wide'
    if str(name).startswith('i2f') or str(name).startswith('cast') or n.op == 'icast':
        return 'wide'
    if n.op in ('rem', 'irem', 'mod'):
        return 'mod'
    m = {'bit&': 'and', 'bit|': 'or', 'bit^': 'xor', 'band': 'and', 'bitand': 'and', 'bitxor': 'xor', 'bxor': 'xor', 'bitor': 'or'}
    return m.get(str(name), str(name))


def truth(c, par):
    if c in (TRUE, FALSE):
        return c is TRUE
    if c.op == 'B':
        return truth(c.a[1] if truth(c.a[0], par) else c.a[2], par)
    if c.op == 'atom' or len(c.a) == 1:
        return truth(c.a[0], par)
    a, b = [values(x, par) for x in c.a]
    if a[0] != '=' and b[0] != '=' or c.op not in ('eq', 'ne', 'lt', 'le'):
        raise Undecided(T.show(c, 3))
    # one side only up to parity: decided if the parities differ
    if a[0] != '=' or b[0] != '=':
        x, y = (a, b) if a[0] != '=' else (b, a)
        if c.op == 'eq' and all((v & 1) != x[1] for v in y[1]):
            return False
        raise Undecided(T.show(c, 3))
    f = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y}[c.op]
    s = {f(x, y) for x in a[1] for y in b[1]}
    if len(s) != 1:
        raise Undecided('the colour depends on the side of zero: ' + T.show(c, 3))
    return s.pop()


def choose(n, par):
    while n.op == 'ite':
        n = n.a[1] if truth(n.a[0], par) else n.a[2]
    return n


def checker(ck, adt, dims):
    o = ck.run(ck.fn(adt, 'new'), 'mapping', 'tex1', 'tex2')
    r = ck.run(ck.fn(adt, 'evaluate', 'Texture'), 'self', 'i', args=[o.ret.n, None])
    p = r.path
    cs = calls(ck, r.ev, 'map', traitret(ck, 'TextureMapping%dD' % dims, 'map'))
    if not ck.require(len(cs) >= 1 and len({c.n.id for c in cs}) == 1, 'mapped', p, 'the point is mapped %d times' % len(cs)):
        return
    c = cs[0]
    ck.require(len(c.args) == 2 and K.unboxed(c.args[0]) is K.unboxed(o.arg('mapping').n) and args_are(r, c, V(c.args[0], r.arg('self').field(0).t, r.ev), r.arg('i')), 'mapped', p, 'not the mapping of the texture at the point hit')
    x = list(xyz(c.v) if dims == 3 else xy(c.v))
    cells = [T.fn('floor', v.n) for v in x]
    tex = [o.arg('tex1').n, o.arg('tex2').n]
    for k in range(2 ** dims):
        par = {f.id: k >> j & 1 for j, f in enumerate(cells)}
        want = tex[bin(k).count('1') & 1]
        where = '%s, cells %s' % (p, ['odd' if k >> j & 1 else 'even' for j in range(dims)])
        try:
            got = choose(r.ret.n, par)
        except Undecided as e:
            ck.fail('alternating', p, 'the colour in %s is not decided: %s' % (where, e))
            return
        if not ck.require(got is want, 'alternating', p, 'wrong colour in ' + where):
            return


def C41(ck):
    ck.technique = 'Evaluated MIR of every texture and mapping on the object its constructor makes; parity analysis of the cell numbers (every combination of even and odd cells, on either side of zero).'
    o = ck.run(ck.fn('ConstantTexture', 'new'), 'value')
    r = ck.run(ck.fn('ConstantTexture', 'evaluate', 'Texture'), 'self', 'i', args=[o.ret.n, None])
    ck.require(r.ret.n is o.arg('value').n, 'constant', r.path, 'not the value given')
    checker(ck, 'CheckerboardTexture', 2)
    checker(ck, 'Checkerboard3DTexture', 3)
    o = ck.run(ck.fn('UVMapping2D', 'new'), 'su', 'sv', 'du', 'dv')
    r = ck.run(ck.fn('UVMapping2D', 'map', 'TextureMapping2D'), 'self', 'i', args=[o.ret.n, None])
    u = xy(r.arg('i').uv)
    su, sv, du, dv = [o.arg(k) for k in ('su', 'sv', 'du', 'dv')]
    ck.same('scaled-and-shifted', r.path, list(xy(r.ret)), [u[0] * su + du, u[1] * sv + dv])
    o = ck.run(ck.fn('IdentityMapping3D', 'new'), 't')
    r = ck.run(ck.fn('IdentityMapping3D', 'map', 'TextureMapping3D'), 'self', 'i', args=[o.ret.n, None])
    P = xyz(r.arg('i').p)
    m = o.arg('t').m.field(0)
    row = [m[i][0] * P[0] + m[i][1] * P[1] + m[i][2] * P[2] + m[i][3] for i in range(4)]
    ck.same('transformed', r.path, list(xyz(r.ret)), [row[i] / row[3] for i in range(3)], assume=bnot(T.eq(row[3].n, num(0))))
    known = {'ConstantTexture', 'CheckerboardTexture', 'Checkerboard3DTexture', 'UVMapping2D', 'IdentityMapping3D'}
    for i in ck.M.impls:
        t = (i.get('trait') or '').split('::')[-1].split('<')[0]
        if t in ('Texture', 'TextureMapping2D', 'TextureMapping3D') and 'test' not in str(i['selft']):
            ck.count('texture-impls', ck.counts.get('texture-impls', 0) + 1)
            ck.require(any(k in str(i['selft']) for k in known), 'all-covered', str(i['selft'])[:80], 'a texture the rules do not know')


# -- meshes

def C42(ck):
    ck.technique = 'Evaluated MIR of the mesh constructor: the list it returns as a function of the index, for an index that stands for all of them.'
    r = ck.run(ck.fn('Triangle', 'new_triangle_mesh'), 'v', 'ix', 'vn', 'ni', 'material')
    p = r.path
    v, ix, vn, ni = [r.arg(k) for k in ('v', 'ix', 'vn', 'ni')]

    def slice_(x):
        return V(K.unboxed(x.n), x.t[2][0] if x.t[0] == 'adt' and x.t[1].endswith('Box') else x.t, x.ev)
    v, ix = slice_(v), slice_(ix)
    nl, il = slice_(vn.some()), slice_(ni.some())
    ck.require(not r.ev.unknown, 'decided', p, 'the constructor is not decided: %s' % sorted(r.ev.unknown)[:3])
    ck.same('one-for-each-triple', p, r.ret.len(), ix.len())
    i = S(mk('sym', 'i'))
    inr = band(T.le(num(0), i.n), T.lt(i.n, ix.len().n))
    t = r.ret[i.n]
    adt = ck.M.adts[t.base()[1]]
    n = len(adt['v'][0]['f'])
    seen = 0
    for k in range(n):
        f = t.field(k)
        if f.t[0] == 'array':
            seen += 1
            for j in range(3):
                ck.same('vertices', p, list(xyz(f[j])), list(xyz(v[ix[i.n][j].n])), assume=inr)
        elif f.t[0] == 'adt' and f.t[1].endswith('Option'):
            seen += 1
            full = band(inr, ni.isome(), vn.isome(), T.le(ix.len().n, il.len().n))
            z = N.Prover(assume=full)
            ck.same('vertex-normals', p, f.n.a[0], num(1), prover=z)
            for j in range(3):
                ck.same('vertex-normals', p, list(xyz(f.some()[j])), list(xyz(nl[il[i.n][j].n])), prover=z)
            for c in (bnot(ni.isome()), band(ni.isome(), T.lt(il.len().n, ix.len().n))):
                ck.same('no-vertex-normals', p, f.n.a[0], num(0), assume=band(inr, c))
        elif f.t == ('prim', 'bool'):
            seen += 1
            ck.require(f.n is FALSE or f.n is T.atom(FALSE), 'orientation', p, 'the triangles of a mesh are turned over')
        else:
            seen += 1
            ck.require(K.bare(f.n) is K.bare(r.arg('material').n), 'material', p, 'not the material of the mesh')
    ck.count('fields', seen)
    ck.require(seen == 4, 'all-covered', p, 'a triangle has %d parts, 4 are known' % seen)
