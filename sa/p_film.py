"""Film, tiles, image output."""
import terms as T
import norm as N
import eval as E
import loops as LP
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, Vec, S, fn, ap, sqrt, absf, vmax, vmin, ite, PI, xyz, xy, rgb, Missing, n_
from p_algebra import coords, comps, box, last

I32 = ('prim', 'i32')


def adtname(ck, n):
    l = [k for k in ck.M.adts if last(k) == n]
    if len(l) != 1:
        raise Missing('expected one type named %s, found %d' % (n, len(l)))
    return l[0]


def nxt(ck, itername):
    return ck.fn(itername, 'next', 'Iterator')


def f2i(x):
    return V(mk('f2i', 'i32', n_(x)))


def enum_law(ck, where, ctor_ret, run, lo, hi, emit, pre=TRUE, flat_out=None):
    """the iterator yields emit(x, y) for every x in [lo.x, hi.x), row by row, y in [lo.y, hi.y), and then nothing"""
    init = LP.flatten(ctor_ret.n)
    inn = LP.flatten(run.arg('self').n)
    out = LP.flatten(run.out('self').n)
    if len(init) != len(inn) or len(inn) != len(out):
        raise Missing('%s: the iterator state has an unexpected shape' % where)
    pr = N.Prover(assume=pre)
    const = [j for j in range(len(inn)) if pr.prove(out[j], inn[j]) is None]
    var = [j for j in range(len(inn)) if j not in const]
    if not ck.require(len(var) == 2, 'iterator-position', where, 'the iterator keeps %d changing values, expected a column and a row' % len(var)):
        return
    sx, sy = mk('sym', 'cx'), mk('sym', 'cy')
    best = None
    for jx, jy in (var, var[::-1]):
        okx = pr.prove(init[jx], lo[0]) is None
        oky = pr.prove(init[jy], lo[1]) is None
        m = {inn[j].id: init[j] for j in const}
        m[inn[jx].id], m[inn[jy].id] = sx, sy
        # the column is the value that moves on within a row
        asm = band(pre, T.lt(T.add(sx, num(1)), hi[0]), T.lt(sx, hi[0]), T.lt(sy, hi[1]), T.le(lo[0], sx), T.le(lo[1], sy))
        try:
            ox = LP.peel(LP.replace(out[jx], m), N.Prover(assume=asm))
            moves = N.Prover(assume=asm).prove(ox, T.add(sx, num(1))) is None
        except LP.Undecided:
            moves = False
        sc = okx + oky + 2 * moves
        if best is None or sc > best[0]:
            best = (sc, jx, jy, m)
    sc, jx, jy, m = best
    ck.same('iterator-starts-at-first', where, [init[jx], init[jy]], [lo[0], lo[1]], N.Prover(assume=pre))
    ret = run.ret
    some = LP.replace(ret.isome(), m)
    pay = [LP.replace(x, m) for x in LP.flatten(ret.some().n)]
    oxy = [LP.replace(out[j], m) for j in (jx, jy)]

    def case(name, asm, want, after):
        asm = band(pre, asm)
        p = N.Prover(assume=asm)
        try:
            s = LP.peel(some, p)
            if want is None:
                r = p.prove(s, FALSE)
                if r is not None:
                    return ck.fail('iterator-' + name, where, 'an element is produced past the end: ' + r.text())
                if after is not None:
                    y = LP.peel(oxy[1], p)
                    r = p.prove(T.le(after, y), TRUE)
                    if r is not None:
                        return ck.fail('iterator-' + name, where, 'the iterator can start again after its end: ' + r.text())
                return ck.ok('iterator-' + name, where)
            r = p.prove(s, TRUE)
            if r is not None:
                return ck.fail('iterator-' + name, where, 'an element is missing: ' + r.text())
            for g, w in zip(pay, want):
                r = p.prove(LP.peel(g, p), w)
                if r is not None:
                    return ck.fail('iterator-' + name, where, 'wrong element: ' + r.text())
            for g, w in zip(oxy, after):
                r = p.prove(LP.peel(g, p), w)
                if r is not None:
                    return ck.fail('iterator-' + name, where, 'wrong next position: ' + r.text())
            ck.ok('iterator-' + name, where)
        except LP.Undecided as e:
            ck.fail('iterator-' + name, where, str(e))
    one = num(1)
    row = band(T.le(lo[0], sx), T.le(lo[1], sy))
    nonempty = T.lt(lo[0], hi[0])
    # positions are integers: cx < hi means cx + 1 <= hi
    inside = band(row, T.lt(sx, hi[0]), T.lt(sy, hi[1]), T.le(T.add(sx, one), hi[0]))
    last = T.eq(hi[0], T.add(sx, one))
    if steps_to_next_row(oxy, band(pre, inside, last), [lo[0], T.add(sy, one)]):
        # the position moves to the next row at once: it is never past the end of a row
        case('within-row', band(inside, bnot(last)), emit(sx, sy), [T.add(sx, one), sy])
        case('next-row', band(inside, last), emit(sx, sy), [lo[0], T.add(sy, one)])
    else:
        case('within-row', inside, emit(sx, sy), [T.add(sx, one), sy])
        case('next-row', band(row, T.le(hi[0], sx), nonempty, T.lt(T.add(sy, one), hi[1])), emit(lo[0], T.add(sy, one)), [T.add(lo[0], one), T.add(sy, one)])
        case('after-last-row', band(row, T.le(hi[0], sx), nonempty, T.le(hi[1], T.add(sy, one)), T.lt(sy, hi[1])), None, hi[1])
    case('stays-at-end', band(row, T.le(hi[1], sy)), None, hi[1])
    # empty rows: nothing is produced at all
    asm = band(pre, row, T.le(hi[0], lo[0]))
    p = N.Prover(assume=asm)
    ck.require(all(exit_false(x, p) for x in bool_leaves(some)), 'iterator-empty', where, 'an element can be produced although there are no columns')


def steps_to_next_row(oxy, asm, want):
    p = N.Prover(assume=asm)
    try:
        return all(p.prove(LP.peel(g, p), w) is None for g, w in zip(oxy, want))
    except LP.Undecided:
        return False


def bool_leaves(n):
    return [n]


def exit_false(n, p):
    """the condition is false; loops in it are judged on their exit values"""
    ls = LP.loops_in(n)
    if not ls:
        return p.prove(n, FALSE) is None
    if len(ls) > 1:
        return False
    L = LP.Loop(ls[0])
    cases = [dict(zip([x.id for x in L.phis], L.inits)), dict(zip([x.id for x in L.phis], L.nexts))]
    for c in cases:
        if any(ph in N.subterms(v) for v in c.values() for ph in L.phis):
            return False
        c['__d'] = (L.d,)
        t, k = T.subst(L.term, c), T.subst(L.cont, c)
        if T.is_bool(t):
            b = band(t, bnot(k))
        else:
            b = band(LP.replace(n, {ls[0].id: t}), bnot(k))
        if not T.is_bool(L.term):
            if p.prove(b, FALSE) is not None:
                return False
        else:
            # the loop value is itself a condition
            n2 = LP.replace(n, {ls[0].id: t})
            if p.prove(band(n2, bnot(k)), FALSE) is not None:
                return False
    return True


def pixel_iter_law(ck):
    """pixels of a box, each once, row by row"""
    it = ck.fn('BBox2', 'iter')
    c = ck.run(it, 'b')
    nx = nxt(ck, 'BBox2iIter')
    r = ck.run(nx, 'self')
    b0, b1 = box(c.arg('b'))
    enum_law(ck, nx, c.ret, r, [x.n for x in b0], [x.n for x in b1], lambda x, y: [x, y])


TILES = (16, 32, 8, 64, 4, 128)


def C07(ck):
    ck.technique = ('Value-graph case analysis over MIR: the tile iterator and the pixel iterator are each shown to be a row-major enumeration (start, step within a row, '
                    'step to the next row, end, empty box), tile boxes are compared with the fixed-stride partition clipped to the sample area, and the '
                    'sample area with the reach of the filter around the image.')
    ck.assumptions = ['coordinates stay in the range of 32-bit integers']
    it = ck.fn('Film', 'iter')
    c = ck.run(it, 'b')
    sb = ck.run(ck.fn('Film', 'sample_bbox'), 'b')
    b0, b1 = box(sb.ret)
    nx = nxt(ck, 'FilmTileIter')
    r = ck.run(nx, 'self')
    # name the sample area so that the partition is judged for any box
    area = [mk('sym', 'ax0'), mk('sym', 'ay0'), mk('sym', 'ax1'), mk('sym', 'ay1')]
    m = {'__d': ()}
    for x, a in zip(list(b0) + list(b1), area):
        m[x.n.id] = a
    ctor = V(T.subst(c.ret.n, m), c.ret.t, c.ret.ev)
    lo, hi = area[:2], area[2:]
    pre = band(T.le(lo[0], hi[0]), T.le(lo[1], hi[1]))
    size = None
    for t in TILES:
        nt = [T.idiv(T.add(T.sub(hi[i], lo[i]), num(t - 1)), num(t)) for i in range(2)]
        ids = {x.id for x in LP.flatten(ctor.n)}
        pr = N.Prover(assume=pre)
        if all(any(pr.prove(x, q) is None for x in LP.flatten(ctor.n)) for q in nt):
            size = t
            break
    if ck.require(size is not None, 'tile-count', it, 'the number of tiles in a row or column is not the extent divided by the tile size, rounded up'):
        nt = [T.idiv(T.add(T.sub(hi[i], lo[i]), num(size - 1)), num(size)) for i in range(2)]

        def emit(x, y):
            mn = [T.add(lo[i], T.mul(num(size), p)) for i, p in enumerate((x, y))]
            mx = [T.fn('min', T.add(mn[i], num(size)), hi[i]) for i in range(2)]
            return mn + mx
        # p < ceil(w / t) means p * t < w: the tile starts inside the area
        sx, sy = mk('sym', 'cx'), mk('sym', 'cy')
        ntn = [mk('sym', 'nx'), mk('sym', 'ny')]
        mm = {nt[0].id: ntn[0], nt[1].id: ntn[1], '__d': ()}
        ct = []
        pr = N.Prover(assume=pre)
        for x in LP.flatten(ctor.n):
            k = [ntn[i] for i in range(2) if pr.prove(x, nt[i]) is None]
            ct.append(k[0] if k else x)
        if pr.prove(nt[0], nt[1]) is None:
            raise Missing('tile counts of rows and columns cannot be told apart')
        ctor2 = V(unflatten(ctor.n, ct), ctor.t, ctor.ev)
        facts = band(pre, *[T.le(num(0), x) for x in ntn])
        fx = [bor(T.le(ntn[i], p), T.lt(T.add(lo[i], T.mul(num(size), p)), hi[i])) for i, p in ((0, sx), (1, sy))]
        fn2 = [bor(T.le(ntn[1], T.add(sy, num(1))), T.lt(T.add(lo[1], T.mul(num(size), T.add(sy, num(1)))), hi[1])), bor(T.le(ntn[0], num(0)), T.lt(lo[0], hi[0]))]
        enum_law(ck, nx, ctor2, r, [num(0), num(0)], ntn, emit, pre=band(facts, *(fx + fn2)))
        ck.count('tile size', size)
    # sample area: every position within one filter radius of a pixel centre
    sb = ck.run(ck.fn('Film', 'sample_bbox'), 'self')
    mn, mx = box(sb.ret)
    s = sb.arg('self')
    res, rad = coords(s.resolution), s.filter_radius
    for i in range(2):
        w0 = f2i(fn('floor', 0.5 - rad))
        w1 = f2i(fn('ceil', res[i] - 0.5 + rad))
        ordered = w0 <= w1
        ck.implies('sample-area-reach', sb.path, ordered, mn[i] <= w0, what='samples start at least one radius before the first pixel centre')
        ck.implies('sample-area-reach', sb.path, ordered, w1 <= mx[i], what='samples end at least one radius after the last pixel centre')
    # tiles handed out come from that very area
    r2 = ck.run(it, 'self')
    pixel_iter_law(ck)
    ck.floor('iterators', 2, 2)


def unflatten(n, leaves):
    it = iter(leaves)

    def go(x):
        if x.op in ('adt', 'arr', 'enum'):
            return mk(x.op, x.k, *[go(y) for y in x.a])
        return next(it)
    return go(n)


# ---------------------------------------------------------------- C05: the text of the image

def row_major(ck, rule, where, binders, idx, total, pr=None, assume=TRUE):
    """the loops `binders` (outermost first) visit the elements 0 .. total-1 in order, each once"""
    idx = LP.strip(idx)
    pr = pr or N.Prover(assume=assume)
    want, n = num(0), num(1)
    for L in binders:
        t = LP.counted(L)
        if t is None:
            return ck.fail(rule, where, 'a loop over the pixels does not simply count: runs while ' + T.show(N.pretty(L.cont), 6))
        t = LP.strip(t)
        want = T.add(T.mul(want, t), L.it)
        n = T.mul(n, t)
    r = pr.prove(idx, want) or pr.prove(n, total)
    if r is not None:
        return ck.fail(rule, where, 'pixels are not visited in storage order, each once: ' + r.text())
    ck.ok(rule, where)
    return True


def srgb(v):
    lin = v * 12.92
    pw = V(T.fn('powf', v.n, T.fdiv(T.fconst('1'), T.fconst('2.4')))) * 1.055 - 0.055
    return ite(v <= 0.0031308, lin, pw)


def unloop(toks, binders=()):
    """words of the loop nest that prints the pixels: (binders, words)"""
    if len(toks) == 1 and toks[0][0] == 'loop':
        return unloop(toks[0][2], binders + (toks[0][1],))
    return binders, toks


def C05(ck):
    ck.technique = ('Value-graph evaluation of the image writer over MIR: the state of the output sink is decoded into the text it received (format templates are '
                    'read from the compiled constants) and compared token by token with the plain PPM grammar and the stored pixels.')
    ck.assumptions = ['real-number semantics for the tone mapping', 'the pixel buffer has width x height entries (C06)']
    p = ck.fn('Film', 'write_image_ppm')
    r = ck.run(p, 'self', 'file')
    try:
        toks = LP.tokens(LP.sent(r.R.out('file'), mk('sym', 'file')))
    except LP.Odd as e:
        return ck.fail('ppm-text', p, str(e))
    s = r.arg('self')
    w, h = coords(s.resolution)
    pr = N.Prover()

    def word(i, what, want):
        if i >= len(toks):
            return ck.fail('ppm-header', p, 'the text ends before the ' + what)
        t = toks[i]
        good = len(t) == 1 and t[0][0] == ('lit' if isinstance(want, str) else 'val')
        if good and isinstance(want, str):
            good = t[0][1] == want
        elif good:
            x = LP.strip(t[0][1])
            if want is None:
                return
            good = pr.prove(x, want.n) is None
        ck.require(good, 'ppm-header', p, 'the %s is wrong' % what)
    word(0, 'magic number', 'P3')
    word(1, 'width', w)
    word(2, 'height', h)
    word(3, 'maximum value', '255')
    body = toks[4:]
    binders, words = unloop(body)
    if not ck.require(len(binders) >= 1 and words and all(len(x) == 1 and x[0] == 'val' or x[0] != 'loop' for x in words), 'ppm-body', p,
                      'after the header the text is not one loop over the pixels'):
        return
    if not ck.require(all(len(x) == 1 and x[0][0] == 'val' for x in words), 'ppm-body', p, 'a pixel is not printed as plain numbers separated by blanks'):
        return
    per = len(words)
    # a further loop over the channels is possible: then one word per channel
    pix = pixels_of(s)
    idxs = []
    for x in words:
        idxs += [y for y in N.subterms(x[0][1]) if y.op == 'idx' and y.a[0] is pix.n or y.op == 'sel' and y.a[0] is pix.n]
    idx = {LP.strip(y.a[1]).id: LP.strip(y.a[1]) for y in idxs}
    if not ck.require(per == 3 and len(idx) == 1, 'ppm-body', p, 'each pixel must be printed as three numbers taken from one stored pixel (%d numbers from %d places)' % (per, len(idx))):
        return
    k = list(idx.values())[0]
    total = T.seq_len(pix.n)
    m = {total.id: T.mul(w.n, h.n)}
    pr2 = N.Prover(assume=band(w >= 0, h >= 0))
    ok = row_major(ck, 'ppm-pixels-in-order', p, [Rel(L, m) for L in binders], k, T.mul(w.n, h.n), pr2)
    px = pix[k]
    col, wt = rgb(px.color), px.filter_weight_sum
    for c, x in zip(col, words):
        x = x[0][1]
        while x.op in ('f2i', 'wrap'):
            x = x.a[0]
        v = srgb(c / wt) * 255
        full = vmax(vmin(v, 255), 0)
        cands = [fn('round', full), vmax(vmin(fn('round', v), 255), 0)]
        rs = [pr.prove(LP.strip(x), y.n) for y in cands]
        if any(q is None for q in rs):
            ck.ok('ppm-value', p)
            continue
        # truncation after adding a half
        if pr.prove(LP.strip(x), (full + 0.5).n) is None or pr.prove(LP.strip(x), vmax(vmin(v + 0.5, 255), 0).n) is None or pr.prove(LP.strip(x), T.fn('floor', (full + 0.5).n)) is None:
            ck.ok('ppm-value', p)
            continue
        ck.fail('ppm-value', p, 'the printed value is not the sRGB-encoded average colour, clamped and rounded to 0..255: ' + rs[0].text())
    ck.count('header words', 4)
    ck.count('numbers per pixel', per)


class Rel(object):
    """a loop with nodes replaced in its bound"""

    def __init__(self, L, m):
        self.L, self.m = L, m
        self.cont = LP.replace(L.cont, m)
        self.it, self.d, self.phis, self.inits, self.nexts = L.it, L.d, L.phis, L.inits, L.nexts


def pixels_of(s):
    """the pixel storage of a film or tile, through lock and box"""
    v = s.pixels
    for _ in range(4):
        t = v.base()
        if t[0] == 'adt' and last(t[1]) in ('Mutex', 'RwLock', 'RefCell', 'UnsafeCell'):
            v = v.field(0)
        else:
            break
    while v.n.op == 'adt' and v.n.k[0] == 'Box':
        v = V(v.n.a[0], v.t[2][0] if E.is_box(v.t) else v.t, v.ev)
    return v


# ---------------------------------------------------------------- C06, C08: accumulation

def all_zero(n):
    return all(x.op == 'num' and x.k == 0 for x in LP.flatten(n))


def zero_buffer(ck, rule, where, v, area, assume=TRUE):
    """the storage holds `area` pixels, all zero"""
    n = v.n
    if n.op == 'vecgen':
        ln = T.seq_len(n)
        el = n.a[1]
        r = N.Prover(assume=assume).prove(LP.strip(ln), area)
        if r is not None:
            return ck.fail(rule, where, 'the buffer has the wrong number of pixels: ' + r.text())
        if not all_zero(el):
            return ck.fail(rule, where, 'a fresh pixel is not zero')
        return ck.ok(rule, where)
    ck.fail(rule, where, 'the buffer is not built as one zero pixel per cell: ' + T.show(n, 3))


def cells(ck, ev, binders, lo, hi, covers=None):
    """ways to read a loop nest as a walk over the cells of [lo, hi): yields (x, y, problems)"""
    if len(binders) == 1:
        L = binders[0]
        nx = nxt(ck, 'BBox2iIter')
        t = model_ty(ck, 'BBox2iIter')
        et = ck.M.bodies[nx].locals[0]
        it = LP.as_iter(ev, L, nx, t, et[2][0], covers)
        if it is None:
            return
        c = ck.run(ck.fn('BBox2', 'iter'), 'b')
        b0, b1 = box(c.arg('b'))
        m = {x.n.id: y for x, y in zip(list(b0) + list(b1), lo + hi)}
        want = LP.flatten(LP.replace(c.ret.n, m))
        got = LP.flatten(it.init)
        pr = N.Prover()
        bad = [r for g, w in zip(got, want) for r in [pr.prove(g, w)] if r is not None]
        x, y = LP.flatten(it.elem)
        yield x, y, ['the cells visited are not those of the region: ' + r.text() for r in bad[:1]]
        return
    if len(binders) == 2:
        for lx, ly in (binders, binders[::-1]):
            pr = N.Prover()
            bad = []
            for L, a, b in ((lx, lo[0], hi[0]), (ly, lo[1], hi[1])):
                t = LP.counted(L)
                r = pr.prove(LP.strip(t), T.sub(b, a)) if t is not None else None
                if t is None or r is not None:
                    bad.append('a loop does not run over the columns or rows of the region' + (': ' + r.text() if r else ''))
            yield T.add(lo[0], lx.it), T.add(lo[1], ly.it), bad


def model_ty(ck, name):
    return ('adt', adtname(ck, name), ())


def accumulation(ck, rule, where, ev, base, final, lo, hi, index, value, covers=None):
    """the array goes from base to final by adding value(x, y) to element index(x, y) once for every cell of [lo, hi)"""
    try:
        ws = LP.writes(final, base)
    except LP.NotWrites as e:
        return ck.fail(rule, where, str(e))
    if len(ws) != 1:
        return ck.fail(rule, where, 'each cell must be updated by exactly one store, found %d' % len(ws))
    w = ws[0]
    if w.guard is not TRUE:
        return ck.fail(rule, where, 'some cells are skipped: only updated when ' + T.show(N.pretty(w.guard), 6))
    tried = []
    pr = N.Prover()
    for x, y, bad in cells(ck, ev, w.binders, lo, hi, covers):
        probs = list(bad)
        # the k-th cell of a region is stored at place k (C07: row by row)
        sub = lambda n: n
        if covers is not None and len(w.binders) == 1:
            at = {w.binders[0].it.id: T.add(T.sub(x, lo[0]), T.mul(T.sub(y, lo[1]), T.sub(hi[0], lo[0])))}
            sub = lambda n: LP.replace(n, at)
        r = pr.prove(LP.strip(sub(w.idx)), index(x, y))
        if r is not None:
            probs.append('wrong cell: ' + r.text())
        else:
            for g, wv in zip(LP.flatten(sub(w.val)), value(x, y, V(w.prev, ev and None, ev), w.idx)):
                r = pr.prove(LP.strip(g), wv)
                if r is not None:
                    probs.append('wrong contribution: ' + r.text())
        if not probs:
            ck.ok(rule, where)
            return True
        tried.append(probs)
    if not tried:
        return ck.fail(rule, where, 'the update is not one walk over the cells of a region')
    ck.fail(rule, where, ' || '.join(' ; '.join(t) for t in tried))


def pixel_leaves(ev, arr, elem_t, i):
    return LP.flatten(ev.expand(elem_t, T.idx_raw(arr, i)))


def C06(ck):
    ck.technique = ('Value-graph write-set analysis over MIR: tile windows and merging. The pixel region of a tile must contain every film pixel within the filter radius of '
                    'its samples, buffers must start as zeros of the right size, and merging must add each tile pixel to the film pixel of the same coordinates '
                    'exactly once.')
    ck.assumptions = ['coordinates stay in the range of 32-bit integers and are represented exactly as floats']
    # film
    p = ck.fn('Film', 'new')
    r = ck.run(p, 'resolution', 'filter')
    w, h = coords(r.arg('resolution'))
    f = r.ret
    ck.same('film-resolution', p, [LP.strip(x.n) for x in coords(f.resolution)], [w, h])
    zero_buffer(ck, 'film-buffer', p, pixels_of(f), T.mul(w.n, h.n))
    # tile
    p = ck.fn('Film', 'get_film_tile')
    r = ck.run(p, 'self', 'bbox')
    s = r.arg('self')
    b0, b1 = box(r.arg('bbox'))
    res, rad = coords(s.resolution), s.filter_radius
    t = r.ret
    t0, t1 = box(t.bbox)
    asm = TRUE
    for i in range(2):
        c0, c1 = f2i(fn('ceil', b0[i] - 0.5 - rad)), f2i(fn('floor', b1[i] - 0.5 + rad)) + 1
        lo, hi = vmax(c0, 0), vmin(c1, res[i])
        asm = band(asm, lo <= hi)
    pr = N.Prover(assume=asm)
    for i in range(2):
        c0, c1 = f2i(fn('ceil', b0[i] - 0.5 - rad)), f2i(fn('floor', b1[i] - 0.5 + rad)) + 1
        lo, hi = vmax(c0, 0), vmin(c1, res[i])
        ck.implies('tile-covers-reach', p, TRUE, t0[i] <= lo, pr, what='the tile starts at the first film pixel its samples can reach')
        ck.implies('tile-covers-reach', p, TRUE, hi <= t1[i], pr, what='the tile ends after the last film pixel its samples can reach')
        ck.implies('tile-inside-film', p, TRUE, t0[i] >= 0, pr, what='the tile lies inside the film')
        ck.implies('tile-inside-film', p, TRUE, t1[i] <= res[i], pr, what='the tile lies inside the film')
    zero_buffer(ck, 'tile-buffer', p, pixels_of(t), ((t1[0] - t0[0]) * (t1[1] - t0[1])).n)
    ck.same('tile-filter', p, [t.filter_radius, t.filter_table], [s.filter_radius, s.filter_table])
    # merge
    p = ck.fn('Film', 'merge_film_tile')
    nx = nxt(ck, 'BBox2iIter')
    r = ck.run(p, 'self', 'tile', opaque=[nx])
    s, t = r.arg('self'), r.arg('tile')
    fw = coords(s.resolution)[0]
    t0, t1 = box(t.bbox)
    src, dst = pixels_of(t), pixels_of(s)
    out = pixels_of(V(r.R.out('self'), s.base(), r.ev))
    et = dst.base()[1]

    def index(x, y):
        return T.add(x, T.mul(y, fw.n))

    def value(x, y, prev, idx):
        j = T.add(T.sub(x, t0[0].n), T.mul(T.sub(y, t0[1].n), (t1[0] - t0[0]).n))
        a = [LP.strip(q) for q in pixel_leaves(r.ev, prev.n, et, idx)]
        b = pixel_leaves(r.ev, src.n, et, j)
        return [T.add(q, z) for q, z in zip(a, b)]
    accumulation(ck, 'merge', p, r.ev, dst.n, out.n, [x.n for x in t0], [x.n for x in t1], index, value, src.n)
    changed_only(ck, 'merge-only-pixels', p, r, 'self', ['pixels'])
    pixel_iter_law(ck)


def changed_only(ck, rule, where, r, name, fields):
    """the function changes no other field of the argument"""
    a, o = r.arg(name), V(r.R.out(name), r.arg(name).base(), r.ev)
    for f in ck.M.adts[a.base()[1]]['v'][0]['f']:
        if f['n'] not in fields:
            x, y = a.field(f['n']), o.field(f['n'])
            ck.same(rule, where, V(y.n), V(x.n))


def C08(ck):
    ck.technique = ('Value-graph write-set analysis over MIR: a sample updates exactly the pixels of the tile whose centre is within the filter radius, each once, with the '
                    'tabulated filter weight of its distance; the table and the filter formula are compared with the sampled Gaussian.')
    ck.assumptions = ['real-number semantics', 'coordinates are represented exactly as floats']
    p = ck.fn('FilmTile', 'add_sample')
    b = ck.M.bodies[p]
    r = ck.run(p, 'self', 'p_film', 'sample')
    s = r.arg('self')
    d = [c - 0.5 for c in coords(r.arg('p_film'))]
    col = [x.n for x in rgb(r.arg('sample'))]
    rad = s.filter_radius
    b0, b1 = box(s.bbox)
    lo = [vmax(b0[i], f2i(fn('ceil', d[i] - rad))).n for i in range(2)]
    hi = [vmin(b1[i], f2i(fn('floor', d[i] + rad)) + 1).n for i in range(2)]
    src = pixels_of(s)
    et = src.base()[1]
    out = pixels_of(V(r.R.out('self'), s.base(), r.ev))
    tab = s.filter_table
    film = ck.run(ck.fn('Film', 'new'), 'resolution', 'filter')
    size = T.seq_len(film.ret.filter_table.n).k

    def index(x, y):
        return T.add(T.sub(x, b0[0].n), T.mul(T.sub(y, b0[1].n), (b1[0] - b0[0]).n))

    def slot(x, i):
        v = vmin(fn('floor', absf((V(x) - d[i]) / rad * size)), size - 1)
        return v.n

    def value(x, y, prev, idx):
        a = [LP.strip(q) for q in pixel_leaves(r.ev, prev.n, et, idx)]
        w = T.idx_raw(T.idx_raw(tab.n, slot(y, 1)), slot(x, 0))
        return [T.add(q, T.mul(c, w)) for q, c in zip(a, col)] + [T.add(a[3], w)]
    accumulation(ck, 'add-sample', p, r.ev, src.n, out.n, lo, hi, index, value)
    changed_only(ck, 'add-only-pixels', p, r, 'self', ['pixels'])
    # the table
    p = ck.fn('Film', 'new')
    f = film.ret
    r = film
    tab = f.filter_table
    rad = f.filter_radius
    radm = [e for e in r.ev.events if last(e[1]) == 'radius']
    ck.require(bool(radm) and rad.n.op == 'call' and last(rad.n.k) == 'radius', 'film-radius', p, 'the film does not keep the radius of its filter')
    nrow = T.seq_len(tab.n).k
    bad = 0
    pr = N.Prover()
    cnt = 0
    for y in range(nrow):
        row = tab[y]
        for x in range(T.seq_len(row.n).k):
            e = row[x].n
            cnt += 1
            want = [((rad * (c + 0.5)) / nrow).n for c in (x, y)]
            good = e.op == 'call' and last(e.k) == 'evaluate'
            if good:
                g = LP.flatten(e.a[1])
                good = all(pr.prove(a, b) is None for a, b in zip(g, want))
            if not good:
                bad += 1
                if bad == 1:
                    ck.fail('filter-table', p, 'entry (%d, %d) is not the filter at the centre of its cell: %s' % (y, x, T.show(N.pretty(e), 6)))
    if not bad:
        ck.ok('filter-table', p)
    ck.floor('filter table entries', cnt, 4)
    # the Gaussian
    e = ck.fn('GaussianFilter', 'evaluate', 'Filter')
    new = ck.run(ck.fn('GaussianFilter', 'new'), 'radius', 'alpha')
    R, A = new.arg('radius'), new.arg('alpha')
    ev = ck.run(e, 'self', 'p')
    px = coords(ev.arg('p'))
    fields = LP.flatten(ev.arg('self').n)
    m = {a.id: b for a, b in zip(fields, LP.flatten(new.ret.n))}
    got = LP.replace(ev.ret.n, m)

    def g(d):
        return vmax(fn('exp', -(A * d * d)) - fn('exp', -(A * R * R)), 0)
    ck.same('gaussian', e, got, (g(px[0]) * g(px[1])).n)
    rd = ck.run(ck.fn('GaussianFilter', 'radius', 'Filter'), 'self')
    m = {a.id: b for a, b in zip(LP.flatten(rd.arg('self').n), LP.flatten(new.ret.n))}
    ck.same('gaussian-radius', rd.path, LP.replace(rd.ret.n, m), R.n)
