"""Rendering: threads, tiles, samples, output; light transport."""
import terms as T
import norm as N
import eval as E
import loops as LP
import graph as G
import model
from terms import mk, num, band, bor, bnot, TRUE, FALSE
from ck import V, Vec, S, fn, ap, sqrt, absf, vmax, vmin, ite, PI, xyz, xy, rgb, Missing, n_
from p_algebra import coords, comps, box, last
from p_film import adtname, nxt

STREAMS = ('std::fs::', 'std::io::')


def io_events(ev):
    """calls that talk to the file system or a writer"""
    out = []
    for i, e in enumerate(ev.events):
        n = e[1]
        if (n.startswith('std::fs::') or n.startswith('std::io::')) and not n.startswith('std::io::_') and 'Stdout' not in n and 'Stderr' not in n:
            out.append((i, e))
    return out


def callnode(e):
    return mk('call', e[1], *e[2])


def chain(n, names=None):
    """history of a value threaded through calls: ([(callee, node)], base), newest first"""
    out = []
    while True:
        if n.op == 'callmut':
            out.append((n.k[0], n))
            n = n.a[n.k[1]]
        else:
            return out, n


def root(n):
    """where a state threaded through calls and loops started"""
    for _ in range(100):
        if n.op == 'callmut':
            n = n.a[n.k[1]]
        elif n.op == 'loopres':
            L = LP.Loop(n)
            if L.term in L.phis:
                n = L.inits[L.phis.index(L.term)]
            else:
                n = L.term
        elif n.op == 'phi':
            return n
        elif n.op == 'ite':
            n = n.a[1]
        else:
            return n
    return n


def render_path(ck):
    return ck.fn('Integrator', 'render')


def local_render(ck):
    return ck.fn('IntegratorLocal', 'render')


FALLIBLE = ('open', 'create', 'create_new', 'write', 'write_all', 'write_fmt', 'flush', 'into_inner', 'sync_all', 'sync_data', 'set_len', 'join', 'write_vectored', 'rename', 'seek')
WRITES = ('write_all', 'write_fmt', 'write', 'write_vectored')


def consumed(ev, e):
    """an error of this call stops the program: the normal continuation implies success"""
    c = callnode(e)
    d = T.eq(mk('discr', None, c), num(0))
    ok = TRUE
    for o in ev.oblig:
        if o[0] in ('unwrap', 'panic') and (mentions(o[3], c) or mentions(o[2], c)):
            ok = band(ok, bor(bnot(o[2]), o[3]))
    # the discriminant may be wrapped in several ways: find it
    ds = {x.id: x for x in N.subterms(ok) if x.op == 'discr' and x.a[0] is c}
    if not ds:
        return False
    good = T.eq(list(ds.values())[0], num(0))
    return N.Prover().prove(band(e[0], ok, bnot(good)), FALSE) is None


def mentions(n, c):
    return any(x is c for x in N.subterms(n))


def C04(ck):
    ck.technique = ('Value-graph evaluation of the whole render entry point over MIR (image writer inlined): the options the output file is opened with, the order of its '
                    'writes and flush, and the fate of every I/O result are read off the evaluated call sequence; a second pass over the MIR of everything reachable '
                    'looks for discarded I/O results.')
    ck.assumptions = ['the standard library reports write errors through its results', 'panics are not caught']
    p = render_path(ck)
    r = ck.run(p, 'self', 'max_threads')
    ev = r.ev
    evs = io_events(ev)
    opens = [(i, e) for i, e in evs if last(e[1]) in ('open', 'create', 'create_new') and ('File' in e[1] or 'OpenOptions' in e[1]) and len(e[2]) >= 1 and not is_setter(e)]
    if not ck.require(len(opens) == 1, 'one-output-file', p, 'expected exactly one file to be opened, found %d' % len(opens)):
        return
    io, op = opens[0]
    ck.require(op[0] is TRUE and not in_loop(op), 'one-output-file', p, 'the output file is not opened exactly once on every path')
    if 'OpenOptions' in op[1]:
        opts = options(op[2][0])
        ck.require(opts.get('write') is TRUE and opts.get('append', FALSE) is FALSE, 'opened-for-writing', p, 'the output file is not opened for plain writing')
        ck.require(opts.get('create', FALSE) is TRUE, 'created', p, 'the output file is not created when missing')
        ck.require(opts.get('truncate', FALSE) is TRUE, 'truncated', p, 'an older image is not cut off: a shorter image leaves old bytes at its end')
        ck.require(opts.get('create_new', FALSE) is FALSE, 'created', p, 'an existing output file makes rendering fail')
    else:
        ck.require(last(op[1]) == 'create', 'created', p, 'the output file is opened by ' + op[1])
    wr = [(i, e) for i, e in evs if last(e[1]) in WRITES and e[1].startswith('std::io::')]
    ck.floor('write calls', len(wr), 1)
    for i, e in wr:
        if last(e[1]) in ('write', 'write_vectored'):
            ck.fail('complete-writes', p, 'a single `write` may store only part of the text')
    for i, e in evs:
        if last(e[1]) in FALLIBLE and not is_setter(e):
            ck.require(consumed(ev, e), 'errors-not-ignored', p + ' ' + last(e[1]), 'the result of %s (%s) is not checked' % (e[1], e[4]))
    # buffered data must be flushed before the end
    st = [e[2][0] for i, e in wr]
    base = None
    for s in st:
        b = root(s)
        if b.op == 'phi':
            continue
        base = b
    if not ck.require(base is not None, 'writer', p, 'the writer of the image cannot be traced'):
        return
    f = callnode(op)
    buf = base.op == 'call' and ('BufWriter' in base.k or 'LineWriter' in base.k)
    ck.require(mentions(base, f), 'writer', p, 'the image is not written to the opened file')
    if buf:
        fl = [(i, e) for i, e in evs if last(e[1]) in ('flush', 'into_inner') and root(e[2][0]) is base]
        good = [i for i, e in fl if e[0] is TRUE and not in_loop(e)]
        ck.require(bool(good) and bool(wr) and max(good) > max(i for i, _ in wr), 'flushed', p,
                   'buffered text is only written when the writer is dropped, where errors are ignored')
    discarded(ck, p)


def is_setter(e):
    return 'OpenOptions' in e[1] and last(e[1]) in ('create', 'create_new', 'write', 'append', 'truncate', 'read') and len(e[2]) == 2 and e[2][1].op in ('true', 'false', 'B')


def in_loop(e):
    return any(x.op in ('phi', 'it') for x in [y for a in (e[0],) + e[2] for y in N.subterms(a)] if x.op in ('phi', 'it'))


def options(n):
    """settings of an OpenOptions value"""
    out = {}
    for _ in range(30):
        if n.op == 'ref' and n.a:
            n = n.a[0]
        if n.op == 'call' and 'OpenOptions' in n.k and len(n.a) == 2:
            out.setdefault(last(n.k), n.a[1])
            n = n.a[0]
        elif n.op == 'callmut' and 'OpenOptions' in n.k[0]:
            out.setdefault(last(n.k[0]), n.a[1])
            n = n.a[0]
        else:
            break
    return out


def io_result(t):
    return t[0] == 'adt' and last(t[1]) == 'Result' and len(t[2]) == 2 and t[2][1][0] == 'adt' and last(t[2][1][1]) in ('Error', 'IntoInnerError', 'PoisonError') and 'fmt' not in t[2][1][1]


def discarded(ck, root_):
    """no result of an I/O operation is dropped unseen in what render reaches"""
    M = ck.M
    seen = G.reach(G.calls(M), [root_])
    n = 0
    for p in sorted(seen):
        b = M.bodies[p]
        uses = None
        for bl in b.blocks:
            t = bl['t']
            if t['t'] != 'call' or bl['c']:
                continue
            d = t['d']['l']
            if t['d']['p'] or not io_result(b.locals[d]):
                continue
            n += 1
            if uses is None:
                uses = reads(b)
            ck.require(uses.get(d, 0) > 0, 'errors-not-discarded', p, 'the result of %s (%s) is never looked at' % (t['f'].get('n') if isinstance(t['f'], dict) else '?', t['sp']))
            # swallowing adaptors
        for bl in b.blocks:
            t = bl['t']
            if t['t'] == 'call' and not bl['c'] and isinstance(t['f'], dict):
                f = t['f'].get('n', '')
                if last(f) in ('ok', 'err', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'is_ok', 'is_err', 'map_or', 'or', 'or_else') and t.get('at'):
                    at = model.ty(t['at'][0])
                    while at[0] == 'ref':
                        at = at[1]
                    if io_result(at):
                        ck.fail('errors-not-discarded', p, 'an I/O error is swallowed by %s (%s)' % (f, t['sp']))
    ck.count('I/O results seen', n)


def reads(b):
    """how often each local is read"""
    out = {}

    def place(p):
        out[p['l']] = out.get(p['l'], 0) + 1

    def walk(v):
        if isinstance(v, dict):
            if 'l' in v and 'p' in v:
                place(v)
            else:
                for x in v.values():
                    walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
    for bl in b.blocks:
        for s in bl['s']:
            if s['s'] == 'assign':
                walk(s['v'])
                if s['p']['p']:
                    place(s['p'])
        t = bl['t']
        if t['t'] == 'call':
            walk(t['a'])
            walk(t['f'])
        elif t['t'] in ('switch', 'assert'):
            walk({k: x for k, x in t.items() if k in ('d', 'c', 'o')})
    return out


# ---------------------------------------------------------------- C01, C02, C03, C13, C27

def C02(ck):
    ck.technique = ('Value-graph evaluation of the render entry point over MIR: the evaluated call sequence must spawn the workers, join every one of them in a loop over '
                    'all handles whose result is unwrapped, and only then open the output file, once.')
    ck.assumptions = ['panics unwind or abort, but are not caught by the library']
    p = render_path(ck)
    r = ck.run(p, 'self', 'max_threads')
    ev = r.ev
    sp = [(i, e) for i, e in enumerate(ev.events) if last(e[1]) == 'spawn' or e[1].startswith('std::thread::spawn')]
    jn = [(i, e) for i, e in enumerate(ev.events) if last(e[1]) == 'join']
    fo = [(i, e) for i, e in io_events(ev) if last(e[1]) in ('open', 'create', 'write_all', 'write_fmt', 'write') and not is_setter(e)]
    op = [(i, e) for i, e in fo if last(e[1]) in ('open', 'create')]
    ck.require(len(sp) == 1, 'workers', p, 'workers are spawned at %d places' % len(sp))
    ck.require(len(jn) >= 1, 'workers-joined', p, 'the workers are not waited for')
    ck.require(len(op) == 1 and op[0][1][0] is TRUE and not in_loop(op[0][1]), 'image-once', p, 'the image file is not opened exactly once')
    if not (sp and jn and op):
        return
    # every handle: the spawn loop and the join loop have the same length
    trips = spawn_loops(ev)
    h = callnode(sp[0][1])
    js = [e for i, e in jn]
    for e in js:
        ck.require(joins_handle(e, h), 'workers-joined', p, 'join is not applied to the spawned workers')
        ck.require(consumed(ev, e), 'worker-failure-stops', p, 'the failure of a worker is ignored (%s)' % e[4])
    lo = [l for l in ev.loops if l.trip is not None]
    want = None
    pcs = sp[0][1][0]
    pcj = js[0][0]
    pr = N.Prover()
    a, b = loop_trip(ev, pcs), loop_trip(ev, pcj)
    mt = r.arg('max_threads').n
    ok = a is not None and b is not None and pr.prove(LP.strip(a), LP.strip(b)) is None
    ck.require(ok, 'workers-joined', p, 'not every spawned worker is joined: %s spawned, %s joined' % (a and T.show(a, 4), b and T.show(b, 4)))
    ck.require(a is not None and pr.prove(LP.strip(a), LP.strip(mt)) is None, 'workers', p, 'the number of workers is not the requested one')
    ck.require(max(i for i, _ in jn) < min(i for i, _ in fo), 'image-after-workers', p, 'the image file is touched before all workers have ended')
    # nothing in the workers touches files
    wk = worker_bodies(ck)
    bad = [(q, t['f']['n']) for q in sorted(wk) for bl in ck.M.bodies[q].blocks if bl['t']['t'] == 'call' for t in [bl['t']]
           if isinstance(t['f'], dict) and t['f'].get('n', '').startswith('std::fs::')]
    ck.require(not bad, 'workers-do-not-write', p, 'a worker uses the file system: %r' % bad[:2])
    ck.floor('worker functions', len(wk), 5)


def worker_bodies(ck):
    M = ck.M
    p = render_path(ck)
    roots = [q for q in closures_spawned(ck)]
    return G.reach(G.calls(M), roots)


def closures_spawned(ck):
    """bodies of closures handed to thread::spawn below render"""
    M = ck.M
    out = []
    for p in G.reach(G.calls(M), [render_path(ck)]):
        b = M.bodies[p]
        for bl in b.blocks:
            t = bl['t']
            if t['t'] == 'call' and isinstance(t['f'], dict) and last(t['f'].get('n', '')) == 'spawn' and t.get('at'):
                for a in t['at']:
                    a = model.ty(a)
                    if a[0] == 'closure':
                        out.append(a[1])
                    elif a[0] == 'fndef' and a[1] in M.bodies:
                        out.append(a[1])
    if not out:
        raise Missing('no thread is spawned by render')
    return out


def spawn_loops(ev):
    return [l for l in ev.loops]


def loop_trip(ev, pc):
    """number of iterations of the loop the condition belongs to"""
    if pc.op == 'B' and pc.a[0].op == 'lt':
        x, y = pc.a[0].a
        if x.op in ('phi', 'it') or any(z.op in ('phi', 'it') for z in N.subterms(x)):
            # counts from zero upwards
            for l in ev.loops:
                if l.trip is not None and (l.trip is y):
                    return l.trip
            return y
    return None


def joins_handle(e, h):
    return any(x.op == 'call' and last(x.k) == 'spawn' for x in N.subterms(e[2][0]))


def C01(ck):
    ck.technique = ('Value-graph evaluation over MIR of the worker closure and of the tile renderer, plus a MIR rule for sharing: one tile iterator behind one mutex is shared by all '
                    'workers; a worker renders every tile it takes until the iterator is exhausted; rendering a tile merges it into the shared film exactly once.')
    ck.assumptions = ['std::sync::Mutex gives mutual exclusion and Arc shares its content', 'a worker that panics ends the program (C02)']
    M = ck.M
    p = render_path(ck)
    tile = ck.fn('Film', 'iter')
    # what the closure gets
    r = ck.run(p, 'self', 'max_threads', opaque=[tile])
    ev = r.ev
    its = [(i, e) for i, e in enumerate(ev.events) if e[1] == tile]
    ck.require(len(its) == 1 and its[0][1][0] is TRUE and not in_loop(its[0][1]), 'one-tile-iterator', p, 'the tile iterator is not created exactly once for all workers')
    if its:
        film = r.arg('self').film
        ck.same('tiles-of-this-film', p, unbox(its[0][1][2][0]), film_node(ck, ev, film))
    lock_rule(ck, p)
    # the worker
    nx = nxt(ck, 'FilmTileIter')
    lr = local_render(ck)
    n = 0
    for c in closures_spawned(ck):
        n += 1
        b = M.bodies[c]
        import eval
        e2 = E.Eval(M, E.Opts(opaque=[nx, lr]))
        R = e2.analyse(c, names=['c%d' % i for i in range(b.argc)])
        ck.fns |= set(e2.called) | {c}
        worker(ck, c, e2, R, nx, lr)
    ck.floor('workers', n, 1)
    # the tile
    tile_once(ck)


def lock_rule(ck, p):
    """the mutex around the tile iterator is created once, outside every loop, and the workers hold shared handles to it"""
    M = ck.M
    seen = [q for q in G.reach(G.calls(M), [p])]
    spawned = G.reach(G.calls(M), closures_spawned(ck))
    sites = []
    for q in seen:
        b = M.bodies[q]
        for i, bl in enumerate(b.blocks):
            t = bl['t']
            if t['t'] == 'call' and not bl['c'] and not t['d']['p']:
                ty = b.locals[t['d']['l']]
                f = t['f'].get('n', '') if isinstance(t['f'], dict) else ''
                if ty[0] == 'adt' and last(ty[1]) in ('Mutex', 'RwLock') and 'FilmTileIter' in repr(ty) and last(f) == 'new':
                    loop = any(i in blk for blk in b.cfg().loops.values())
                    sites.append((q, loop or q in spawned or '{closure' in q))
    ck.require(len(sites) == 1 and not sites[0][1], 'one-tile-iterator', p, 'the lock around the tile iterator is created %s' % ('at %d places' % len(sites) if len(sites) != 1 else 'once per worker'))
    for c in closures_spawned(ck):
        b = M.bodies[c]
        # FilmTileIter values must not be built or copied inside the worker
        bad = []
        for q in G.reach(G.calls(M), [c]):
            for bl in M.bodies[q].blocks:
                for s in bl['s']:
                    if s['s'] == 'assign' and s['v'].get('v', s['v'].get('k')) == 'aggregate' and 'FilmTileIter' in repr(s['v'].get('ty', '')):
                        bad.append(q)
        ck.require(not bad, 'one-tile-iterator', c, 'a worker builds a tile iterator of its own in %s' % bad[:1])


def worker(ck, c, ev, R, nx, lr):
    nexts = [e for e in ev.events if e[1] == nx]
    rends = [e for e in ev.events if e[1] == lr]
    if not ck.require(len(nexts) == 1 and len(rends) == 1, 'worker-loop', c, 'a worker takes tiles at %d places and renders them at %d' % (len(nexts), len(rends))):
        return
    nk = mk('call', nx, *nexts[0][2])
    st = ('adt', 'std::option::Option', (ck.M.bodies[nx].locals[0][2][0],))
    ex = ev.expand(st, nk)
    some = T.eq(ex.a[0], num(1))
    e = rends[0]
    ck.require(N.Prover().prove(e[0], some) is None, 'every-tile-rendered', c, 'a tile that was taken is not always rendered: only when ' + T.show(N.pretty(e[0]), 8))
    tb = [ev_leaf for ev_leaf in LP.flatten(e[2][2])]
    ck.same('the-tile-taken', c, [V(x) for x in tb], [V(x) for x in LP.flatten(ex.a[1])])
    ck.require(nexts[0][0] is TRUE or not nexts[0][0].op == 'false', 'worker-loop', c, '')
    # the loop goes on until the iterator is exhausted
    loops = [l for l in ev.loops if any(x.op == 'call' and x.k == nx for x in N.subterms(l.cont))]
    ok = len(loops) == 1 and N.Prover().prove(loops[0].cont, some) is None
    ck.require(ok, 'until-exhausted', c, 'a worker does not go on exactly while there are tiles' + ('' if not loops else ': continues while ' + T.show(N.pretty(loops[0].cont), 8)))


def tile_run(ck, extra=()):
    M = ck.M
    lr = local_render(ck)
    op = [ck.fn('IntegratorLocal', 'li'), nxt(ck, 'BBox2iIter'), ck.fn('Film', 'get_film_tile'), ck.fn('Film', 'merge_film_tile'), ck.fn('FilmTile', 'add_sample')]
    return ck.run(lr, 'self', 'sampler', 'tile_bbox', opaque=op + list(extra)), op


def tile_once(ck):
    r, (li, nx, get, merge, add) = tile_run(ck)
    p, ev = r.path, r.ev
    gs = [e for e in ev.events if e[1] == get]
    ms = [e for e in ev.events if e[1] == merge]
    ck.require(len(gs) == 1 and gs[0][0] is TRUE and not in_loop(gs[0]), 'tile-created-once', p, 'the tile buffer is not created exactly once')
    ck.require(len(ms) == 1 and ms[0][0] is TRUE and ms[0][3] == 0, 'tile-merged-once', p, 'the tile is not merged into the film exactly once at the end (%d merges)' % len(ms))
    film = r.arg('self').film
    if gs:
        ck.same('tile-of-the-box', p, [V(x) for x in LP.flatten(gs[0][2][1])], [V(x) for x in LP.flatten(r.arg('tile_bbox').n)])
        ck.same('tile-of-the-film', p, unbox(gs[0][2][0]), film_node(ck, ev, film))
    if gs and ms:
        ck.same('merged-into-the-film', p, unbox(ms[0][2][0]), film_node(ck, ev, film))
        b = root_tile(ms[0][2][1])
        ck.require(b is not None and b is callnode(gs[0]) or b is not None and b.op == 'call' and b.k == get, 'merged-tile', p, 'what is merged is not the tile that received the samples')
        # the merge comes after all samples
        im = [i for i, e in enumerate(ev.events) if e[1] == merge][0]
        ia = [i for i, e in enumerate(ev.events) if e[1] == add]
        ck.require(bool(ia) and im > max(ia), 'merged-after-samples', p, 'the tile is merged before all samples were added')


def film_node(ck, ev, v):
    return unbox(ev.expand(('adt', adtname(ck, 'Film'), ()), v.n))


def unbox(n):
    while n.op == 'adt' and n.k[0] == 'Box':
        n = n.a[0]
    if n.op in ('adt', 'enum', 'arr') and n.a:
        return mk(n.op, n.k, *[unbox(x) for x in n.a])
    return n


def root_tile(n):
    for x in LP.flatten(n):
        y = root(x)
        while y.op in ('fld', 'idx', 'proj'):
            y = y.a[0]
        if y.op == 'call':
            return y
    return None


# ---------------------------------------------------------------- C03: lock discipline

def guard_type(t):
    return 'MutexGuard' in repr(t) or 'RwLockReadGuard' in repr(t) or 'RwLockWriteGuard' in repr(t)


def held(b):
    """{block: guard locals that may be held when its terminator runs}"""
    g = {i for i, t in enumerate(b.locals) if guard_type(t) and t[0] != 'ref'}
    if not g:
        return {}
    ins = {0: frozenset()}
    out = {}
    work = [0]

    def moves(v, s):
        if isinstance(v, dict):
            if 'move' in v and isinstance(v['move'], dict) and not any(e == 'deref' for e in v['move']['p']):
                s.discard(v['move']['l'])
                return
            for x in v.values():
                moves(x, s)
        elif isinstance(v, list):
            for x in v:
                moves(x, s)
    while work:
        i = work.pop()
        s = set(ins[i])
        bl = b.blocks[i]
        for st in bl['s']:
            if st['s'] == 'assign':
                moves(st['v'], s)
                if st['p']['l'] in g and not any(e == 'deref' for e in st['p']['p']):
                    s.add(st['p']['l'])
            elif st['s'] == 'dead':
                s.discard(st.get('l'))
        t = bl['t']
        if t['t'] == 'call':
            moves(t['a'], s)
            out[i] = frozenset(s)
            if not t['d']['p'] and t['d']['l'] in g:
                s.add(t['d']['l'])
        elif t['t'] == 'drop':
            out[i] = frozenset(s)
            if not t['p']['p']:
                s.discard(t['p']['l'])
        else:
            out[i] = frozenset(s)
        for n in b.succs(i):
            new = ins.get(n, frozenset()) | frozenset(s) if n in ins else frozenset(s)
            if n not in ins or new != ins[n]:
                ins[n] = new
                work.append(n)
    return out


def C03(ck):
    ck.technique = ('Forward may-hold dataflow for lock guards over the MIR of every function, with call-graph reachability from each call made while a guard is held: no '
                    'other lock, join, spawn or ray tracing may be reached under a lock.')
    ck.assumptions = ['guards are released when dropped or moved into a callee that drops them']
    M = ck.M
    g = G.calls(M)
    li = ck.fn('IntegratorLocal', 'li')
    lr = local_render(ck)
    nlock = 0
    regions = 0
    # functions that may take a lock, wait or trace
    direct = {}
    for b in M.bodies.values():
        for bl in b.blocks:
            t = bl['t']
            if t['t'] == 'call' and isinstance(t['f'], dict):
                n = t['f'].get('n', '')
                if last(n) in ('lock', 'write', 'read', 'try_lock') and ('Mutex' in n or 'RwLock' in n):
                    direct.setdefault(b.path, 'takes a lock')
                    nlock += 1
                elif last(n) in ('join', 'spawn', 'wait', 'recv', 'park') and 'std::' in n and ('thread' in n or 'sync' in n):
                    direct.setdefault(b.path, 'waits for or starts a thread')
    direct[li] = 'traces rays'
    direct[lr] = 'renders a tile'
    for i in M.impls:
        if (i.get('trait') or '').split('::')[-1] in ('Container', 'Shape', 'Camera', 'Sampler'):
            for m, q in i['im'].items():
                if m in ('intersect', 'intersect_p', 'generate_ray', 'get_1d', 'get_2d') and q in M.bodies:
                    direct.setdefault(q, 'traces rays')
    for b in M.bodies.values():
        h = held(b)
        for i, s in h.items():
            t = b.blocks[i]['t']
            if t['t'] != 'call' or not s or b.blocks[i]['c']:
                continue
            regions += 1
            f = t['f'] if isinstance(t['f'], dict) else {}
            n = f.get('n', '')
            if last(n) in ('lock', 'write', 'read') and ('Mutex' in n or 'RwLock' in n):
                ck.fail('locks-do-not-nest', b.path, 'a second lock is taken while one is held (%s)' % t['sp'])
                continue
            if last(n) in ('join', 'spawn', 'recv', 'park', 'sleep') and ('thread' in n or 'sync' in n):
                ck.fail('no-waiting-under-lock', b.path, '%s is called while a lock is held (%s)' % (n, t['sp']))
                continue
            tg = [q for q in G.targets(M, f)]
            if f.get('trait') and last(f['trait']) in ('Camera', 'Sampler', 'Container', 'Shape', 'Texture', 'Material'):
                ck.fail('no-tracing-under-lock', b.path, '%s is called while a lock is held (%s)' % (n, t['sp']))
                continue
            bad = [(q, direct[q]) for q in sorted(G.reach(g, tg)) if q in direct]
            if bad:
                ck.fail('nothing-heavy-under-lock', b.path, 'while a lock is held, %s is called, which %s (%s)' % (last(n), bad[0][1], t['sp']))
            else:
                ck.ok('nothing-heavy-under-lock', b.path)
        if h:
            ck.fns.add(b.path)
    ck.floor('lock sites', nlock, 2)
    ck.floor('calls made under a lock', regions, 3)


# ---------------------------------------------------------------- C13, C27

def samplerun(ck):
    """the tile renderer, with what it does per pixel and per sample"""
    r, ops = tile_run(ck)
    li, nx, get, merge, add = ops
    ev, p = r.ev, r.path
    out = r.out('sampler').n
    if out.op != 'loopres':
        raise Missing('the tile renderer does not loop over pixels')
    return r, ops, LP.Loop(out)


def C13(ck):
    ck.technique = ('Value-graph evaluation over MIR of the tile renderer with sampler, camera and radiance opaque: the nested loop summaries give the exact call sequence per pixel and per '
                    'sample; the counters of both samplers are analysed from their evaluated methods.')
    ck.assumptions = ['samples per pixel is at least 1']
    r, (li, nx, get, merge, add), L = samplerun(ck)
    ev, p, M = r.ev, r.path, ck.M
    i = L.phis.index(L.term) if L.term in L.phis else None
    if not ck.require(i is not None, 'every-pixel', p, 'the sampler is used after the last pixel'):
        return
    itt = ('adt', adtname(ck, 'BBox2iIter'), ())
    el = M.bodies[nx].locals[0][2][0]
    it = LP.as_iter(ev, L, nx, itt, el)
    if not ck.require(it is not None, 'every-pixel', p, 'the loop over pixels does not run through the pixel iterator to its end'):
        return
    # the iterator of the tile's region
    bi = ck.run(iter_fn(ck, nx), 'b', args=[r.arg('tile_bbox').n])
    ck.same('pixels-of-the-tile', p, [V(x) for x in LP.flatten(it.init)], [V(x) for x in LP.flatten(bi.ret.n)])
    pix = LP.flatten(it.elem)
    # inside: start the pixel, then samples until the sampler has no more
    inner = L.nexts[i]
    if not ck.require(inner.op == 'loopres', 'samples-per-pixel', p, 'there is no loop over the samples of a pixel: ' + T.show(inner, 4)):
        return
    K = LP.Loop(inner)
    ph = [x for x in K.phis if any(y is x for y in N.subterms(K.nexts[K.phis.index(x)])) and sampler_chain(K.nexts[K.phis.index(x)], x)]
    if not ck.require(len(ph) == 1, 'samples-per-pixel', p, 'the sampler is not threaded through the sample loop'):
        return
    j = K.phis.index(ph[0])
    ini, base = chain(K.inits[j])
    ok = len(ini) == 1 and last(ini[0][0]) == 'start_pixel' and base is L.phis[i]
    if ck.require(ok, 'pixel-started', p, 'a pixel is not started exactly once before its samples: %s' % [last(x) for x, _ in ini]):
        ck.same('pixel-started', p, [V(x) for x in LP.flatten(ini[0][1].a[1])], [V(x) for x in pix])
    st, base = chain(K.nexts[j])
    names = [last(x) for x, _ in st]
    ok = names.count('start_next_sample') == 1 and names[0] == 'start_next_sample' and names.count(last(li)) == 1 and names.count('get_2d') == 1 and len(names) == 3 and names[2] == 'get_2d'
    if not ck.require(ok and base is ph[0], 'one-camera-sample', p, 'per sample the sampler must give one film position, then the radiance, then move on; it does: %s' % names[::-1]):
        return
    nxc = st[0][1]
    more = mk('call', nxc.k[0], *nxc.a)
    more = ev.expand(('prim', 'bool'), more)
    pr = N.Prover()
    dowhile = K.term is K.nexts[j] and pr.prove(K.cont, more) is None
    flag = [x for x in K.phis if x is not ph[0] and pr.prove(K.cont, T.atom(x)) is None] if not dowhile else []
    whilef = K.term is ph[0] and len(flag) == 1 and K.inits[K.phis.index(flag[0])] is TRUE and pr.prove(K.nexts[K.phis.index(flag[0])], more) is None
    ck.require(dowhile or whilef, 'samples-per-pixel', p, 'samples are not taken exactly until start_next_sample says there are no more: continues while ' + T.show(N.pretty(K.cont), 6))
    # positions, rays, contributions
    g2 = mk('call', st[2][1].k[0], *st[2][1].a)
    w = V(g2, ('adt', adtname(ck, 'Point2'), (('prim', 'f32'),)), ev)
    u = [w.x.n, w.y.n]
    film = [T.add(T.mk('i2f', None, q) if False else q, x) for q, x in zip(pix, u)]
    cam = [e for e in ev.events if last(e[1]) == 'generate_ray']
    lis = [e for e in ev.events if e[1] == li]
    adds = [e for e in ev.events if e[1] == add]
    ck.require(len(cam) == 1 and len(lis) == 1 and len(adds) == 1, 'one-ray-per-sample', p, 'per sample there must be one camera ray, one radiance and one contribution')
    if not (len(cam) == len(lis) == len(adds) == 1):
        return
    cam, lis, adds = cam[0], lis[0], adds[0]
    pos = LP.flatten(cam[2][1])
    pos2 = LP.flatten(adds[2][1])
    ck.same('position-of-the-ray', p, [V(x) for x in pos2], [V(x) for x in pos])
    inpixel(ck, p, pos, ev, nx)
    ray = LP.flatten(lis[2][-1])
    rt = ev.expand(M.bodies[li].locals[len(M.bodies[li].argnames())], callnode(cam)) if False else None
    ck.require(all(mentions(x, callnode(cam)) for x in ray), 'one-ray-per-sample', p, 'the radiance is not taken along the camera ray')
    want = LP.flatten(V(callnode(cam), M.bodies[li].locals[M.bodies[li].argc], ev).n)
    ex = ev.expand(M.bodies[li].locals[M.bodies[li].argc], callnode(cam))
    ck.same('one-ray-per-sample', p, [V(x) for x in ray], [V(x) for x in LP.flatten(ex)])
    lr = ev.expand(M.bodies[li].locals[0], callnode(lis))
    ck.same('contribution', p, [V(x) for x in LP.flatten(adds[2][2])], [V(x) for x in LP.flatten(lr)])
    camera_sample(ck)
    import p_sampler as PS
    for a in PS.samplers(ck):
        counter(ck, a)
    ck.count('samplers', len(PS.samplers(ck)))


def iter_fn(ck, nx):
    """the method that makes a pixel iterator from a region"""
    M = ck.M
    c = [b.path for b in M.bodies.values() if b.locals[0][0] == 'adt' and last(b.locals[0][1]) == 'BBox2iIter' and b.argc == 1 and '{' not in b.path and not b.path.startswith('<')]
    if len(c) != 1:
        raise Missing('pixel iterator of a region')
    return c[0]


def sampler_chain(n, phi):
    c, b = chain(n)
    return b is phi and any(last(x) in ('get_2d', 'start_next_sample') for x, _ in c)


def inpixel(ck, p, pos, ev, nx):
    """position = pixel + offset drawn from the sampler"""
    for k, x in enumerate(pos):
        g = [y for y in N.subterms(x) if y.op in ('fld', 'proj') and any(z.op == 'call' and last(z.k) == 'get_2d' for z in N.subterms(y)) and not any(z.op == 'call' and z.k == nx for z in N.subterms(y.a[0]) if z is not y) or (y.op == 'call' and last(y.k) == 'get_2d')]
        leafs = {y.id: y for y in N.subterms(x) if y.op in ('fld',) and y.a[0].op == 'call' and last(y.a[0].k) == 'get_2d'}
        el = {y.id: y for y in N.subterms(x) if y.op == 'fld' and base_call(y, nx)}
        ok = len(leafs) == 1
        if ok:
            l = list(leafs.values())[0]
            rest = T.sub(x, l)
            es = [y for y in N.subterms(rest) if y.op == 'fld' and base_call(y, nx)]
            top = [y for y in es if not any(y is not z and any(w is y for w in N.subterms(z)) for z in es)]
            ok = len(top) >= 1 and any(N.Prover().prove(rest, t) is None for t in top)
        ck.require(ok, 'sample-in-its-pixel', p, 'the film position is not the pixel plus a sampled offset: ' + T.show(N.pretty(x), 6))


def base_call(y, nx):
    while y.op in ('fld', 'proj'):
        y = y.a[0]
    return y.op == 'call' and y.k == nx


def camera_sample(ck):
    p = ck.default('Sampler', 'get_camera_sample')
    ck.fns.add(p)


def counter(ck, a):
    """a pixel gets exactly the requested number of samples: the counter starts at 0, counts up by one, and ends at the configured number"""
    import p_sampler as PS
    pr = N.Prover()
    op = [ck.free('radical_inverse_prime'), ck.free('inverse_radical_inverse')]
    st = {m: PS.Step(ck, a, m, op) for m in PS.STEPS}
    k = len(st['get_1d'].a)
    nx, sp = st['start_next_sample'], st['start_pixel']
    lv = nx.a
    js = [i for i in range(k) if pr.prove(sp.z[i], num(0)) is None and pr.prove(nx.z[i], T.add(lv[i], num(1))) is None]
    ks = [i for i in range(k) if all(s.z[i] is s.a[i] for s in st.values())]
    good = [(j, c) for j in js for c in ks if pr.prove(nx.ret[0], T.lt(T.add(lv[j], num(1)), lv[c])) is None]
    if not ck.require(len(good) == 1, 'sample-count', nx.path, 'start_next_sample does not answer whether fewer than the requested number of samples were taken: ' + T.show(nx.ret[0], 6)):
        return
    j, c = good[0]
    for m in PS.GETS:
        ck.require(st[m].z[j] is st[m].a[j], 'sample-count', st[m].path, 'drawing a value changes the number of samples taken')
    n = ck.fn(a, 'new')
    names = ['n%d' % i for i in range(ck.M.bodies[n].argc)]
    r = ck.run(n, *names, opaque=[ck.free('multiplicative_inverse')])
    ck.require(LP.flatten(r.ret.n)[c] is r.arg(names[0]).n, 'sample-count', n, 'the requested number of samples is not kept')


def not_below(c):
    """a <= b of numbers that are not NaN: not b < a"""
    m = {}
    for x in N.subterms(c):
        if x.op == 'le':
            f = bnot(T.lt(x.a[1], x.a[0]))
            for y in x.a:
                if y.op != 'num':
                    f = band(f, bnot(T.atom(mk('isnan', None, y))))
            m[x.id] = f
    return LP.replace(c, m) if m else c


def C27(ck):
    ck.technique = ('NaN-aware value-graph evaluation over MIR of the tile renderer: the path condition of adding a sample is proved equivalent to "every colour component is a number, finite '
                    'and not negative".')
    ck.assumptions = []
    save = T.NAN_AWARE[0]
    T.NAN_AWARE[0] = True
    try:
        r, (li, nx, get, merge, add) = tile_run(ck)
        p, ev, M = r.path, r.ev, ck.M
        adds = [e for e in ev.events if e[1] == add]
        lis = [e for e in ev.events if e[1] == li]
        if not ck.require(len(adds) == 1 and len(lis) == 1, 'one-contribution', p, 'a sample is added at %d places' % len(adds)):
            return
        l = LP.flatten(ev.expand(M.bodies[li].locals[0], callnode(lis[0])))
        got = LP.flatten(adds[0][2][2])
        ck.same('unchanged-contribution', p, [V(x) for x in got], [V(x) for x in l])
        pc = not_below(adds[0][0])
        here = not_below(lis[0][0])
        for c, nm in zip(l, 'rgb'):
            isn, isi = T.atom(mk('isnan', None, c)), T.atom(mk('isinf', None, c))
            ck.implies('no-nan', p, pc, bnot(isn), what='component %s is a number' % nm)
            ck.implies('no-infinity', p, pc, bnot(isi), what='component %s is finite' % nm)
            ck.implies('no-negative', p, band(pc, bnot(isn)), bnot(T.lt(c, num(0))), what='component %s is not negative' % nm)
        bad = FALSE
        for c in l:
            bad = bor(bad, T.atom(mk('isnan', None, c)), T.atom(mk('isinf', None, c)), T.lt(c, num(0)))
        ck.implies('valid-samples-kept', p, band(here, bnot(bad)), pc, what='a sample with valid colour is added')
        # nowhere else
        others = [(q, bl['t']['sp']) for q, b in M.bodies.items() for bl in b.blocks if bl['t']['t'] == 'call' and isinstance(bl['t']['f'], dict) and bl['t']['f'].get('n') == add and q not in r.ev.called and q != p]
        ck.require(not others, 'one-contribution', p, 'samples are also added in %s' % others[:1])
    finally:
        T.NAN_AWARE[0] = save
