"""What workers share, and what else could tell one run from another."""
import re
import graph as G
from ck import Missing
from p_algebra import last
from p_integrator import closures_spawned, local_render

CELLS = re.compile(r'(^|::)(UnsafeCell|SyncUnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|Barrier|Atomic\w*|ReentrantLock|Sender|SyncSender|Receiver|LocalKey)$')
FILM = 'film::'
HIDDEN = [
    (re.compile(r'(^|::)(std|core)::time::|::(Instant|SystemTime)::'), 'the time'),
    (re.compile(r'(^|::)std::env::'), 'the environment'),
    (re.compile(r'(^|::)std::process::(id|abort|exit)'), 'the process'),
    (re.compile(r'(^|::)std::fs::|std::net::|std::io::(stdin|Read)|std::io::\w+::read'), 'files'),
    (re.compile(r'(^|::)std::thread::(current|available_parallelism|Thread|ThreadId|spawn|scope|park|sleep|yield_now)|thread::LocalKey'), 'the thread it runs in'),
    (re.compile(r'RandomState|hash_map::HashMap|hash_set::HashSet|collections::hash|DefaultHasher'), 'a randomly seeded hash table'),
    (re.compile(r'(^|::)rand::(thread_rng|random|weak_rng|ThreadRng|OsRng|os::)|::(StdRng|XorShiftRng)::new$'), 'a source of randomness'),
    (re.compile(r'atomic::Atomic|atomic::fence'), 'a shared counter'),
]
PTR = re.compile(r'(^|::)(std|core)::(ptr|alloc)::(?!Global)|::(from_raw|into_raw|as_mut_ptr|get_unchecked\w*|unwrap_unchecked|unreachable_unchecked|transmute_copy|zeroed|assume_init\w*|from_raw_parts\w*|new_unchecked)$|UnsafeCell')


def sends(M):
    """traits whose objects cross threads"""
    return {n for n, t in M.traits.items() if any(x.endswith('marker::Sync') or x.endswith('marker::Send') for x in t['super'])}


def raw(j):
    """name, arguments of a type"""
    return j.get('k'), j.get('n'), j.get('a') or []


class Walk(object):
    """every type a value of some type can lead to"""
    def __init__(self, M):
        self.M = M
        self.impls = {}
        for i in M.impls:
            if i.get('trait'):
                self.impls.setdefault(i['trait'], []).append(i)
        self.cells = []
        self.seen = set()
        self.sh = sends(M)

    def go(self, t, path, owner, shared):
        k = t[0]
        key = (t, owner, shared)
        if key in self.seen:
            return
        self.seen.add(key)
        if k == 'adt':
            n = t[1]
            if CELLS.search(n):
                self.cells.append((n, t, path, owner, shared))
            a = self.M.adts.get(n)
            if a is not None:
                for v in a['v']:
                    for f in v['f']:
                        self.go(model_ty(f['ty']), path + [n + '.' + f['n']], n, shared)
            elif last(n) in ('Arc', 'Rc', 'Weak'):
                shared = True
            for x in t[2]:
                self.go(x, path + ([n] if CELLS.search(n) else []), owner, shared)
        elif k in ('array', 'slice'):
            self.go(t[1], path, owner, shared)
        elif k in ('ref', 'ptr'):
            self.go(t[1], path, owner, True)
        elif k == 'tuple':
            for x in t[1]:
                self.go(x, path, owner, shared)
        elif k == 'dyn':
            for tr in t[1]:
                self.of(tr, path, shared)

    def of(self, tr, path, shared):
        for i in self.impls.get(tr, ()):
            self.go(i['selft'], path + ['dyn ' + last(tr)], None, shared)


def model_ty(j):
    import model
    return model.ty(j)


def captures(M, clo):
    """types moved into the closure, with the owner they belong to"""
    out = []
    for b in M.bodies.values():
        for bl in b.blocks:
            for s in bl['s']:
                if s['s'] == 'assign' and s['v'].get('r') == 'agg' and isinstance(s['v'].get('k'), dict) and s['v']['k'].get('k') == 'closure' and s['v']['k'].get('n') == clo:
                    for o in s['v']['o']:
                        pl = o.get('move') or o.get('copy')
                        if pl and not pl['p']:
                            out.append(b.locals[pl['l']])
    return out


def statics_of(M):
    return M.j.get('statics') or []


def unsafe_of(M):
    return M.j.get('unsafe') or []


def bitcast(v):
    f, t = v.get('from') or {}, v.get('ty') or {}
    return f.get('k') == 'prim' and t.get('k') == 'prim' and {f.get('n'), t.get('n')} in ({'f32', 'u32'}, {'f64', 'u64'}, {'f32', 'i32'}, {'f64', 'i64'})


def places(x):
    """places read or written in a statement or terminator"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if 'l' in y and 'p' in y and isinstance(y['p'], list):
                yield y
            st += list(y.values())
        elif isinstance(y, list):
            st += y


def unsafe_code(ck):
    M = ck.M
    n = 0
    for i in M.impls:
        if i.get('unsafe') and i.get('trait') and last(i['trait']) in ('Send', 'Sync'):
            ck.fail('no-unsafe-sharing', i['self'].get('n') or '?', 'the compiler is told that %s may be shared between threads (%s)' % (i['self'].get('n'), i['sp']))
        n += 1
    ck.ok('no-unsafe-sharing', 'impls')
    for u in unsafe_of(M):
        p = u['n']
        b = M.bodies.get(p)
        if u['k'] == 'extern' or u['k'] == 'impl' or b is None:
            ck.fail('unsafe', p, 'unsafe code that is not a bit cast (%s)' % u['sp'])
            continue
        bad = None
        for bl in b.blocks:
            for s in bl['s']:
                if s['s'] != 'assign':
                    continue
                if s['v'].get('r') == 'cast' and s['v'].get('k') == 'Transmute' and not bitcast(s['v']):
                    bad = 'a value is given another type', s.get('sp')
                for pl in places(s):
                    t = b.locals[pl['l']]
                    if t[0] == 'ptr' and pl['p'] and pl['p'][0] == 'deref':
                        bad = 'a raw pointer is dereferenced', s.get('sp')
                if 'static' == (s['v'].get('c') if isinstance(s['v'], dict) else None):
                    bad = 'a static is used', s.get('sp')
            t = bl['t']
            if t['t'] == 'call' and isinstance(t['f'], dict):
                nm = t['f'].get('res') or t['f'].get('n') or ''
                if PTR.search(nm) or last(nm) == 'transmute' and not (t.get('at') and t.get('dty') and bitcast({'from': t['at'][0], 'ty': t['dty']})) or nm in {x['n'] for x in unsafe_of(M) if x['k'] == 'fn'}:
                    bad = '%s is called' % nm, t.get('sp')
        if bad:
            ck.fail('unsafe', p, 'unsafe code that is not a bit cast: %s (%s)' % bad)
        else:
            ck.ok('unsafe', p)
    return n


def addresses(ck, reach):
    """addresses differ from run to run: they are only compared for equality"""
    M = ck.M
    src, work = {}, True
    while work:
        work = False
        for p in sorted(M.bodies):
            b = M.bodies[p]
            tainted = set()
            bad = None
            ret = False
            for bl in b.blocks:
                for s in bl['s']:
                    if s['s'] == 'assign' and s['v'].get('r') == 'cast' and s['v'].get('k', '').startswith('PointerExpose'):
                        tainted.add(s['p']['l'])
                t = bl['t']
                if t['t'] == 'call' and isinstance(t['f'], dict) and any(src.get(q) for q in G.targets(M, t['f'])):
                    tainted.add(t['d']['l'])
            if not tainted:
                continue
            grow = True
            while grow:
                grow = False
                for bl in b.blocks:
                    for s in bl['s']:
                        if s['s'] != 'assign':
                            continue
                        v = s['v']
                        us = [pl['l'] for pl in places(v) if pl['l'] in tainted]
                        if not us:
                            continue
                        if v.get('r') in ('use', 'copy', 'ref', 'copyforderef', 'rawptr'):
                            if s['p']['l'] not in tainted:
                                tainted.add(s['p']['l'])
                                grow = True
                        elif v.get('r') == 'bin' and v.get('op', v.get('o')) in ('Eq', 'Ne') or v.get('r') == 'binop' and v.get('op') in ('Eq', 'Ne'):
                            pass
                        else:
                            bad = s.get('sp')
            for bl in b.blocks:
                t = bl['t']
                if t['t'] == 'call' and any(pl['l'] in tainted for a in t['a'] for pl in places(a)):
                    nm = t['f'].get('n', '') if isinstance(t['f'], dict) else ''
                    if last(nm) not in ('eq', 'ne'):
                        bad = t.get('sp')
                if t['t'] == 'switch' and any(pl['l'] in tainted for pl in places(t)):
                    bad = bad or None
            if 0 in tainted:
                ret = True
            if bad and p in reach:
                ck.fail('addresses', p, 'the address of an object enters a computation (%s)' % bad)
            else:
                ck.ok('addresses', p)
            if ret and not src.get(p):
                src[p] = True
                work = True
    return src


def C36(ck):
    ck.technique = ('Type reachability from what the worker closure captures, through fields, trait objects and type parameters, for everything that can change behind a shared reference; '
                    'effect analysis of every function a worker can reach; inventory of statics and unsafe code.')
    ck.assumptions += ['Foreign types and functions are judged by what they are, not by their source.']
    M = ck.M
    g = G.calls(M)
    clos = closures_spawned(ck)
    w = Walk(M)
    ncap = 0
    for c in clos:
        ts = captures(M, c)
        ck.require(bool(ts), 'captures', c, 'what the worker captures is not known')
        for t in ts:
            ncap += 1
            w.go(t, ['captured'], 'captured', False)
    for tr in w.sh:
        w.of(tr, [last(tr)], last(tr) not in ('Sampler', 'Camera'))
    for n, t, path, owner, shared in w.cells:
        where = ' > '.join(path)
        inner = t[2][0] if t[2] else None
        if any(x.startswith(FILM) for x in path) or owner and owner.startswith(FILM) or FILM in str(t):
            ck.ok('film', n)
        elif path[0] == 'captured' and all(x == 'captured' or x.startswith('integrator::') or CELLS.search(x) for x in path):
            ck.ok('queue', n)
        elif not shared:
            ck.ok('own', n)
        else:
            ck.fail('shared-state', owner or path[-1], 'workers share %s, which can change: %s' % (last(n), where))
    ck.ok('statics', 'crate')
    for s in statics_of(M):
        t = model_ty(s['ty'])
        z = Walk(M)
        z.go(t, [s['n']], s['n'], True)
        ck.require(not s['m'], 'statics', s['n'], 'a static variable can change (%s)' % s['sp'])
        ck.require(not z.cells, 'statics', s['n'], 'a static variable holds %s, which can change (%s)' % (z.cells and last(z.cells[0][0]), s['sp']))
    # hidden inputs of what a worker computes
    clones = [q for i in M.impls if i.get('trait') and last(i['trait']) == 'Clone' for q in i['im'].values()]
    whole = G.reach(g, clos)
    reach = G.reach(g, [local_render(ck)] + [q for q in clones if q in whole])
    random = {q for i in M.impls if i.get('trait') and last(i['trait']) in ('Clone', 'Sampler') and 'Random' in str(i['self'].get('n')) for q in i['im'].values()}
    calls = 0
    for p in sorted(reach):
        b = M.bodies[p]
        for bl in b.blocks:
            t = bl['t']
            if t['t'] != 'call' or not isinstance(t['f'], dict):
                continue
            calls += 1
            ns = {t['f'].get('res') or '', t['f'].get('n') or ''}
            for rx, what in HIDDEN:
                h = [x for x in ns if rx.search(x)]
                if h and not (what == 'a source of randomness' and only_from(g, p, random)):
                    ck.fail('hidden-input', p, 'what a worker computes depends on %s: %s (%s)' % (what, h[0], t.get('sp')))
                    break
        ck.fns.add(p)
    ck.ok('hidden-input', '%d functions' % len(reach))
    addresses(ck, reach)
    n = unsafe_code(ck)
    ck.floor('captured values', ncap, 5)
    ck.floor('types walked', len({k[0] for k in w.seen}), 40)
    ck.floor('worker functions', len(reach), 200)
    ck.floor('worker calls', calls, 500)
    ck.floor('changing cells', len(w.cells), 2)
    ck.count('impls', n)


def only_from(g, p, roots):
    """p runs only as part of making a sampler of independent random numbers"""
    if p in roots:
        return True
    seen, st = set(), [p]
    while st:
        x = st.pop()
        if x in roots or x in seen:
            continue
        seen.add(x)
        c = G.callers_of(g, x)
        if not c:
            return x.split('::')[-1] == 'new' and 'Random' in x
        st += c
    return True
