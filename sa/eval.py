"""Gated value-graph construction over MIR.

Each basic block is visited once in reverse post-order, with the path condition under which it runs
kept as a decision diagram; states meeting at a join are merged variable by variable into gated
(ite) values.  A loop is one super-node: decided loops are unrolled, every other loop is summarised
by recurrences (phi / next / continue-condition / exit values).  Nothing is executed and no path is
enumerated: the result is one value graph per observable (return value, post-state of a reference).
"""
import terms as T
from terms import (mk, num, TRUE, FALSE, UNDEF, ONE, ZERO, band, bor, bnot, bite, ite, restrict, atom,
                   is_bool, lt, le, eq, add, sub, mul, neg, fdiv, idiv, irem, fn, adt, tup, arr, enum, enum_off)
from model import ty as jty, tsub, unify, has_param, PRIMS_F, PRIMS_I, BITS


class Unsupported(Exception):
    pass


UNK = ('unk',)
STRUCTURED = ('adt', 'enum', 'arr', 'ref', 'B', 'true', 'false', 'num', 'inf', 'ninf', 'nan', 'boxat', 'fnval')
SEQ = ('arr', 'push', 'store', 'repeat', 'vecgen', 'slice', 'append', 'popped')
BOXLIKE = ('std::boxed::Box',)
PTRLIKE = ('std::sync::Arc', 'std::rc::Rc')
TRANSP = ('std::sync::MutexGuard',)


def last(n):
    return n.split('::')[-1]


def is_box(t):
    return t[0] == 'adt' and t[1] in BOXLIKE


def pointee(t):
    if t[0] in ('ref', 'ptr'):
        return t[1]
    if t[0] == 'boxptr':
        return t[1]
    if t[0] == 'adt' and (t[1] in PTRLIKE or t[1] in TRANSP or t[1] in BOXLIKE) and t[2]:
        return t[2][0]
    return UNK


def is_ptr(t):
    return t[0] in ('ref', 'ptr', 'boxptr') or t[0] == 'adt' and (t[1] in PTRLIKE or t[1] in TRANSP)


class Opts(object):
    def __init__(self, opaque=(), max_unroll=20, inline_default=True, no_unroll=(), max_depth=40):
        self.opaque = opaque if callable(opaque) else frozenset(opaque)
        self.max_unroll = max_unroll
        self.inline_default = inline_default
        self.no_unroll = frozenset(no_unroll)
        self.max_depth = max_depth

    def is_opaque(self, path):
        if callable(self.opaque):
            return self.opaque(path)
        return path in self.opaque


class Frame(object):
    __slots__ = ('fid', 'body', 'env', 'types', 'live', 'addr')


class Result(object):
    """ret: exported return value; cond: condition of a normal return; out(name): post-state of a reference argument"""


class Eval(object):
    def __init__(self, model, opts=None):
        self.M = model
        self.o = opts or Opts()
        self.nfid = 0
        self.celltype = {}
        self.consts = {}
        self.stack = []
        self.depth = 0          # nesting of generic loops
        self.oblig = []         # (kind, fn, cond, must, span)
        self.events = []        # (pc, name, args, depth)
        self.loops = []
        self.called = set()     # bodies inlined
        self.opaque_called = set()
        self.unknown = set()    # std callees treated as uninterpreted
        self.notes = set()
        self._exp = {}
        self._exstack = []
        self.pc = TRUE
        self.curspan = ''
        self._live = {}
        self.decflag = False
        self.regions, self.inloop, self.heads = [], [], []
        self.cloenv = {}

    # ------------------------------------------------------------ type-directed expansion
    def expand(self, t, n):
        if n.op in STRUCTURED or n is UNDEF:
            return n
        if n.op == 'ite':
            return ite(n.a[0], self.expand(t, n.a[1]), self.expand(t, n.a[2]))
        key = (t, n.id)
        r = self._exp.get(key)
        if r is None:
            r = self._expand(t, n)
            self._exp[key] = r
        return r

    def _expand(self, t, n):
        k = t[0]
        if k == 'prim':
            if t[1] == 'bool':
                return atom(n)
            return n
        if is_ptr(t):
            if k == 'boxptr':
                return n
            p = pointee(t)
            if n.op == 'vecgen' or n.op in SEQ:
                return n
            return mk('ref', (('H', p), ()), n)
        if is_box(t):
            if t in self._exstack:
                return n
            self._exstack.append(t)
            try:
                inner = self.expand(t[2][0], n)
            finally:
                self._exstack.pop()
            return adt('Box', [inner])
        if n.op in SEQ:
            if k == 'array' and n.op != 'arr' and isinstance(t[2], int) and t[2] <= 8:
                return arr([self.expand(t[1], T.idx_raw(n, num(j))) for j in range(t[2])])
            return n
        if k == 'array':
            if isinstance(t[2], int) and t[2] <= 8:
                return arr([self.expand(t[1], T.idx_raw(n, num(j))) for j in range(t[2])])
            return n
        nf = self.M.nfields(t)
        if nf is not None:
            if t in self._exstack:
                return n
            self._exstack.append(t)
            try:
                kind, name, counts = nf
                if kind == 'struct':
                    fs = []
                    for i in range(counts[0]):
                        ft = self.M.fieldty(t, 0, i) or UNK
                        fs.append(self.expand(ft, mk('fld', (0, i), n)))
                    return adt(name, fs)
                if len(counts) == 1:
                    d = ZERO
                else:
                    d = mk('discr', None, n)
                    T.ENUMN[d.id] = len(counts)
                ps = []
                for v, c in enumerate(counts):
                    for i in range(c):
                        ft = self.M.fieldty(t, v, i) or UNK
                        ps.append(self.expand(ft, mk('fld', (v, i), n)))
                return enum(name, tuple(counts), d, ps)
            finally:
                self._exstack.pop()
        if k == 'closure':
            return n
        return n

    def fieldty(self, t, v, i):
        if t[0] == 'closure':
            return UNK
        if is_box(t):
            return t[2][0]
        return self.M.fieldty(t, v, i) or UNK

    def proj_f(self, val, t, v, i):
        if val is UNDEF:
            return UNDEF
        o = val.op
        if o == 'adt':
            if i < len(val.a):
                return val.a[i]
            return UNDEF
        if o == 'enum':
            return val.a[enum_off(val.k[1], v or 0) + i]
        if o == 'ite':
            return ite(val.a[0], self.proj_f(val.a[1], t, v, i), self.proj_f(val.a[2], t, v, i))
        e = self.expand(t, val) if t != UNK else val
        if e is not val and e.op in ('adt', 'enum'):
            return self.proj_f(e, t, v, i)
        ft = self.fieldty(t, v or 0, i)
        return self.expand(ft, mk('fld', (v or 0, i), val))

    def elemty(self, t):
        if t[0] in ('array', 'slice'):
            return t[1]
        if t[0] == 'adt' and last(t[1]) in ('Vec', 'VecDeque', 'IntoIter') and t[2]:
            return t[2][0]
        if is_box(t):
            return self.elemty(t[2][0])
        return UNK

    def proj_i(self, val, t, i):
        if val is UNDEF:
            return UNDEF
        if val.op == 'adt' and val.k[0] == 'Box':
            val = val.a[0]
        return self.expand(self.elemty(t), T.idx_raw(val, i))

    # ------------------------------------------------------------ references
    def mkref(self, cell, path=(), idx=()):
        return mk('ref', (cell, tuple(path)), *idx)

    def ext(self, r, e, i=None):
        if r.op == 'ite':
            return ite(r.a[0], self.ext(r.a[1], e, i), self.ext(r.a[2], e, i))
        if r is UNDEF:
            return UNDEF
        if r.op != 'ref':
            r = mk('ref', (('H', UNK), ()), r)
        a = r.a + ((i,) if i is not None else ())
        return mk('ref', (r.k[0], r.k[1] + (e,)), *a)

    def root(self, st, r):
        """(value, type, state key or None)"""
        cell = r.k[0]
        c = cell[0]
        if c == 'L':
            return st.get(cell, UNDEF), self.celltype.get(cell, UNK), cell
        if c == 'H':
            leaf = r.a[0]
            key = ('H', cell[1], leaf.id)
            v = st.get(key)
            if v is None:
                v = self.heap_init(cell[1], leaf)
            self.celltype[key] = cell[1]
            return v, cell[1], key
        if c == 'V':
            return r.a[0], cell[1], None
        if c == 'C':
            t, v = self.consts[cell]
            return v, t, None
        raise Unsupported('ref root')

    def heap_init(self, t, leaf):
        # a reference stored as a plain value (after substitution): look through it
        if leaf.op == 'ref' and leaf.k[0][0] == 'V' and not leaf.k[1]:
            return leaf.a[0]
        return self.expand(t, leaf)

    def nbase(self, r):
        return 1 if r.k[0][0] in ('H', 'V') else 0

    def reftype(self, r):
        if r.op == 'ite':
            a = self.reftype(r.a[1])
            return a if a != UNK else self.reftype(r.a[2])
        if r.op != 'ref':
            return UNK
        cell = r.k[0]
        t = self.celltype.get(cell, UNK) if cell[0] == 'L' else (self.consts[cell][0] if cell[0] == 'C' else cell[1])
        for e in r.k[1]:
            if e == 'i':
                t = self.elemty(t)
            else:
                t = self.fieldty(t, e[1], e[2])
        return t

    def read(self, st, r, t=UNK):
        if r.op == 'ite':
            return ite(r.a[0], self.read(st, r.a[1], t), self.read(st, r.a[2], t))
        if r is UNDEF:
            return UNDEF
        if r.op != 'ref':
            r = mk('ref', (('H', t), ()), r)
        v, vt, _ = self.root(st, r)
        j = self.nbase(r)
        for e in r.k[1]:
            if v.op == 'boxat':
                v = self.read(st, v.a[0], vt)
            if e == 'i':
                v, vt = self.proj_i(v, vt, r.a[j]), self.elemty(vt)
                j += 1
            else:
                v, vt = self.proj_f(v, vt, e[1], e[2]), self.fieldty(vt, e[1], e[2])
        if v.op == 'boxat':
            v = self.read(st, v.a[0], vt)
        if t != UNK and vt == UNK:
            v = self.expand(t, v)
        if v.op == 'ite' or v.op == 'B':
            v = T.assume(v, self.pc)
        return v

    def write(self, st, r, val):
        if r.op == 'ite':
            c = r.a[0]
            v1 = ite(c, val, self.read(st, r.a[1]))
            self.write(st, r.a[1], v1)
            v2 = ite(c, self.read(st, r.a[2]), val)
            self.write(st, r.a[2], v2)
            return
        if r is UNDEF:
            return
        if r.op != 'ref':
            self.notes.add('write through opaque reference')
            return
        v, vt, key = self.root(st, r)
        if key is None:
            self.notes.add('write to shared value at ' + self.curspan)
            return
        st[key] = self.upd(v, vt, r.k[1], r.a[self.nbase(r):], val)

    def undef_of(self, t):
        nf = self.M.nfields(t)
        if nf:
            if nf[0] == 'struct':
                return adt(nf[1], [UNDEF] * nf[2][0])
            return enum(nf[1], tuple(nf[2]), UNDEF, [UNDEF] * sum(nf[2]))
        if is_box(t):
            return adt('Box', [UNDEF])
        if t[0] == 'array' and isinstance(t[2], int) and t[2] <= 64:
            return arr([UNDEF] * t[2])
        return None

    def upd(self, v, t, path, idx, new):
        if not path:
            return new
        e = path[0]
        if v.op == 'ite':
            return ite(v.a[0], self.upd(v.a[1], t, path, idx, new), self.upd(v.a[2], t, path, idx, new))
        if e == 'i':
            if v.op == 'adt' and v.k[0] == 'Box':
                return adt('Box', [self.upd(v.a[0], self.fieldty(t, 0, 0), path, idx, new)])
            i = idx[0]
            el = self.upd(self.proj_i(v, t, i), self.elemty(t), path[1:], idx[1:], new)
            return self.seq_store(v, i, el)
        if v is UNDEF:
            u = self.undef_of(t)
            if u is None:
                self.notes.add('partial write to undefined value')
                return UNDEF
            v = u
        if v.op not in ('adt', 'enum'):
            x = self.expand(t, v)
            if x.op not in ('adt', 'enum'):
                return mk('upd', e[1:], v, self.upd(self.proj_f(v, t, e[1], e[2]), self.fieldty(t, e[1], e[2]), path[1:], idx, new))
            v = x
        off = e[2] if v.op == 'adt' else enum_off(v.k[1], e[1] or 0) + e[2]
        a = list(v.a)
        while off >= len(a):
            a.append(UNDEF)
        a[off] = self.upd(a[off], self.fieldty(t, e[1], e[2]), path[1:], idx, new)
        return mk(v.op, v.k, *a)

    def seq_store(self, v, i, el):
        if v.op == 'arr':
            if i.op == 'num':
                if 0 <= i.k < len(v.a):
                    a = list(v.a)
                    a[i.k] = el
                    return arr(a)
                return v
            if len(v.a) <= 8:
                return arr([ite(eq(i, num(j)), el, x) for j, x in enumerate(v.a)])
        if v.op == 'store' and v.a[1] is i:
            return mk('store', None, v.a[0], i, el)
        if v.op == 'push' and T.eq_int(T.seq_len(v.a[0]), i) is True:
            return mk('push', None, v.a[0], el)
        if v.op == 'repeat' and v.a[1].op == 'num' and v.a[1].k <= 16 and i.op == 'num':
            return self.seq_store(arr([v.a[0]] * v.a[1].k), i, el)
        return mk('store', None, v, i, el)

    # ------------------------------------------------------------ export: values without references
    def export(self, st, v, d=0, memo=None):
        if memo is None:
            memo = {}
        r = memo.get(v.id)
        if r is not None:
            return r
        if d > 60:
            return v
        if v.op == 'ref':
            root, vt, key = self.root(st, v)
            if v.k[0][0] == 'H' and key not in st and not v.k[1]:
                r = root if root is not v else v.a[0]
                r = self.export(st, r, d + 1, memo) if r.op != 'ref' else v
            else:
                r = self.export(st, self.read(st, v), d + 1, memo)
        elif v.op == 'boxat':
            r = self.export(st, self.read(st, v.a[0]), d + 1, memo)
        elif v.op == 'adt' and v.k[0] == 'Box':
            r = self.export(st, v.a[0], d + 1, memo)
        elif v.op in ('num', 'sym', 'true', 'false', 'B', 'phi', 'it') or not v.a:
            r = v
        elif self._hasref(v):
            r = T.rebuild(v, [self.export(st, x, d + 1, memo) for x in v.a])
            if v.op == 'loopres':
                for L in self.loops:
                    if v.id in L.wraps and r.id not in L.wraps:
                        L.wraps[r.id] = (r, L.wraps[v.id][1])
        else:
            r = v
        memo[v.id] = r
        return r

    _hr = {}

    def _hasref(self, v):
        r = self._hr.get(v.id)
        if r is None:
            self._hr[v.id] = False
            r = v.op in ('ref', 'boxat') or v.op == 'adt' and v.k[0] == 'Box' or (v.op != 'B' and any(self._hasref(x) for x in v.a))
            self._hr[v.id] = r
        return r

    # ------------------------------------------------------------ states
    def merge(self, c1, s1, c2, s2):
        care = bor(c1, c2)
        c = restrict(c1, care)
        out = {}
        for k in s1:
            v1 = s1[k]
            if k in s2:
                v2 = s2[k]
            elif k[0] == 'H':
                v2 = self.init_of(k)
            else:
                continue
            out[k] = v1 if v1 is v2 else ite(c, v1, v2)
        for k in s2:
            if k not in s1 and k[0] == 'H':
                v1 = self.init_of(k)
                out[k] = v1 if v1 is s2[k] else ite(c, v1, s2[k])
        return care, out

    def init_of(self, k):
        n = self._hleaf(k)
        return self.heap_init(k[1], n)

    def _hleaf(self, k):
        return self._byid(k[2])

    def _byid(self, i):
        m = Eval._ids
        if i not in m:
            for n in list(T._tab.values()):
                m[n.id] = n
        return m[i]
    _ids = {}

    # ------------------------------------------------------------ liveness
    def liveness(self, body):
        r = getattr(body, '_liveness', None)
        if r is not None:
            return r
        addr = set()
        use, dfn = [], []

        def pl_uses(p, u):
            u.add(p['l'])
            for e in p['p']:
                if isinstance(e, dict) and 'idx' in e:
                    u.add(e['idx'])

        def op_uses(o, u, d):
            p = o.get('copy') or o.get('move')
            if p:
                if p['l'] not in d:
                    pl_uses(p, u)

        for bl in body.blocks:
            u, d = set(), set()

            def ou(o):
                p = o.get('copy') or o.get('move')
                if p:
                    x = set()
                    pl_uses(p, x)
                    u.update(x - d)

            def pu(p):
                x = set()
                pl_uses(p, x)
                u.update(x - d)
            for s in bl['s']:
                k = s['s']
                if k == 'assign':
                    v = s['v']
                    r = v['r']
                    if r in ('ref', 'rawptr'):
                        pu(v['p'])
                        if not any(e == 'deref' for e in v['p']['p']):
                            addr.add(v['p']['l'])
                    elif r == 'discr':
                        pu(v['p'])
                    elif r == 'agg':
                        for o in v['o']:
                            ou(o)
                    elif r == 'bin':
                        ou(v['a'])
                        ou(v['b'])
                    elif 'o' in v and isinstance(v['o'], dict):
                        ou(v['o'])
                        q = v['o'].get('copy') or v['o'].get('move')
                        if r == 'cast' and q and q['p'] and 'Transmute' in str(v.get('k')):
                            # the pointer inside a box: what it owns lives as long as the box
                            addr.add(q['l'])
                    elif 'p' in v:
                        pu(v['p'])
                    p = s['p']
                    if p['p']:
                        pu(p)
                    else:
                        d.add(p['l'])
                elif k == 'setdiscr':
                    pu(s['p'])
                elif k in ('dead', 'live'):
                    d.add(s['l'])
            t = bl['t']
            k = t['t']
            if k == 'switch':
                ou(t['d'])
            elif k == 'call':
                if isinstance(t['f'], dict) and 'dynop' in t['f']:
                    ou(t['f']['dynop'])
                for o in t['a']:
                    ou(o)
                if t['d']['p']:
                    pu(t['d'])
                else:
                    d.add(t['d']['l'])
            elif k == 'assert':
                ou(t['c'])
            elif k == 'drop':
                pass
            elif k == 'return':
                if 0 not in d:
                    u.add(0)
            use.append(u)
            dfn.append(d)
        n = len(body.blocks)
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in body.succs(b):
                    o |= livein[s]
                x = use[b] | (o - dfn[b])
                if x != livein[b]:
                    livein[b] = x
                    ch = True
        r = (livein, addr)
        body._liveness = r
        return r

    def prune(self, fr, st, b):
        livein, addr = self.liveness(fr.body)
        li = livein[b]
        for k in [k for k in st if k[0] == 'L' and k[1] == fr.fid and k[2] not in li and k[2] not in addr]:
            del st[k]

    # ------------------------------------------------------------ bodies
    def run_body(self, body, env, args, st, selfenv=None, keep=False):
        """Evaluate an inlined body. Returns (value, state) or None when it never returns."""
        fr = Frame()
        self.nfid += 1
        fr.fid = self.nfid
        fr.body = body
        fr.env = env
        fr.types = [tsub(t, env) for t in body.locals]
        for i, t in enumerate(fr.types):
            self.celltype[('L', fr.fid, i)] = t
        st = dict(st)
        for i, a in enumerate(args):
            st[('L', fr.fid, i + 1)] = a
        self.stack.append(body.path)
        self.called.add(body.path)
        try:
            pc = self.pc
            backs, exits, rets = self.region(fr, 0, body.cfg().reach, [(pc, st)], None)
        finally:
            self.stack.pop()
        if not rets:
            return None
        c, s = rets[0]
        for c2, s2 in rets[1:]:
            c, s = self.merge(c, s, c2, s2)
        self.pc = c
        v = s.get(('L', fr.fid, 0), UNDEF)
        if keep:
            return v, s
        for k in [k for k in s if k[0] == 'L' and k[1] == fr.fid]:
            del s[k]
        return v, s

    def region(self, fr, head, blocks, entry, loop):
        """Evaluate the blocks of a region from its head. Returns (backs, exits, rets)."""
        body = fr.body
        cfg = body.cfg()
        pend = {head: list(entry)}
        backs, rets = [], []
        exits = {}
        order = [b for b in cfg.rpo if b in blocks]

        def send(t, c, s):
            if c is FALSE:
                return
            if loop is not None and t == head:
                backs.append((c, s))
            elif t not in blocks:
                exits.setdefault(t, []).append((c, s))
            else:
                pend.setdefault(t, []).append((c, s))
        skip = set()
        for b in order:
            if b in skip:
                continue
            p = pend.pop(b, None)
            if not p:
                continue
            c, s = p[0]
            if len(p) > 1:
                for x in p:
                    self.prune(fr, x[1], b)
                for c2, s2 in p[1:]:
                    c, s = self.merge(c, s, c2, s2)
            else:
                s = dict(s)
                self.prune(fr, s, b)
            if b in cfg.loops and b != (head if loop is not None else None):
                lb = cfg.loops[b]
                skip |= lb
                outs = self.do_loop(fr, b, lb, c, s, rets)
                for t, c2, s2 in outs:
                    send(t, c2, s2)
                continue
            self.pc = c
            self.regions.append(blocks)
            self.inloop.append(loop is not None)
            self.heads.append(head)
            self.block(fr, b, c, s, send, rets)
            self.heads.pop()
            self.regions.pop()
            self.inloop.pop()
        return backs, exits, rets

    def block(self, fr, b, c, st, send, rets):
        bl = fr.body.blocks[b]
        for s in bl['s']:
            k = s['s']
            if k == 'assign':
                self.curspan = s.get('sp') or self.curspan
                ty, ref = self.place(fr, st, s['p'])
                v = self.rvalue(fr, st, s['v'], ty)
                self.write(st, ref, v)
            elif k == 'dead':
                st.pop(('L', fr.fid, s['l']), None)
            elif k == 'setdiscr':
                ty, ref = self.place(fr, st, s['p'])
                v = self.read(st, ref, ty)
                if v is UNDEF:
                    v = self.undef_of(ty) or UNDEF
                if v.op == 'enum':
                    self.write(st, ref, mk('enum', v.k, num(s['v']), *v.a[1:]))
                else:
                    raise Unsupported('setdiscr')
        t = bl['t']
        k = t['t']
        self.curspan = t.get('sp') or self.curspan
        if k == 'goto' or k == 'drop':
            send(t['to'], c, st)
        elif k == 'return':
            rets.append((c, st))
        elif k == 'switch':
            d = self.operand(fr, st, t['d'])
            self.switch(fr, c, st, t, d, send)
            if self.lastswitch == 1 and self.inloop[-1] and any(x not in self.regions[-1] for x in fr.body.succs(b)):
                self.decflag = True
        elif k == 'assert':
            cv = self.operand(fr, st, t['c'])
            must = cv if t['e'] else bnot(cv)
            self.oblige(t['k'], must, c, [self.operand(fr, st, o) for o in t['o']] if t.get('o') else [])
            send(t['to'], c, st)
        elif k == 'call':
            self.call(fr, b, c, st, t, send)
        elif k in ('unreachable', 'resume'):
            pass
        else:
            raise Unsupported('terminator ' + k)

    def oblige(self, kind, must, pc, ops=()):
        m = restrict(must, pc) if is_bool(must) else must
        self.oblig.append((kind, self.stack[-1] if self.stack else '', pc, m, self.curspan, tuple(ops), self.depth))

    def switch(self, fr, c, st, t, d, send):
        vals = t['v']
        tty = t['ty']
        if is_bool(d):
            d = restrict(d, c)
            conds = {}
            rest = TRUE
            for v, tgt in vals:
                cv = d if int(v) == 1 else bnot(d)
                conds.setdefault(tgt, []).append(band(cv, rest))
                rest = band(rest, bnot(cv))
            conds.setdefault(t['o'], []).append(rest)
        else:
            d = T.assume(d, c)
            conds = {}
            rest = TRUE
            for v, tgt in vals:
                cv = eq(d, num(int(v)))
                conds.setdefault(tgt, []).append(band(cv, rest))
                rest = band(rest, bnot(cv))
            conds.setdefault(t['o'], []).append(rest)
        n = 0
        for tgt, cs in conds.items():
            cc = FALSE
            for x in cs:
                cc = bor(cc, x)
            cc = band(c, cc)
            if cc is FALSE:
                continue
            bt = fr.body.blocks[tgt]
            if bt['t']['t'] == 'unreachable' and not bt['s']:
                continue
            n += 1
            send(tgt, cc, dict(st))
        self.lastswitch = n

    # ------------------------------------------------------------ places, operands, rvalues
    def place(self, fr, st, p):
        l = p['l']
        ref = self.mkref(('L', fr.fid, l))
        ty = fr.types[l]
        var = None
        for e in p['p']:
            if e == 'deref':
                if is_box(ty):
                    v = self.read(st, ref, ty)
                    if v.op == 'boxat':
                        ref = v.a[0]
                    ref, ty = self.ext(ref, ('f', 0, 0)), ty[2][0]
                    continue
                if ty[0] == 'boxptr':
                    ty = ty[1]
                    continue
                v = self.rawread(st, ref, ty)
                pt = pointee(ty)
                if v.op == 'boxat':
                    v = self.ext(v.a[0], ('f', 0, 0))
                elif v.op not in ('ref', 'ite') and v is not UNDEF:
                    v = mk('ref', (('H', pt), ()), v)
                if pt == UNK or pt[0] == 'dyn':
                    rt = self.reftype(v)
                    if rt != UNK:
                        pt = rt
                ref, ty = v, pt
            elif 'f' in e:
                if ty[0] == 'boxptr':
                    continue
                if is_box(ty):
                    v = self.rawread(st, ref, ty)
                    if v.op == 'boxat':
                        ref = v.a[0]
                    ref, ty = self.ext(ref, ('f', 0, 0)), ('boxptr', ty[2][0])
                    continue
                v0 = var or 0
                nt = self.fieldty(ty, v0, e['i'])
                ref = self.ext(ref, ('f', v0, e['i']))
                if nt == UNK:
                    nt = self.reftype(ref)
                ty = nt
            elif 'idx' in e:
                i = st.get(('L', fr.fid, e['idx']), UNDEF)
                ref, ty = self.ext(ref, 'i', i), self.elemty(ty)
            elif 'cidx' in e:
                if e.get('end'):
                    n = T.seq_len(self.read(st, ref, ty))
                    i = sub(n, num(e['cidx']))
                else:
                    i = num(e['cidx'])
                ref, ty = self.ext(ref, 'i', i), self.elemty(ty)
            elif 'down' in e:
                var = e['down']
                continue
            elif 'sub' in e:
                from std import subseq
                v = self.read(st, ref, ty)
                hi = sub(T.seq_len(v), num(e['to'])) if e.get('end') else num(e['to'])
                v = subseq(v, num(e['sub']), hi)
                ty = ('slice', self.elemty(ty))
                ref = mk('ref', (('V', ty), ()), v)
            var = None
        return ty, ref

    def rawread(self, st, ref, ty):
        """read without looking through box aliases"""
        if ref.op == 'ref' and ref.k[0][0] == 'L' and not ref.k[1]:
            v = st.get(ref.k[0], UNDEF)
            if v.op == 'ite':
                v = T.assume(v, self.pc)
            return v
        return self.read(st, ref, ty)

    def operand(self, fr, st, o):
        if 'const' in o:
            return self.constant(fr, o['const'])
        mv = 'move' in o
        p = o['move'] if mv else o['copy']
        ty, ref = self.place(fr, st, p)
        if ty[0] == 'boxptr':
            return ref
        if is_box(ty) and not mv:
            v = self.rawread(st, ref, ty)
            return v if v.op == 'boxat' else mk('boxat', None, ref)
        return self.read(st, ref, ty)

    def optype(self, fr, st, o):
        if 'const' in o:
            return tsub(jty(o['const']['ty']), fr.env)
        return self.place(fr, st, o.get('move') or o.get('copy'))[0]

    def constant(self, fr, c):
        ty = tsub(jty(c['ty']), fr.env if fr else {})
        return self.constval(ty, c['v'], fr)

    def constval(self, ty, v, fr=None):
        k = v['c']
        if k == 'int':
            n = num(int(v['v']))
            nf = self.M.nfields(ty)
            if nf and nf[0] == 'enum':
                if nf[1] == 'Ordering':
                    n = num(n.k + 1 if n.k < 2 else 0)
                return enum(nf[1], tuple(nf[2]), n, [UNDEF] * sum(nf[2]))
            return n
        if k == 'bool':
            return TRUE if v['v'] else FALSE
        if k in ('f32', 'f64'):
            return T.fconst(v['v'])
        if k == 'str':
            return mk('str', v['v'] if isinstance(v['v'], str) else repr(v['v']))
        if k == 'agg':
            fs = []
            t2 = tsub(jty(v['ty']), fr.env if fr else {}) if v.get('ty') else ty
            nf = self.M.nfields(t2)
            if t2[0] == 'array':
                return arr([self.constval(t2[1], x, fr) for x in v['f']])
            var = v.get('variant') or 0
            fs = [self.constval(self.M.fieldty(t2, var, i) or UNK, x, fr) for i, x in enumerate(v['f'])]
            if nf and nf[0] == 'enum':
                ps = [UNDEF] * sum(nf[2])
                off = sum(nf[2][:var])
                for i, x in enumerate(fs):
                    ps[off + i] = x
                return enum(nf[1], tuple(nf[2]), num(var), ps)
            return adt(nf[1] if nf else t2[1] if len(t2) > 1 and isinstance(t2[1], str) else '()', fs)
        if k == 'zst':
            if ty[0] == 'fndef':
                return mk('fnval', ty)
            nf = self.M.nfields(ty)
            if nf and nf[0] == 'struct':
                return adt(nf[1], [])
            if ty[0] == 'closure':
                return adt(('closure', ty[1]), [])
            return tup()
        if k == 'fn':
            return mk('fnval', tsub(jty(v['ty']), fr.env if fr else {}) if v.get('ty') else ty)
        if k == 'ref':
            inner = v['to']
            pt = pointee(ty)
            if inner.get('c') == 'str':
                return mk('str', inner['v'] if isinstance(inner['v'], str) else repr(inner['v']))
            val = self.constval(pt, inner, fr)
            return mk('ref', (('V', pt), ()), val)
        if k == 'promoted':
            path = '%s::{promoted#%d}' % (v['fn'], v['i'])
            b = self.M.bodies.get(path)
            if b is None:
                return mk('sym', 'const:' + path)
            # promoted body evaluates to a reference to a static value
            key = ('C', path)
            pc = self.pc
            r = self.run_body(b, {}, [], {}, keep=True)
            self.pc = pc
            if r is None:
                return mk('sym', 'const:' + path)
            return r[0] if r[0].op == 'ref' and r[0].k[0][0] != 'L' else self._promote(path, b, r)
        if k == 'static':
            return mk('sym', 'static:' + str(v))
        return mk('sym', 'const:' + str(sorted(v.items())) + str(ty))

    def _promote(self, path, b, r):
        t = pointee(b.locals[0])
        return mk('ref', (('V', t), ()), self.read(r[1], r[0], t))

    def rvalue(self, fr, st, v, dty):
        r = v['r']
        if r == 'use':
            return self.operand(fr, st, v['o'])
        if r in ('ref', 'rawptr'):
            ty, ref = self.place(fr, st, v['p'])
            return ref
        if r == 'repeat':
            x = self.operand(fr, st, v['o'])
            n = v['n']
            if isinstance(n, int) and n <= 16:
                return arr([x] * n)
            return mk('repeat', None, x, num(n) if isinstance(n, int) else mk('sym', str(n)))
        if r == 'discr':
            ty, ref = self.place(fr, st, v['p'])
            x = self.read(st, ref, ty)
            return self.discr(x, ty)
        if r == 'agg':
            return self.aggregate(fr, st, v, dty)
        if r == 'bin':
            a, b = self.operand(fr, st, v['a']), self.operand(fr, st, v['b'])
            return self.binop(v['op'], a, b, tsub(jty(v['ty']), fr.env) if isinstance(v.get('ty'), dict) else UNK)
        if r == 'un':
            x = self.operand(fr, st, v['o'])
            op = v['op']
            if op == 'PtrMetadata':
                return self.length(st, x, fr)
            if op == 'Neg':
                return neg(x)
            if op == 'Not':
                return bnot(x) if is_bool(x) else mk('not', None, x)
            raise Unsupported('unop ' + op)
        if r == 'cast':
            x = self.operand(fr, st, v['o'])
            return self.cast(v['k'], x, tsub(jty(v['from']), fr.env), tsub(jty(v['ty']), fr.env), st)
        if r == 'len':
            ty, ref = self.place(fr, st, v['p'])
            return T.seq_len(self.read(st, ref, ty))
        raise Unsupported('rvalue ' + r)

    def length(self, st, x, fr=None):
        t = self.reftype(x)
        v = self.read(st, x)
        if v.op == 'adt' and v.k[0] == 'Box':
            v = v.a[0]
        if t[0] == 'array' and isinstance(t[2], int):
            return num(t[2])
        return T.seq_len(v)

    def discr(self, x, ty):
        if x is UNDEF:
            return UNDEF
        if x.op == 'ite':
            return ite(x.a[0], self.discr(x.a[1], ty), self.discr(x.a[2], ty))
        if x.op != 'enum':
            x = self.expand(ty, x)
        if x.op == 'enum':
            d = x.a[0]
            if x.k[0] == 'Ordering':
                import std
                r = std.mapnum(d, lambda q: num(q.k - 1))
                return r if r is not None else sub(d, ONE)
            a = self.M.adts.get(ty[1]) if ty[0] == 'adt' else None
            if a and a['enum'] and any(v['d'] != i for i, v in enumerate(a['v'])):
                out = num(a['v'][-1]['d'])
                for i in range(len(a['v']) - 2, -1, -1):
                    out = ite(eq(d, num(i)), num(a['v'][i]['d']), out)
                return out
            return d
        return mk('discr', None, x)

    def aggregate(self, fr, st, v, dty):
        k = v['k']
        ops = [self.operand(fr, st, o) for o in v['o']]
        kk = k['k']
        if kk == 'array':
            return arr(ops)
        if kk == 'tuple':
            return tup(*ops)
        if kk == 'closure':
            self.cloenv[k['n']] = fr.env
            return adt(('closure', k['n']), ops)
        if kk == 'adt':
            nf = self.M.nfields(dty) if dty[0] == 'adt' else None
            if nf is None or dty[0] != 'adt' or dty[1] != k['n']:
                t2 = ('adt', k['n'], tuple(tsub(jty(x), fr.env) for x in k.get('a', []) if x['k'] != 'constarg'))
                nf = self.M.nfields(t2)
            var = k['v'] or 0
            if nf and nf[0] == 'enum':
                ps = [UNDEF] * sum(nf[2])
                off = sum(nf[2][:var])
                for i, x in enumerate(ops):
                    ps[off + i] = x
                return enum(nf[1], tuple(nf[2]), num(var), ps)
            return adt(nf[1] if nf else k['n'], ops, var)
        raise Unsupported('aggregate ' + kk)

    def binop(self, op, a, b, ty=UNK):
        isb = is_bool(a) or is_bool(b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        fl = ty[0] == 'prim' and ty[1] in PRIMS_F
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if op.endswith('WithOverflow'):
            base = op[:3]
            v = {'Add': add, 'Sub': sub, 'Mul': mul}[base](a, b)
            if not (v.op == 'num'):
                self.oblig.append(('overflow', self.stack[-1] if self.stack else '', self.pc, TRUE, self.curspan, (mk('op', base), a, b, v), self.depth, ty))
            return tup(v, FALSE)
        if op == 'Div':
            return fdiv(a, b) if fl else idiv(a, b)
        if op == 'Rem':
            return mk('frem', None, a, b) if fl else irem(a, b)
        if op == 'Eq':
            return self.equal(a, b)
        if op == 'Ne':
            return bnot(self.equal(a, b))
        if isb and op in ('Lt', 'Le', 'Gt', 'Ge'):
            return {'Lt': band(bnot(a), b), 'Gt': band(a, bnot(b)), 'Le': bor(bnot(a), b), 'Ge': bor(a, bnot(b))}[op]
        if op == 'Lt':
            return lt(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Le':
            return le(a, b)
        if op == 'Ge':
            return le(b, a)
        if op == 'BitAnd':
            if isb:
                return band(a, b)
            return bits('&', a, b)
        if op == 'BitOr':
            if isb:
                return bor(a, b)
            return bits('|', a, b)
        if op == 'BitXor':
            if isb:
                return bnot(eq(a, b))
            return bits('^', a, b)
        if op.startswith('Shl'):
            if a.op == 'num' and b.op == 'num':
                return num(a.k << b.k)
            return mk('shl', None, a, b)
        if op.startswith('Shr'):
            if a.op == 'num' and b.op == 'num':
                return num(a.k >> b.k)
            if b.op == 'num':
                return mk('idiv', None, a, num(2 ** b.k)) if ty[0] == 'prim' and ty[1].startswith('u') else mk('shr', None, a, b)
            return mk('shr', None, a, b)
        if op == 'Offset':
            return mk('offset', None, a, b)
        if op == 'Cmp':
            d = ite(lt(a, b), ZERO, ite(self.equal(a, b), ONE, num(2)))
            return enum('Ordering', (0, 0, 0), d, [])
        raise Unsupported('binop ' + op)

    def equal(self, a, b):
        """structural equality of two values"""
        if a.op == 'ite' and b.op in ('adt', 'enum', 'arr'):
            return bite(a.a[0], self.equal(a.a[1], b), self.equal(a.a[2], b))
        if b.op == 'ite' and a.op in ('adt', 'enum', 'arr'):
            return bite(b.a[0], self.equal(a, b.a[1]), self.equal(a, b.a[2]))
        if a.op == 'adt' and b.op == 'adt' and len(a.a) == len(b.a):
            r = TRUE
            for x, y in zip(a.a, b.a):
                r = band(r, self.equal(x, y))
            return r
        if a.op == 'arr' and b.op == 'arr':
            if len(a.a) != len(b.a):
                return FALSE
            r = TRUE
            for x, y in zip(a.a, b.a):
                r = band(r, self.equal(x, y))
            return r
        if a.op == 'enum' and b.op == 'enum' and a.k == b.k:
            r = eq(a.a[0], b.a[0])
            for v, c in enumerate(a.k[1]):
                off = enum_off(a.k[1], v)
                for i in range(c):
                    r = band(r, bor(bnot(eq(a.a[0], num(v))), self.equal(a.a[off + i], b.a[off + i])))
            return r
        if a is UNDEF or b is UNDEF:
            return TRUE
        return eq(a, b)

    def cast(self, k, x, f, t, st):
        if x is UNDEF:
            return UNDEF
        if k == 'IntToInt':
            nf = self.M.nfields(f)
            if x.op == 'enum':
                x = self.discr(x, f)
            if is_bool(x):
                return ite(x, ONE, ZERO)
            if t[0] == 'prim' and f[0] == 'prim':
                return intcast(x, f[1], t[1])
            return x
        if k == 'IntToFloat':
            return x
        if k == 'FloatToInt':
            if x.op == 'num':
                return num(int(x.k)) if t[1].startswith('i') or x.k > -1 else ZERO
            if x.op in ('floor', 'ceil', 'round', 'trunc'):
                return mk('f2i', t[1], x)
            return mk('f2i', t[1], fn('trunc', x))
        if k == 'FloatToFloat':
            return x
        if k == 'Transmute':
            if f[0] == 'prim' and t[0] == 'prim':
                if x.op == 'bits' and x.k == t[1]:
                    return x.a[0]
                return mk('bits', f[1], x)
            return x
        return x

    # ------------------------------------------------------------ loops
    def do_loop(self, fr, h, blocks, c, st, rets):
        def step(pc, s):
            backs, exits, r = self.region(fr, h, blocks, [(pc, s)], True)
            if r:
                raise Unsupported('return inside natural loop')
            if not backs:
                b = None
            else:
                bc, bs = backs[0]
                for c2, s2 in backs[1:]:
                    bc, bs = self.merge(bc, bs, c2, s2)
                bs = dict(bs)
                self.prune(fr, bs, h)
                b = (bc, bs)
            outs = []
            for t in exits:
                xs = exits[t]
                ec, es = xs[0]
                for c2, s2 in xs[1:]:
                    ec, es = self.merge(ec, es, c2, s2)
                es = dict(es)
                self.prune(fr, es, t)
                outs.append((t, ec, es))
            return b, outs
        return self.loop(step, c, st, (fr.body.path, h))

    def snap(self):
        return (len(self.oblig), len(self.events), len(self.loops))

    def rollback(self, s):
        del self.oblig[s[0]:]
        del self.events[s[1]:]
        del self.loops[s[2]:]

    def loop(self, step, c, st, tag):
        s0 = self.snap()
        nf0 = self.nfid
        # ---- decided loops are unrolled
        if self.o.no_unroll and tag[0] in self.o.no_unroll:
            return self.summarise(step, c, st, tag, s0)
        outs, cur = [], (c, st)
        n = und = 0
        ok = False
        save = self.decflag
        while n <= self.o.max_unroll and und <= 4:
            self.decflag = False
            b, ex = step(cur[0], dict(cur[1]))
            dec = self.decflag
            ex = [e for e in ex if restrict(e[1], c) is not FALSE]
            if b is None or b[0] is FALSE:
                outs += ex
                ok = True
                break
            # the exit and the back edge are both possible and no bound was decided: not an unrollable loop
            if not dec:
                break
            if ex:
                und += 1
            outs += ex
            cur = b
            n += 1
        self.decflag = save
        if ok:
            m = {}
            for t, ec, es in outs:
                if t in m:
                    m[t] = self.merge(m[t][0], m[t][1], ec, es)
                else:
                    m[t] = (ec, es)
            return [(t, v[0], v[1]) for t, v in m.items()]
        self.rollback(s0)
        return self.summarise(step, c, st, tag, s0)

    # generic summary
    def summarise(self, step, c, st, tag, s0):
        d = self.depth
        self.depth += 1
        try:
            entry = dict(st)
            phis = {}     # (cellkey, path) -> index
            order = []
            for rnd in range(30):
                self.rollback(s0)
                hst = dict(entry)
                for key in set(k for k, _ in order):
                    base = entry.get(key)
                    if base is None:
                        base = self.init_of(key) if key[0] == 'H' else UNDEF
                    hst[key] = self.havoc(base, key, (), phis, d)
                b, ex = step(c, hst)
                if b is None:
                    break
                bc, bs = b
                new = []
                for key, v in bs.items():
                    base = entry.get(key)
                    if base is None:
                        if key[0] == 'H':
                            base = self.init_of(key)
                        else:
                            continue
                    e2 = self.diff(base, v, key, (), phis, new)
                    if e2 is not base:
                        entry[key] = e2
                if not new:
                    break
                for kp in new:
                    phis[kp] = len(order)
                    order.append(kp)
            else:
                raise Unsupported('loop summary did not stabilise in %s' % (tag,))
            if b is None:
                # at most one iteration
                return [(t, ec, es) for t, ec, es in ex]
            bc, bs = b
            inits = [self.at(entry.get(k) if k in entry else self.init_of(k), p) for k, p in order]
            nexts = [self.at(bs.get(k) if k in bs else (self.init_of(k) if k[0] == 'H' else UNDEF), p) for k, p in order]
            pn = [mk('phi', (d, i)) for i in range(len(order))]
            # boolean phis are atoms
            cont = restrict(bc, c)
            L = LoopSummary(self, d, pn, inits, nexts, cont, [(t, restrict(ec, c), es) for t, ec, es in ex], tag, order)
            L.simplify()
            self.loops.append(L)
            out = L.exit_states(c, st)
            return out
        finally:
            self.depth -= 1

    def havoc(self, v, key, path, phis, d):
        i = phis.get((key, path))
        if i is not None:
            p = mk('phi', (d, i))
            return p if not self._boolphi(v, key, path) else atom(p)
        if v.op in ('adt', 'enum', 'arr') or v.op == 'ref':
            a = [self.havoc(x, key, path + (j,), phis, d) for j, x in enumerate(v.a)]
            if v.op == 'enum' and a and a[0].op == 'phi':
                T.ENUMN[a[0].id] = len(v.k[1])
            return mk(v.op, v.k, *a)
        return v

    boolphis = None

    def _boolphi(self, v, key, path):
        return is_bool(v) or (key, path) in self._bp

    _bp = set()

    def at(self, v, path):
        for j in path:
            if v is UNDEF:
                return UNDEF
            if v.op == 'ite':
                return ite(v.a[0], self.at(v.a[1], path), self.at(v.a[2], path))
            if j >= len(v.a):
                return UNDEF
            v = v.a[j]
            path = path[1:]
        return v

    def diff(self, base, v, key, path, phis, new):
        """collect changed leaf positions; returns base reshaped when the back value has more structure"""
        if v is base:
            return base
        if (key, path) in phis:
            return base
        if base is UNDEF and v.op in ('adt', 'enum', 'arr'):
            base = mk(v.op, v.k, *([UNDEF] * len(v.a)))
            for j, x in enumerate(v.a):
                pass
        if base.op == v.op and base.k == v.k and len(base.a) == len(v.a) and (v.op in ('adt', 'enum', 'arr') or v.op == 'ref' and base.a):
            a = [self.diff(x, y, key, path + (j,), phis, new) for j, (x, y) in enumerate(zip(base.a, v.a))]
            if all(p is q for p, q in zip(a, base.a)):
                return base
            return mk(base.op, base.k, *a)
        if is_bool(v) or is_bool(base):
            self._bp.add((key, path))
        new.append((key, path))
        return base

    # ------------------------------------------------------------ calls
    def call(self, fr, b, c, st, t, send):
        f = t['f']
        args = [self.operand(fr, st, o) for o in t['a']]
        atys = [self.optype(fr, st, o) for o in t['a']]
        dty, dref = self.place(fr, st, t['d'])
        self.pc = c
        span = self.curspan
        r = None
        if self.inloop[-1] and b == self.heads[-1] and f.get('m') == 'next' and (f.get('trait') or '').endswith('Iterator') and args[0].op == 'ref':
            # a loop over a filtered iterator: a skipped element is one more turn of the loop
            import std
            k = std.skipping_next(self, args[0], st)
            if k is not None:
                send(b, band(c, k[0]), dict(k[2]))
                self.pc = band(c, bnot(k[0]))
                r = k[1], k[2]
        if r is None:
            r = self.invoke(fr, f, args, atys, dty, st, t)
        self.curspan = span
        if r is None or t['to'] is None:
            if t['to'] is None and r is None or t['to'] is None:
                self.oblige('panic', FALSE, c)
            return
        v, st2 = r
        dty, dref = self.place(fr, st2, t['d'])
        st2 = dict(st2)
        self.write(st2, dref, v)
        send(t['to'], self.pc, st2)

    def invoke(self, fr, f, args, atys, dty, st, t=None):
        """returns (value, state) or None (diverges); self.pc is the path condition, updated on return"""
        if 'dynop' in f:
            fv = self.operand(fr, st, f['dynop'])
            return self.apply(fv, args, st, dty)
        env = fr.env
        name = f.get('res') or f['n']
        ra = [tsub(jty(x), env) for x in (f.get('ra') if f.get('ra') is not None else f['a']) if x['k'] != 'constarg']
        return self.invoke_named(name, f, ra, args, atys, dty, st, env)

    def invoke_named(self, name, f, ra, args, atys, dty, st, env):
        import std
        # builtin shapes by trait method first
        trait = f.get('trait')
        if trait:
            selfty = tsub(jty(f['self']), env) if f.get('self') else (ra[0] if ra else UNK)
            m = f['m']
            # local implementation for a concrete receiver
            if f.get('rlocal') and f.get('rk') == 'item' and name in self.M.bodies and not (self.M.bodies[name].in_trait and selfty[0] in ('dyn', 'param')):
                return self.call_body(self.M.bodies[name], ra, args, atys, dty, st, f)
            r = self.trait_call(trait, m, selfty, f, args, atys, dty, st, env)
            if r is not NotImplemented:
                return r
        elif f.get('rlocal') and name in self.M.bodies:
            return self.call_body(self.M.bodies[name], ra, args, atys, dty, st, f)
        r = std.builtin(self, name, f, ra, args, atys, dty, st, env)
        if r is not NotImplemented:
            return r
        self.unknown.add(name)
        return self.opaque(name, args, atys, dty, st)

    def trait_call(self, trait, m, selfty, f, args, atys, dty, st, env):
        targs = [tsub(jty(x), env) for x in f['a'] if x['k'] != 'constarg']
        # dynamic receiver with a statically known concrete referent
        if args and selfty[0] in ('dyn', 'param'):
            rt = self.reftype(args[0]) if args[0].op in ('ref', 'ite') else UNK
            if rt[0] == 'adt' and rt[1] in self.M.adts:
                selfty = rt
        impls = self.M.find_impls(trait, selfty, targs) if selfty[0] not in ('param',) else []
        if selfty[0] in ('adt', 'ref', 'tuple', 'array', 'closure', 'slice', 'prim'):
            for i, e in impls:
                p = i['im'].get(m)
                if p and p in self.M.bodies:
                    return self.call_body(self.M.bodies[p], None, args, atys, dty, st, f, dict(e))
            if impls:
                b = self.M.trait_default(trait, m)
                if b is not None:
                    return self.call_body(b, None, args, atys, dty, st, f, {'Self': selfty})
            return NotImplemented
        local = trait in self.M.traits
        if not local:
            return NotImplemented
        # dyn / param receiver of a local trait
        b = self.M.trait_default(trait, m)
        if b is not None and self.o.inline_default:
            over = any(m in i['im'] for i in self.M.impls if i.get('trait') == trait)
            if not over and not self.o.is_opaque(b.path):
                return self.call_body(b, None, args, atys, dty, st, f, {'Self': selfty})
        return self.opaque(trait + '::' + m, args, atys, dty, st)

    def call_body(self, body, ra, args, atys, dty, st, f, env=None):
        if self.o.is_opaque(body.path) or body.path in self.stack or len(self.stack) > self.o.max_depth:
            return self.opaque(body.path, args, atys, dty, st)
        if env is None:
            env = {}
        gp = [g for g in body.gparams]
        if ra is not None:
            for g, a in zip(gp, ra):
                if g:
                    env[g] = a
        # infer the rest from argument types
        for pt, at in zip(body.locals[1:body.argc + 1], atys):
            e2 = dict(env)
            if unify(pt, at, e2):
                for kx, vx in e2.items():
                    env.setdefault(kx, vx)
        n = body.argc
        if body.closure and len(args) == 2:
            args = [args[0]] + list(self.untuple(args[1], n - 1))
        return self.run_body(body, env, args[:n], st)

    def untuple(self, v, n):
        return [self.proj_f(v, UNK, 0, i) for i in range(n)]

    def apply(self, fv, args, st, dty=UNK):
        """call a closure / function value with untupled args"""
        v = fv
        for _ in range(4):
            if v.op == 'ref':
                w = self.read(st, v)
                if w.op == 'adt' and isinstance(w.k[0], tuple) or w.op in ('fnval', 'ref'):
                    if w.op == 'adt':
                        break
                    v = w
                    continue
            break
        clo = v
        if v.op == 'ref':
            clo = self.read(st, v)
        if clo.op == 'adt' and isinstance(clo.k[0], tuple) and clo.k[0][0] == 'closure':
            b = self.M.bodies.get(clo.k[0][1])
            if b is None:
                return self.opaque('closure:' + clo.k[0][1], [v] + list(args), [UNK] * (1 + len(args)), dty, st)
            t1 = b.locals[1]
            if t1[0] == 'ref':
                if v.op != 'ref':
                    # the closure value itself lives in a temporary cell
                    self.nfid += 1
                    cell = ('L', -self.nfid, 0)
                    self.celltype[cell] = t1[1]
                    st = dict(st)
                    st[cell] = clo
                    v = self.mkref(cell)
                a0 = v
            else:
                a0 = clo
            return self.run_body(b, self._cenv(b), [a0] + list(args), st)
        if clo.op == 'fnval':
            ft = clo.k
            p = ft[1]
            if p in self.M.bodies:
                return self.call_body(self.M.bodies[p], list(ft[2]), list(args), [UNK] * len(args), dty, st, {})
            import std
            f = {'n': p, 'm': last(p), 'a': []}
            r = std.builtin(self, p, f, list(ft[2]), list(args), [UNK] * len(args), dty, st, {})
            if r is not NotImplemented:
                return r
        return self.opaque('apply', [clo] + list(args), [UNK] * (1 + len(args)), dty, st)

    def _cenv(self, b):
        # closures inherit the generic environment of the function that created them; types are dynamic here
        return dict(self.cloenv.get(b.path, {}))

    def opaque(self, name, args, atys, dty, st):
        """an uninterpreted function of its argument values; &mut arguments get fresh post-states"""
        self.opaque_called.add(name)
        vals = [self.export(st, a) for a in args]
        self.events.append((self.pc, name, tuple(vals), self.depth, self.curspan, tuple(self.stack)))
        st2 = st
        for i, (a, t) in enumerate(zip(args, atys)):
            if t[0] in ('ref', 'ptr') and t[2] and a.op in ('ref', 'ite'):
                pt = self.reftype(a)
                if pt == UNK or pt[0] in ('dyn', 'param'):
                    pt = t[1] if t[1][0] != 'slice' or pt == UNK else pt
                if pt[0] == 'slice' or pt[0] == 'array':
                    pass
                if st2 is st:
                    st2 = dict(st)
                self.write(st2, a, self.expand(pt, mk('callmut', (name, i), *vals)))
        if dty == ('tuple', ()):
            return tup(), st2
        v = self.expand(dty, mk('call', name, *vals))
        return v, st2

    # ------------------------------------------------------------ entry point
    def analyse(self, path, args=None, env=None, state=None, names=None):
        """Evaluate a body on symbolic arguments named after its parameters."""
        body = self.M.bodies[path] if isinstance(path, str) else path
        env = env or {}
        self.pc = TRUE
        self.regions, self.inloop, self.stack = [], [], []
        st = dict(state or {})
        nm = names or body.argnames()
        vals, refs = [], {}
        for i in range(body.argc):
            t = tsub(body.locals[i + 1], env)
            a = args[i] if args is not None and i < len(args) and args[i] is not None else None
            if a is None:
                a = mk('sym', nm[i])
            v = self.expand(t, a)
            if is_ptr(t) and v.op not in ('ref', 'ite'):
                # a value was supplied for a reference parameter: give it a cell
                self.nfid += 1
                cell = ('L', -self.nfid, 0)
                self.celltype[cell] = pointee(t)
                st[cell] = v
                v = self.mkref(cell)
            refs[nm[i]] = (v, t)
            vals.append(v)
        r = self.run_body(body, env, vals, st)
        R = Result()
        R.ev = self
        R.body = body
        if r is None:
            R.ret, R.cond, R.st = None, FALSE, {}
        else:
            R.raw = r[0]
            R.st = r[1]
            R.ret = self.export(r[1], r[0])
            R.cond = self.pc

        def out(n):
            v, t = refs[n]
            return self.export(R.st, self.read(R.st, v, pointee(t)))
        R.out = out
        R.arg = lambda n: refs[n][0]
        return R


def bits(op, a, b):
    if a.op == 'num' and b.op == 'num':
        return num({'&': a.k & b.k, '|': a.k | b.k, '^': a.k ^ b.k}[op])
    if a.op == 'num':
        a, b = b, a
    if b.op == 'num' and b.k == 0:
        return ZERO if op == '&' else a
    if a is b:
        return ZERO if op == '^' else a
    if a.op == 'ite' and b.op == 'num' and T._numtree(a):
        return ite(a.a[0], bits(op, a.a[1], b), bits(op, a.a[2], b))
    if op in '&|' and b.op != 'num' and a.id > b.id:
        a, b = b, a
    return T.bitand(a, b) if op == '&' else mk('bit' + op, None, a, b)


def intcast(x, f, t):
    if f == t:
        return x
    if x.op == 'num':
        b = BITS.get(t, 64)
        v = x.k & ((1 << b) - 1)
        if t.startswith('i') and v >> (b - 1):
            v -= 1 << b
        return num(v)
    if x.op == 'ite' and T._numtree(x):
        return ite(x.a[0], intcast(x.a[1], f, t), intcast(x.a[2], f, t))
    fb, tb = BITS.get(f, 64), BITS.get(t, 64)
    fs, ts = f.startswith('i'), t.startswith('i')
    if fs == ts and tb >= fb or (not fs and ts and tb > fb):
        return x
    if x.op == 'f2i' and fs and not ts:
        pass
    return mk('wrap', t, x)


# -------------------------------------------------------------------- loop summaries

class LoopSummary(object):
    def __init__(self, ev, d, phis, inits, nexts, cont, exits, tag, order):
        self.ev, self.d, self.tag, self.order = ev, d, tag, order
        self.phis, self.inits, self.nexts = list(phis), list(inits), list(nexts)
        self.cont = cont
        self.exits = exits          # (target, cond, state)
        self.sub = {}               # phi node id -> closed form (in terms of it(d))
        self.it = mk('it', d)
        self.trip = None
        self.closed_after = {}
        self.wraps = {}

    def substall(self, m):
        m = dict(m)
        m['__d'] = (self.d,)
        memo = {}
        S = lambda x: T.subst(x, m, memo)
        self.nexts = [S(x) for x in self.nexts]
        self.cont = S(self.cont)
        self.exits = [(t, S(c), {k: (S(v) if self.d in v.fv else v) for k, v in s.items()}) for t, c, s in self.exits]
        for k in list(self.sub):
            self.sub[k] = S(self.sub[k])
        self.sub.update({k: v for k, v in m.items() if k != '__d'})

    def drop(self, idx):
        keep = [i for i in range(len(self.phis)) if i not in idx]
        self.phis = [self.phis[i] for i in keep]
        self.inits = [self.inits[i] for i in keep]
        self.nexts = [self.nexts[i] for i in keep]

    def simplify(self):
        d, it = self.d, self.it
        # values at the back edge only matter when the loop continues
        self.nexts = [T.assume(x, self.cont) for x in self.nexts]
        ch = True
        while ch:
            ch = False
            m, gone = {}, set()
            for i, (p, n, z) in enumerate(zip(self.phis, self.nexts, self.inits)):
                pv = p
                if n is p or (is_bool(n) and n is atom(p)):
                    m[p.id] = z
                    gone.add(i)
                    continue
                inc = None
                if n.op == 'add':
                    if n.a[0] is p:
                        inc = n.a[1]
                    elif n.a[1] is p:
                        inc = n.a[0]
                if inc is not None and d not in inc.fv and z is not UNDEF:
                    m[p.id] = add(z, mul(inc, it))
                    gone.add(i)
            if m:
                self.drop(gone)
                self.substall(m)
                self.nexts = [T.assume(x, self.cont) for x in self.nexts]
                ch = True
                continue
            # trip count of a counted loop: single exit, continue while a + it < b
            self.find_trip()
            # a list that grows by one element per iteration
            for i, (p, n, z) in enumerate(zip(self.phis, self.nexts, self.inits)):
                if n.op == 'push' and n.a[0] is p and p.id not in _nodeset(n.a[1]):
                    body = n.a[1]
                    if any(q.id in _nodeset(body) for q in self.phis):
                        continue
                    g = mk('vecgen', (d,), it, body)
                    if z.op == 'arr' and not z.a:
                        cl = g
                    else:
                        cl = mk('append', None, z, g)
                    self.drop({i})
                    self.substall({p.id: cl})
                    ch = True
                    break
            if ch:
                continue
            # identical recurrences
            for i in range(len(self.phis)):
                for j in range(i):
                    if self.inits[i] is self.inits[j]:
                        m2 = {self.phis[i].id: self.phis[j], '__d': (self.d,)}
                        if T.subst(self.nexts[i], m2) is T.subst(self.nexts[j], m2):
                            self.drop({i})
                            self._alias(i, j, m2)
                            ch = True
                            break
                if ch:
                    break
        self.find_trip()

    def _alias(self, i, j, m2):
        m = {k: v for k, v in m2.items() if k != '__d'}
        self.substall(m)

    def find_trip(self):
        self.trip = None
        ex = [e for e in self.exits if e[1] is not FALSE]
        if len(ex) != 1:
            return
        c = self.cont
        if c.op == 'B' and (c.a[1], c.a[2]) == (TRUE, FALSE) and c.a[0].op == 'lt':
            x, y = c.a[0].a
            a = None
            if x is self.it:
                a = ZERO
            elif x.op == 'add' and self.it in x.a:
                a = x.a[1] if x.a[0] is self.it else x.a[0]
            if a is not None and self.d not in a.fv and self.d not in y.fv:
                self.trip = sub(y, a) if a is not ZERO else y
                self.base = a

    # ---- results
    def colors(self):
        """order of the phis that does not depend on node numbering"""
        col = {p.id: hash(('i', shash(z))) for p, z in zip(self.phis, self.inits)}
        for _ in range(3):
            col = {p.id: hash((col[p.id], shash(n, col))) for p, n in zip(self.phis, self.nexts)}
        return col

    def wrap(self, term):
        """value of `term` when the loop exits"""
        d = self.d
        if d not in term.fv:
            return term
        ev = self.ev
        if is_bool(term):
            pos = term
            while pos.op == 'B':
                pos = pos.a[1]
            if pos is FALSE:
                return bnot(self.wrap(bnot(term)))
            return atom(self._wrap(term))
        if term.op in ('adt', 'enum', 'arr'):
            a = [self.wrap(x) for x in term.a]
            if term.op == 'enum' and a and a[0].op == 'loopres':
                T.ENUMN[a[0].id] = len(term.k[1])
            return mk(term.op, term.k, *a)
        if term.op == 'ref':
            return mk('ref', term.k, *[self.wrap(x) for x in term.a])
        if term.op == 'ite' and d not in term.a[0].fv:
            return ite(term.a[0], self.wrap(term.a[1]), self.wrap(term.a[2]))
        return self._wrap(term)

    def _wrap(self, term):
        d = self.d
        if self.trip is not None and not any(p.id in _nodeset(term) for p in self.phis):
            r = T.subst(term, {self.it.id: self.trip, '__d': (d,)})
            if d not in r.fv:
                return r
        cone, todo = [], [term, self.cont]
        ids = {p.id: i for i, p in enumerate(self.phis)}
        seen = set()
        while todo:
            x = todo.pop(0)
            ns = _nodeset(x)
            for pid in ids:
                if pid in ns and pid not in seen:
                    seen.add(pid)
                    todo.append(self.nexts[ids[pid]])
        col = self.colors()
        cone = sorted(seen, key=lambda p: (col[p], ids[p]))
        m = {pid: mk('phi', (d, 'c%d' % j)) for j, pid in enumerate(cone)}
        for pid in cone:
            if pid in T.ENUMN:
                T.ENUMN[m[pid].id] = T.ENUMN[pid]
        m['__d'] = (d,)
        memo = {}
        S = lambda x: T.subst(x, m, memo)
        r = mk('loopres', (d, len(cone), len(cone)), S(term), S(self.cont),
               *([S(self.nexts[ids[p]]) for p in cone] + [self.inits[ids[p]] for p in cone]))
        self.wraps[r.id] = (r, term)
        return r

    def unwrap(self, n):
        """a value after the loop in terms of the loop's state in its last, partial iteration"""
        return T.subst(n, dict({i: t for i, (r, t) in self.wraps.items()}, __d=()))

    def exit_states(self, c, st):
        ex = [e for e in self.exits if e[1] is not FALSE]
        out = []
        left = TRUE
        for j, (t, ec, es) in enumerate(ex):
            if len(ex) == 1:
                cj = TRUE
            elif j == len(ex) - 1:
                cj = left
            else:
                w = self.wrap(restrict(ec, bnot(self.cont)))
                cj = band(left, w)
                left = band(left, bnot(w))
            s2 = {}
            for k, v in es.items():
                s2[k] = self.wrap(v)
            if cj is FALSE:
                continue
            out.append((t, band(c, cj), s2))
        return out


_ns = {}


def _nodeset(n):
    r = _ns.get(n.id)
    if r is None:
        out = {n.id}
        st = [n]
        while st:
            x = st.pop()
            for y in x.a:
                if y.id not in out:
                    out.add(y.id)
                    st.append(y)
        r = frozenset(out)
        if len(_ns) > 20000:
            _ns.clear()
        _ns[n.id] = r
    return r


def shash(n, col=None, memo=None):
    """structure hash, independent of node numbering and of operand order of commutative operators"""
    if memo is None:
        memo = {}
    r = memo.get(n.id)
    if r is not None:
        return r
    if col and n.id in col:
        r = hash(('c', col[n.id]))
    elif n.op == 'B':
        r = hash(('B',) + tuple(sorted(shash(x, col, memo) for x in T.bool_atoms(n).values())))
    elif n.op == 'phi':
        r = hash(('phi', n.k[0])) if not isinstance(n.k[1], str) else hash(n.k)
    elif n.op in ('add', 'mul', 'eq', 'min', 'max'):
        r = hash((n.op,) + tuple(sorted(shash(x, col, memo) for x in n.a)))
    else:
        r = hash((n.op, n.k) + tuple(shash(x, col, memo) for x in n.a))
    memo[n.id] = r
    return r
