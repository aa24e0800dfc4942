"""Index over the MIR dump: bodies, types, impls, trait dispatch, control-flow facts."""
import json, os, re
import build
import canon


def ty(j):
    """JSON type -> hashable tuple"""
    k = j['k']
    if k == 'prim':
        return ('prim', j['n'])
    if k == 'adt':
        return ('adt', j['n'], tuple(ty(x) for x in j['a'] if x['k'] != 'constarg'))
    if k == 'array':
        return ('array', ty(j['e']), j['len'])
    if k == 'slice':
        return ('slice', ty(j['e']))
    if k in ('ref', 'ptr'):
        return (k, ty(j['e']), j['m'])
    if k == 'tuple':
        return ('tuple', tuple(ty(x) for x in j['a']))
    if k == 'fndef':
        return ('fndef', j['n'], tuple(ty(x) for x in j['a'] if x['k'] != 'constarg'))
    if k == 'closure':
        return ('closure', j['n'])
    if k == 'dyn':
        return ('dyn', tuple(j['t']), j['s'])
    if k == 'param':
        return ('param', j['n'])
    return ('other', j.get('s', k))


def tsub(t, env):
    if not env:
        return t
    k = t[0]
    if k == 'param':
        return env.get(t[1], t)
    if k == 'adt':
        return ('adt', t[1], tuple(tsub(x, env) for x in t[2]))
    if k == 'array':
        return ('array', tsub(t[1], env), t[2])
    if k == 'slice':
        return ('slice', tsub(t[1], env))
    if k in ('ref', 'ptr'):
        return (k, tsub(t[1], env), t[2])
    if k == 'tuple':
        return ('tuple', tuple(tsub(x, env) for x in t[1]))
    if k == 'fndef':
        return ('fndef', t[1], tuple(tsub(x, env) for x in t[2]))
    return t


def unify(p, t, env):
    if p[0] == 'param':
        if p[1] in env:
            return env[p[1]] == t
        env[p[1]] = t
        return True
    if p[0] != t[0]:
        return False
    k = p[0]
    if k == 'adt':
        return p[1] == t[1] and len(p[2]) == len(t[2]) and all(unify(a, b, env) for a, b in zip(p[2], t[2]))
    if k == 'array':
        return p[2] == t[2] and unify(p[1], t[1], env)
    if k == 'slice':
        return unify(p[1], t[1], env)
    if k in ('ref', 'ptr'):
        return p[2] == t[2] and unify(p[1], t[1], env)
    if k == 'tuple':
        return len(p[1]) == len(t[1]) and all(unify(a, b, env) for a, b in zip(p[1], t[1]))
    if k == 'dyn':
        return p[1] == t[1]
    return p == t


def has_param(t):
    if t[0] in ('param', 'other'):
        return True
    return any(has_param(x) for x in t if isinstance(x, tuple) and x and isinstance(x[0], str)) or \
        any(has_param(y) for x in t if isinstance(x, tuple) and x and isinstance(x[0], tuple) for y in x)


class Body(object):
    def __init__(self, j):
        self.j = j
        self.path = j['path']
        self.argc = j['argc']
        self.blocks = j['blocks']
        self.locals = [ty(x) for x in j['locals']]
        self.gparams = j.get('gparams', [])
        self.closure = j.get('closure', False)
        self.span = j['span']
        self.name = j.get('name', '')
        self.trait = j.get('trait')
        self.in_trait = j.get('in_trait')
        self.selfty = ty(j['selfty']) if j.get('selfty') else None
        self.pub = j.get('pub', False)
        self.names = j['names']
        self._cfg = None

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t['t']
        if k in ('goto', 'drop', 'assert'):
            return [t['to']]
        if k == 'call':
            return [t['to']] if t['to'] is not None else []
        if k == 'switch':
            out = []
            for _, x in t['v']:
                if x not in out:
                    out.append(x)
            if t['o'] not in out:
                out.append(t['o'])
            return out
        return []

    def cfg(self):
        """(set of live blocks reachable from entry that can reach return, rpo list, loops)"""
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg

    def argnames(self):
        out = {}
        for n, p in self.names:
            if not p['p'] and 1 <= p['l'] <= self.argc:
                out.setdefault(p['l'], n)
        return [out.get(i, 'arg%d' % i) for i in range(1, self.argc + 1)]


class Cfg(object):
    def __init__(self, body):
        self.body = body
        n = len(body.blocks)
        # reachable
        order, seen = [], set()
        stack = [(0, iter(body.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(body.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.reach = seen
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        self.preds = {b: [] for b in seen}
        for b in seen:
            for s in body.succs(b):
                self.preds[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.preds[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.pos[x] > self.pos[y]:
                            x = idom[x]
                        while self.pos[y] > self.pos[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        # natural loops, merged per header
        self.loops = {}
        for b in self.rpo:
            for s in body.succs(b):
                if self.dominates(s, b):
                    blk = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in blk:
                            blk.add(x)
                            st += self.preds[x]
        # reducibility check
        for b in self.rpo:
            for s in body.succs(b):
                if self.pos[s] <= self.pos[b] and s not in self.loops:
                    raise Exception('irreducible flow in ' + body.path)

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


PRIMS_F = ('f32', 'f64')
PRIMS_I = ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize')
BITS = {'i8': 8, 'u8': 8, 'i16': 16, 'u16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64, 'isize': 64, 'usize': 64, 'i128': 128, 'u128': 128, 'char': 32, 'bool': 1}


class Model(object):
    def __init__(self, d=None):
        d = d or build.dump()
        self.dir = d
        with open(os.path.join(d, 'pt.json')) as f:
            j = canon.canonical(f.read())
        self.j = j
        self.example = None
        ex = [x for x in os.listdir(d) if x != 'pt.json' and x.endswith('.json')]
        self.examples = [os.path.join(d, x) for x in ex]
        self.bodies = {}
        for b in j['bodies']:
            B = Body(b)
            self.bodies[B.path] = B
        self.adts = {a['n']: a for a in j['adts']}
        for a in j['adts']:
            for v in a['v']:
                v['t'] = [ty(f['ty']) for f in v['f']]
        self.impls = j['impls']
        for i in self.impls:
            i['selft'] = ty(i['self'])
            i['ta'] = tuple(ty(x) for x in i.get('trait_args', []) if x['k'] != 'constarg')
            i['im'] = {x['n']: x['p'] for x in i['items']}
        self.traits = {t['n']: t for t in j['traits']}
        self.consts = {c['n']: c for c in j['consts']}

    # -- lookups -------------------------------------------------------------
    def find_impls(self, trait, selfty=None, targs=None):
        """[(impl, env)] of local impls of trait for the (substituted) self type"""
        out = []
        for i in self.impls:
            if i.get('trait') != trait:
                continue
            env = {}
            if selfty is not None and not unify(i['selft'], selfty, env):
                continue
            if targs is not None and len(i['ta']) > 1 and len(targs) > 1:
                if not all(unify(a, b, env) for a, b in zip(i['ta'][1:], targs[1:]) if a[0] != 'other' and b[0] != 'other'):
                    continue
            out.append((i, env))
        return out

    def trait_default(self, trait, method):
        t = self.traits.get(trait) or next((x for n, x in self.traits.items() if n.split('::')[-1] == trait), None)
        if t:
            for it in t['items']:
                if it['n'] == method and it['default']:
                    return self.bodies.get(it['p'])
        return None

    def method(self, adt, name, trait=None):
        """body of an inherent or trait method by (last path component of) the type name"""
        out = []
        for i in self.impls:
            st = i['selft']
            if st[0] == 'adt' and (st[1] == adt or st[1].split('::')[-1] == adt):
                if trait is not None and (i.get('trait') or '').split('::')[-1] != trait:
                    continue
                if trait is None and i.get('trait'):
                    continue
                if name in i['im']:
                    out.append(self.bodies[i['im'][name]])
        return out

    def fieldty(self, t, variant, i):
        """type of a field of a type, or None when unknown"""
        k = t[0]
        if k == 'tuple':
            return t[1][i] if i < len(t[1]) else None
        if k == 'adt':
            a = self.adts.get(t[1])
            if a:
                v = a['v'][variant or 0]
                if i >= len(v['t']):
                    return None
                env = dict(zip(a['gparams'], t[2]))
                return tsub(v['t'][i], env)
            n = t[1].split('::')[-1]
            if n == 'Option':
                return t[2][0]
            if n == 'Result':
                return t[2][variant or 0] if len(t[2]) > 1 else None
            if n in ('Range', 'RangeInclusive', 'RangeFrom', 'RangeTo', 'Reverse', 'Wrapping', 'Mutex', 'RwLock', 'Cell', 'RefCell', 'PhantomData', 'ControlFlow'):
                return t[2][0] if t[2] else None
            if n == 'Box':
                return t[2][0]
        return None

    def nfields(self, t):
        """[field count per variant] for struct/enum/tuple types with a known explicit shape, else None"""
        k = t[0]
        if k == 'tuple':
            return ('struct', '()', [len(t[1])])
        if k == 'adt':
            a = self.adts.get(t[1])
            if a and not a['union']:
                return ('enum' if a['enum'] else 'struct', t[1], [len(v['f']) for v in a['v']])
            n = t[1].split('::')[-1]
            if n == 'Option':
                return ('enum', 'Option', [0, 1])
            if n == 'Result':
                return ('enum', 'Result', [1, 1])
            if n == 'Range':
                return ('struct', 'Range', [2])
            if n == 'RangeInclusive':
                return ('struct', 'RangeInclusive', [3])
            if n == 'Ordering' and 'cmp' in t[1]:
                return ('enum', 'Ordering', [0, 0, 0])
            if n == 'Mutex':
                return ('struct', 'Mutex', [1])
            if n == 'ControlFlow':
                return ('enum', 'ControlFlow', [1, 1])
        return None
