"""What every property check is written with: anchors, typed views of symbolic values, obligations, reports."""
import json
import os
import sys
import time
import build
import model
import eval as E
import terms as T
import norm as N
from terms import mk, num, band, bor, bnot, bite, TRUE, FALSE

VERIF = build.VERIF


class Missing(Exception):
    """an anchor of the property is not where it must be: the check cannot pass"""


def n_(x):
    if isinstance(x, V):
        return x.n
    if isinstance(x, (int,)):
        return num(x)
    if isinstance(x, float):
        return T.fconst(repr(x))
    return x


class V(object):
    """a node with its type; arithmetic on scalars, fields by name, elements by index"""
    __slots__ = ('n', 't', 'ev')

    def __init__(self, n, t=model.ty({'k': 'prim', 'n': 'f32'}) if False else ('prim', 'f32'), ev=None):
        self.n, self.t, self.ev = n_(n), t, ev

    def __getattr__(self, f):
        if f.startswith('__'):
            raise AttributeError(f)
        return self.field(f)

    def base(self):
        t = self.t
        for _ in range(6):
            if E.is_ptr(t):
                t = E.pointee(t)
            elif E.is_box(t):
                t = t[2][0]
            else:
                break
        return t

    def field(self, f, variant=0):
        t = self.base()
        M = self.ev.M
        if t[0] == 'tuple':
            i = int(f)
            return V(self.ev.proj_f(self.ev.expand(t, self.n), t, 0, i), t[1][i], self.ev)
        a = M.adts.get(t[1]) if t[0] == 'adt' else None
        if a is None:
            if t[0] == 'adt' and isinstance(f, int):
                return V(self.ev.proj_f(self.ev.expand(t, self.n), t, variant, f), self.ev.fieldty(t, variant, f), self.ev)
            raise Missing('no field %s: %r is not a known aggregate' % (f, t))
        names = [x['n'] for x in a['v'][variant]['f']]
        if isinstance(f, int):
            i = f
        elif f in names:
            i = names.index(f)
        else:
            raise Missing('type %s has no field `%s` (fields: %s)' % (t[1], f, ', '.join(names)))
        ft = M.fieldty(t, variant, i)
        x = self.ev.expand(t, self.n)
        r = self.ev.proj_f(x, t, variant, i)
        if r.op == 'ref' and r.k[0][0] == 'H' and not r.k[1]:
            r = r.a[0]
        if E.is_box(ft):
            r = self.ev.expand(ft, r)
            r = r.a[0] if r.op == 'adt' and r.k[0] == 'Box' else r
            return V(r, ft[2][0], self.ev)
        return V(self.ev.expand(ft, r) if not E.is_ptr(ft) else r, ft, self.ev)

    def some(self):
        """payload of an Option"""
        t = self.base()
        return V(self.n.a[1], t[2][0], self.ev)

    def isome(self):
        return T.eq(self.n.a[0], num(1))

    def __getitem__(self, i):
        if isinstance(i, int) and self.t[0] == 'tuple':
            return self.field(str(i))
        t = self.base()
        return V(self.ev.proj_i(self.n, t, n_(i)), self.ev.elemty(t) or E.UNK, self.ev)

    def len(self):
        return V(T.seq_len(self.n), ('prim', 'usize'))

    def _w(self, n):
        return V(n, self.t, self.ev)

    def __add__(self, o):
        return self._w(T.add(self.n, n_(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return self._w(T.sub(self.n, n_(o)))

    def __rsub__(self, o):
        return self._w(T.sub(n_(o), self.n))

    def __mul__(self, o):
        if isinstance(o, Vec):
            return NotImplemented
        return self._w(T.mul(self.n, n_(o)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._w(T.fdiv(self.n, n_(o)))

    def __rtruediv__(self, o):
        return self._w(T.fdiv(n_(o), self.n))

    def __neg__(self):
        return self._w(T.neg(self.n))

    def __pow__(self, k):
        r = self
        for _ in range(k - 1):
            r = r * self
        return r

    # comparisons give condition nodes
    def __lt__(self, o):
        return T.lt(self.n, n_(o))

    def __le__(self, o):
        return T.le(self.n, n_(o))

    def __gt__(self, o):
        return T.lt(n_(o), self.n)

    def __ge__(self, o):
        return T.le(n_(o), self.n)

    def eq(self, o):
        return T.eq(self.n, n_(o))

    def __repr__(self):
        return T.show(N.pretty(self.n), 6)


def S(x):
    return V(x)


def fn(name, *a):
    return V(T.fn(name, *[n_(x) for x in a]))


def ap(op, *a):
    return V(mk(op, None, *[n_(x) for x in a]))


def sqrt(x):
    return fn('sqrt', x)


def absf(x):
    return fn('abs', x)


def vmax(*a):
    return fn('max', *a)


def vmin(*a):
    return fn('min', *a)


def ite(c, x, y):
    if isinstance(x, Vec):
        return Vec([ite(c, p, q) for p, q in zip(x.c, y.c)])
    return V(T.ite(c, n_(x), n_(y)))


PI = V(T.mk('sym', 'pi'))
HALF = 0.5


class Vec(object):
    """small fixed vector of scalars"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = [x if isinstance(x, V) else V(x) for x in c]

    def __iter__(self):
        return iter(self.c)

    def __getitem__(self, i):
        return self.c[i]

    def __len__(self):
        return len(self.c)

    def _b(self, o, f):
        if isinstance(o, Vec):
            return Vec([f(p, q) for p, q in zip(self.c, o.c)])
        return Vec([f(p, o) for p in self.c])

    def __add__(self, o):
        return self._b(o, lambda p, q: p + q)

    def __sub__(self, o):
        return self._b(o, lambda p, q: p - q)

    def __mul__(self, o):
        return self._b(o, lambda p, q: p * q)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._b(o, lambda p, q: p / q)

    def __neg__(self):
        return Vec([-x for x in self.c])

    def dot(self, o):
        r = self.c[0] * o.c[0]
        for p, q in zip(self.c[1:], o.c[1:]):
            r = r + p * q
        return r

    def cross(self, o):
        a, b = self.c, o.c
        return Vec([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def len2(self):
        return self.dot(self)

    def length(self):
        return sqrt(self.len2())

    def abs(self):
        return Vec([absf(x) for x in self.c])

    def unit(self):
        return self / self.length()


def xyz(v):
    return Vec([v.x, v.y, v.z])


def xy(v):
    return Vec([v.x, v.y])


def rgb(v):
    return Vec([v.r, v.g, v.b])


class Run(object):
    def __init__(self, ck, ev, path, names, R, body, env):
        self.ck, self.ev, self.path, self.names, self.R, self.body = ck, ev, path, names, R, body
        self.env = env
        self.cond = R.cond
        self.rett = model.tsub(body.locals[0], env)

    @property
    def ret(self):
        if self.R.ret is None:
            raise Missing('%s never returns' % self.path)
        return V(self.R.ret, self.rett, self.ev)

    def argty(self, n):
        return model.tsub(self.body.locals[self.names.index(n) + 1], self.env)

    def arg(self, n):
        t = self.argty(n)
        return V(self.ev.expand(strip(t), mk('sym', n)), t, self.ev)

    def out(self, n):
        return V(self.R.out(n), strip(self.argty(n)), self.ev)


def strip(t):
    while E.is_ptr(t) and t[0] != 'boxptr':
        t = E.pointee(t)
    return t


class Ck(object):
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.M = model.Model()
        self.obl = []          # (rule, where, ok)
        self.viol = []         # (key, text)
        self.fns = set()
        self.prover = N.Prover()
        self.assumptions = []
        self.counts = {}
        self.technique = ''
        self.paths = 0

    # -- anchors
    def fn(self, adt, name, trait=None):
        l = self.M.method(adt, name, trait)
        if len(l) != 1:
            raise Missing('expected exactly one %s::%s%s, found %d' % (adt, name, ' (impl of %s)' % trait if trait else '', len(l)))
        return l[0].path

    def free(self, path):
        if path in self.M.bodies:
            return path
        c = [p for p in self.M.bodies if p.split('::')[-1] == path.split('::')[-1] and '{' not in p and '<' not in p]
        if len(c) == 1:
            return c[0]
        raise Missing('function %s not found' % path)

    def default(self, trait, name):
        b = self.M.trait_default(trait, name)
        if b is None:
            raise Missing('trait %s has no default method %s' % (trait, name))
        return b.path

    def run(self, path, *names, **kw):
        """evaluate a function on symbolic arguments called `names`"""
        env = kw.pop('env', {})
        args = kw.pop('args', None)
        body = self.M.bodies[path]
        if body.argc != len(names):
            raise Missing('%s takes %d arguments, expected %d' % (path, body.argc, len(names)))
        ev = E.Eval(self.M, E.Opts(**kw))
        R = ev.analyse(path, args=args, env=env, names=list(names))
        self.fns.add(path)
        self.fns |= set(ev.called)
        return Run(self, ev, path, list(names), R, body, env)

    # -- obligations
    def ok(self, rule, where):
        self.obl.append((rule, where, True))

    def fail(self, rule, where, msg, key=None):
        self.obl.append((rule, where, False))
        self.viol.append((key or '%s|%s' % (rule, where), '%s: in %s: %s' % (rule, where, msg)))

    def require(self, cond, rule, where, msg='', key=None):
        if cond:
            self.ok(rule, where)
        else:
            self.fail(rule, where, msg, key)
        return bool(cond)

    def same(self, rule, where, got, want, prover=None, key=None, assume=None):
        """the two values are equal for all inputs"""
        p = prover or (N.Prover(assume=assume) if assume is not None else self.prover)
        if isinstance(got, Vec) or isinstance(want, Vec):
            got, want = list(got), list(want)
        if isinstance(got, (list, tuple)):
            if len(got) != len(want):
                return self.fail(rule, where, 'different number of components', key)
            for i, (g, w) in enumerate(zip(got, want)):
                r = p.prove(n_(g), n_(w), 'component %d' % i)
                if r is not None:
                    self.fail(rule, where, r.text(), key)
                    return False
            self.ok(rule, where)
            return True
        r = p.prove(n_(got), n_(want), 'result')
        if r is not None:
            self.fail(rule, where, r.text(), key)
            return False
        self.ok(rule, where)
        return True

    def implies(self, rule, where, a, b, prover=None, key=None, what=''):
        """condition a entails condition b"""
        p = prover or self.prover
        r = p.prove(band(a, bnot(b)), FALSE, what or 'condition')
        if r is not None:
            self.fail(rule, where, (what or 'a required condition') + ' does not follow: ' + r.text(), key)
            return False
        self.ok(rule, where)
        return True

    def defined(self, rule, where, roots, assume=TRUE):
        """no quotient in the values divides by zero where `assume` holds"""
        nn = N.Norm()

        def nonzero(d):
            if d.op == 'ite':
                return bite(d.a[0], nonzero(d.a[1]), nonzero(d.a[2]))
            if d.op == 'sqrt' or d.op == 'fn' and d.k == 'sqrt':
                return nonzero(d.a[0])
            if d.op == 'mul':
                return band(nonzero(d.a[0]), nonzero(d.a[1]))
            if d.op == 'fdiv':
                return nonzero(d.a[0])
            c = nn.canon(d)
            num_, den = nn.rat(c)
            if num_ and all(k > 0 and all(e % 2 == 0 for _, e in m) for m, k in num_.items()):
                return bor(*[band(*[bnot(T.eq(nn.byid[i], num(0))) for i, _ in m]) for m in num_])
            return bnot(T.eq(d, num(0)))
        seen = set()
        st = [(n_(r), TRUE) for r in roots]
        n = 0
        while st:
            x, c = st.pop()
            if (x.id, c.id) in seen or T.is_bool(x):
                continue
            seen.add((x.id, c.id))
            if x.op == 'ite':
                st += [(x.a[1], band(c, x.a[0])), (x.a[2], band(c, bnot(x.a[0])))]
                continue
            if x.op == 'fdiv':
                n += 1
                if not self.implies(rule, where, band(assume, c), nonzero(x.a[1]), what='a divisor is not zero'):
                    return False
            st += [(y, c) for y in x.a]
        return n

    def floor(self, name, got, least):
        """the analysis looked at no less than it must"""
        self.counts[name] = got
        if got < least:
            self.fail('coverage-floor', name, 'only %d found, at least %d expected' % (got, least))

    def count(self, name, n):
        self.counts[name] = n

    # -- report
    def finish(self):
        known = load_findings().get(self.pid, [])
        unknown, hit = [], []
        for k, t in self.viol:
            if k in known:
                hit.append((k, t))
            else:
                unknown.append((k, t))
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
        d = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': self.technique,
                'obligations': len(self.obl), 'discharged': sum(1 for o in self.obl if o[2]),
                'functions_analysed': sorted(self.fns),
                'rules': sorted({o[0] for o in self.obl}),
                'counts': self.counts,
                'samples': [{'rule': r, 'where': w, 'holds': o} for r, w, o in self.obl[:40]],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': [{'key': k, 'text': t} for k, t in self.viol],
        }
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(d, f, indent=1)
        seen = set()
        for k, t in hit:
            if k not in seen:
                seen.add(k)
                print('KNOWN-FINDING: property=%s %s' % (self.pid, t[:300].replace('\n', ' ')))
        rp = os.path.join(ev, 'replay', self.pid + '.txt')
        if unknown:
            with open(rp, 'w') as f:
                for k, t in unknown:
                    f.write('key: %s\n%s\n\n' % (k, t))
            for k, t in unknown[:10]:
                print('  ' + t[:1200])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if os.path.exists(rp):
            os.remove(rp)
        print('%s: %d obligations over %d functions hold (%.1fs)' % (self.pid, len(self.obl), len(self.fns), time.time() - self.t0))
        return 0


def load_findings():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: '):
                pid, _, rest = l[len('finding: property='):].partition(' ')
                k = rest.split(' :: ')[0].strip()
                out.setdefault(pid, []).append(k)
    return out
