"""Meaning of the standard-library calls that occur in (refactorings of) the code under analysis.

Anything not listed becomes an uninterpreted function of its argument values.
"""
from fractions import Fraction
import terms as T
from terms import (mk, num, TRUE, FALSE, UNDEF, ONE, ZERO, band, bor, bnot, bite, ite, restrict, atom, is_bool,
                   lt, le, eq, add, sub, mul, neg, fdiv, idiv, irem, fn, adt, tup, arr, enum, some, none)
from model import PRIMS_F, PRIMS_I

UNK = ('unk',)
NI = NotImplemented


def last(n):
    return n.split('::')[-1]


def mapnum(x, f):
    if x.op == 'ite':
        return ite(x.a[0], mapnum(x.a[1], f), mapnum(x.a[2], f))
    if x.op == 'num':
        return f(x)
    return None


def opt(c, x):
    """Option: Some(x) when c"""
    return enum('Option', (0, 1), ite(c, ONE, ZERO), [x])


def is_some(o):
    return eq(o.a[0], ONE)


def ordering(a, b):
    return enum('Ordering', (0, 0, 0), ite(lt(a, b), ZERO, ite(lt(b, a), num(2), ONE)), [])


def powi(x, n):
    if n.op == 'num' and 0 <= n.k <= 6:
        r = ONE
        for _ in range(n.k):
            r = mul(r, x)
        return r
    return mk('powi', None, x, n)


# functions of numbers that are NaN outside of their domain
PARTIAL = ('sqrt', 'asin', 'acos', 'ln', 'log', 'log2', 'log10', 'powf', 'acosh', 'atanh', 'ln_1p')
FLOAT1 = {'sqrt': 'sqrt', 'floor': 'floor', 'ceil': 'ceil', 'round': 'round', 'trunc': 'trunc', 'abs': 'abs', 'sin': 'sin', 'cos': 'cos',
          'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'exp': 'exp', 'ln': 'ln', 'log2': 'log2', 'log10': 'log10',
          'exp2': 'exp2', 'cbrt': 'cbrt'}


def elem_of(t):
    return t


def builtin(ev, name, f, ra, args, atys, dty, st, env):
    from eval import pointee, is_ptr, is_box
    m = f.get('m') or last(name)
    L = last(name)
    A = args

    def val(a):
        n = 0
        while a.op in ('ref', 'boxat') or a.op == 'ite' and (a.a[1].op == 'ref' or a.a[2].op == 'ref'):
            a = ev.read(st, a) if a.op != 'boxat' else ev.read(st, a.a[0])
            n += 1
            if n > 6:
                break
        return a
    sty = None
    if f.get('self'):
        from model import ty as jty, tsub
        sty = tsub(jty(f['self']), env)

    # ------------------------------------------------ diverging
    if L in ('begin_panic', 'panic_fmt', 'panic', 'panic_display', 'unreachable_display', 'panic_str', 'assert_failed', 'exit', 'abort', 'panic_nounwind', 'panic_explicit', 'assert_failed_inner', 'expect_failed', 'unwrap_failed', 'begin_panic_fmt', 'resume_unwind', 'panic_const_div_by_zero'):
        return None

    # ------------------------------------------------ scalars
    if '<impl f32>' in name or '<impl f64>' in name:
        x = val(A[0])
        if L in PARTIAL and x.op != 'num':
            ev.oblig.append(('domain', ev.stack[-1] if ev.stack else '', ev.pc, T.TRUE, ev.curspan, (mk('op', L), x), ev.depth))
        if L in FLOAT1:
            return fn(FLOAT1[L], x), st
        if L in ('max', 'min'):
            return fn(L, x, val(A[1])), st
        if L == 'clamp':
            return fn('min', fn('max', x, val(A[1])), val(A[2])), st
        if L == 'mul_add':
            return add(mul(x, val(A[1])), val(A[2])), st
        if L == 'powi':
            return powi(x, val(A[1])), st
        if L == 'powf':
            y = val(A[1])
            if y.op == 'num' and isinstance(y.k, int) and 0 <= y.k <= 6:
                return powi(x, y), st
            if y.op == 'num' and y.k == Fraction(1, 2):
                return fn('sqrt', x), st
            return mk('powf', None, x, y), st
        if L == 'hypot':
            return fn('sqrt', add(mul(x, x), mul(val(A[1]), val(A[1])))), st
        if L == 'recip':
            return fdiv(ONE, x), st
        if L == 'to_radians':
            return mul(x, mul(num(Fraction(1, 180)), T.PI_ATOM[0])), st
        if L == 'to_degrees':
            return fdiv(mul(x, num(180)), T.PI_ATOM[0]), st
        if L == 'atan2':
            return mk('atan2', None, x, val(A[1])), st
        if L == 'log':
            return fdiv(mk('ln', None, x), mk('ln', None, val(A[1]))), st
        if L == 'sin_cos':
            return tup(fn('sin', x), fn('cos', x)), st
        if L == 'signum':
            return mk('signum', None, x), st
        if L == 'copysign':
            return mk('copysign', None, x, val(A[1])), st
        if L == 'is_nan':
            if x.op in ('num', 'inf', 'ninf'):
                return FALSE, st
            return atom(mk('isnan', None, x)), st
        if L == 'is_infinite':
            if x.op == 'num':
                return FALSE, st
            return atom(mk('isinf', None, x)), st
        if L == 'is_finite':
            return band(bnot(atom(mk('isnan', None, x))), bnot(atom(mk('isinf', None, x)))), st
        if L == 'is_sign_negative':
            return atom(mk('signbit', None, x)), st
        if L == 'is_sign_positive':
            return bnot(atom(mk('signbit', None, x))), st
        if L == 'to_bits':
            return mk('bits', 'f32' if '<impl f32>' in name else 'f64', x), st
        if L == 'from_bits':
            y = x
            if y.op == 'bits':
                return y.a[0], st
            return mk('bits', 'u32' if '<impl f32>' in name else 'u64', x), st
        if L in ('total_cmp',):
            return ordering(x, val(A[1])), st
        return NI
    if 'core::num::<impl' in name or name.startswith('core::num::'):
        x = val(A[0]) if A else None
        if L == 'abs':
            return fn('abs', x), st
        if L == 'pow':
            return powi(x, val(A[1])), st
        if L in ('unsigned_abs',):
            return fn('abs', x), st
        if L == 'rem_euclid':
            return mk('mod', None, x, val(A[1])), st
        if L == 'div_euclid':
            return mk('ediv', None, x, val(A[1])), st
        if L == 'min_value':
            return NI
        return NI
    if L in ('min', 'max') and (name.startswith('std::cmp') or name.startswith('core::cmp')) or (m in ('min', 'max') and (f.get('trait') or '').endswith('cmp::Ord')):
        return fn(m if m in ('min', 'max') else L, val(A[0]), val(A[1])), st
    if m == 'clamp' and (f.get('trait') or '').endswith('Ord'):
        return fn('min', fn('max', val(A[0]), val(A[1])), val(A[2])), st

    trait = f.get('trait') or ''
    # ------------------------------------------------ operators on primitives
    if trait.startswith('std::ops::') or trait.startswith('core::ops::'):
        op = last(trait)
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Neg', 'Not', 'BitAnd', 'BitOr', 'BitXor') and not op.endswith('Assign'):
            t = _prim(sty, atys)
            if t is None and not _numeric_unknown(sty):
                return NI
            x = val(A[0])
            if op == 'Neg':
                return neg(x), st
            if op == 'Not':
                return (bnot(x) if is_bool(x) else mk('not', None, x)), st
            r = ev.binop(op, x, val(A[1]), t or ('prim', 'f32'))
            return r, st
        if op.endswith('Assign') and op[:-6] in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor'):
            t = _prim(sty, atys)
            if t is None and not _numeric_unknown(sty):
                return NI
            st = dict(st)
            ev.write(st, A[0], ev.binop(op[:-6], ev.read(st, A[0]), val(A[1]), t or ('prim', 'f32')))
            return tup(), st
        if op in ('Fn', 'FnMut', 'FnOnce'):
            n = None
            tv = A[1]
            fargs = list(tv.a) if tv.op == 'adt' else [tv]
            return ev.apply(A[0], fargs, st, dty)
        if op in ('Deref', 'DerefMut'):
            t = sty or UNK
            if is_box(t) or t[0] == 'adt' and last(t[1]) in ('Box',):
                v = A[0]
                w = ev.rawread(st, v, UNK) if v.op == 'ref' else v
                return ev.ext(v, ('f', 0, 0)), st
            if t[0] == 'adt' and last(t[1]) in ('Arc', 'Rc', 'MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'Ref', 'RefMut'):
                v = ev.read(st, A[0], t)
                if v.op not in ('ref', 'ite'):
                    v = mk('ref', (('H', t[2][0] if t[2] else UNK), ()), v)
                return v, st
            if t[0] == 'ref':
                return ev.read(st, A[0], t), st
            return A[0], st  # Vec -> slice, String -> str
        if op in ('Index', 'IndexMut'):
            i = A[1]
            base = A[0]
            if i.op == 'adt' and i.k[0] in ('Range', 'std::ops::RangeFrom', 'std::ops::RangeTo', 'std::ops::RangeFull', 'RangeInclusive') or atys[1][0] == 'adt' and last(atys[1][1]).startswith('Range'):
                seq = ev.read(st, base)
                if seq.op == 'adt' and seq.k[0] == 'Box':
                    seq = seq.a[0]
                n = ev.length(st, base)
                kind = last(atys[1][1]) if atys[1][0] == 'adt' else 'Range'
                lo, hi = ZERO, n
                if kind == 'RangeFrom':
                    lo = i.a[0]
                elif kind == 'RangeTo':
                    hi = i.a[0]
                elif kind == 'Range':
                    lo, hi = i.a[0], i.a[1]
                elif kind == 'RangeInclusive':
                    lo, hi = i.a[0], add(i.a[1], ONE)
                elif kind != 'RangeFull':
                    return NI
                ev.oblige('slice', band(le(lo, hi), le(hi, n)), ev.pc, [lo, hi, n])
                et = ev.elemty(ev.reftype(base))
                if m == 'index_mut':
                    ev.notes.add('mutable subslice')
                v = subseq(seq, lo, hi)
                return mk('ref', (('V', ('slice', et)), ()), v), st
            n = ev.length(st, base)
            iv = val(i)
            ev.oblige('bounds', lt(iv, n), ev.pc, [n, iv])
            t = ev.reftype(base)
            if is_box(t):
                base = ev.ext(base, ('f', 0, 0))
            return ev.ext(base, 'i', iv), st
        if op == 'Try':
            v = val(A[0])
            if v.op != 'enum':
                v = ev.expand(sty or atys[0], v)
            if v.op == 'enum' and v.k[0] == 'Option':
                return enum('ControlFlow', (1, 1), ite(is_some(v), ZERO, ONE), [v.a[1], none()]), st
            if v.op == 'enum' and v.k[0] == 'Result':
                return enum('ControlFlow', (1, 1), v.a[0], [v.a[1], enum('Result', (1, 1), ONE, [UNDEF, v.a[2]])]), st
            return NI
        if op == 'FromResidual':
            v = A[0]
            if v.op == 'enum' and v.k[0] == 'Option':
                return none(), st
            if v.op == 'enum':
                return v, st
            return NI
        if op == 'Drop':
            return tup(), st
    if trait.endswith('cmp::PartialEq'):
        r = ev.equal(ev.export(st, val(A[0])), ev.export(st, val(A[1])))
        return (r if m == 'eq' else bnot(r)), st
    if trait.endswith('cmp::PartialOrd') or trait.endswith('cmp::Ord'):
        x, y = val(A[0]), val(A[1])
        if x.op in ('adt', 'enum') or y.op in ('adt', 'enum'):
            return NI
        if m == 'lt':
            return lt(x, y), st
        if m == 'gt':
            return lt(y, x), st
        if m == 'le':
            return le(x, y), st
        if m == 'ge':
            return le(y, x), st
        if m == 'cmp':
            return ordering(x, y), st
        if m == 'partial_cmp':
            return some(ordering(x, y)), st
        if m in ('max', 'min'):
            return fn(m, x, y), st
        return NI
    if name.startswith('std::cmp::Ordering') or 'cmp::Ordering::' in name:
        x = val(A[0])
        d = x.a[0] if x.op == 'enum' else None
        if d is None:
            return NI
        if L == 'reverse':
            r = mapnum(d, lambda q: num(2 - q.k))
            return (enum('Ordering', (0, 0, 0), r if r is not None else sub(num(2), d), []), st)
        if L in ('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne'):
            e = lambda k: eq(d, num(k))
            return {'is_lt': e(0), 'is_le': bnot(e(2)), 'is_gt': e(2), 'is_ge': bnot(e(0)), 'is_eq': e(1), 'is_ne': bnot(e(1))}[L], st
        if L == 'then':
            y = val(A[1])
            return enum('Ordering', (0, 0, 0), ite(eq(d, ONE), y.a[0], d), []), st
        return NI
    if trait.endswith('clone::Clone') or name.endswith('as std::clone::Clone>::clone'):
        if m == 'clone':
            t = sty or pointee(atys[0])
            v = ev.read(st, A[0], t)
            if t[0] == 'adt' and last(t[1]) in ('Option', 'Arc', 'Rc', 'Vec', 'String', 'Box', 'Range') or t[0] in ('prim', 'array', 'tuple', 'ref', 'closure') or v.op in ('num',):
                return v, st
            if t[0] in ('param', 'other', 'unk'):
                return v, st
            return v, st
        if m == 'clone_from':
            st = dict(st)
            ev.write(st, A[0], val(A[1]))
            return tup(), st
    if trait.endswith('borrow::ToOwned') and m == 'to_owned':
        return val(A[0]), st
    if trait.endswith('default::Default') and m == 'default':
        r = default(ev, sty or dty)
        if r is not None:
            return r, st
        return NI
    if trait.endswith('convert::From') and m == 'from' or trait.endswith('convert::Into') and m == 'into':
        src = atys[0]
        dst = dty
        if src == dst:
            return A[0], st
        if src[0] == 'prim' and dst[0] == 'prim':
            from eval import intcast
            if src[1] in PRIMS_I and dst[1] in PRIMS_I:
                return intcast(val(A[0]), src[1], dst[1]), st
            if src[1] == 'bool':
                return ite(A[0], ONE, ZERO), st
            return A[0], st
        if m == 'into':
            r = ev.trait_call('std::convert::From', 'from', dst, {'n': 'std::convert::From::from', 'm': 'from', 'a': [], 'trait': 'std::convert::From'}, A, atys, dty, st, env) if dst[0] == 'adt' else NI
            if r is NI and dst[0] == 'adt':
                for i, e in ev.M.find_impls('std::convert::From', dst):
                    if len(i['ta']) > 1 and i['ta'][1] == src and 'from' in i['im']:
                        return ev.call_body(ev.M.bodies[i['im']['from']], None, A, atys, dty, st, f, dict(e))
            return r
        if dst[0] == 'adt' and last(dst[1]) in ('Box', 'Arc', 'Rc'):
            return mkbox(ev, dst, A[0], atys[0]), st
        return NI
    if trait.endswith('AsRef') or trait.endswith('Borrow') or trait.endswith('AsMut') or trait.endswith('BorrowMut'):
        return A[0], st

    # ------------------------------------------------ boxes
    tail = '::'.join(name.split('::')[-2:])
    if L == 'new' and ('boxed::Box' in name or 'sync::Arc' in name or 'rc::Rc' in name):
        return mkbox(ev, dty, A[0], atys[0]), st
    if L == 'new' and ('sync::Mutex' in name or 'cell::RefCell' in name or 'cell::Cell' in name):
        return adt('Mutex', [A[0]]), st
    if L == 'lock' and 'Mutex' in name or L in ('read', 'write') and 'RwLock' in name:
        g = ev.ext(A[0], ('f', 0, 0))
        return enum('Result', (1, 1), mk_lockok(), [g, UNDEF]), st
    if L == 'get_mut' and 'Mutex' in name:
        return enum('Result', (1, 1), ZERO, [ev.ext(A[0], ('f', 0, 0)), UNDEF]), st
    if L == 'into_inner' and 'Mutex' in name:
        v = A[0]
        return enum('Result', (1, 1), ZERO, [ev.proj_f(v, atys[0], 0, 0), UNDEF]), st
    if L == 'get_mut' and ('Arc' in name or 'Rc' in name):
        v = ev.read(st, A[0], pointee(atys[0]))
        if v.op not in ('ref', 'ite'):
            v = mk('ref', (('H', UNK), ()), v)
        return enum('Option', (0, 1), ite(atom(mk('unique', None, ev.export(st, v))), ONE, ZERO), [v]), st
    if L == 'ptr_eq':
        return ev.equal(val(A[0]), val(A[1])), st
    if name.startswith('std::mem::') or name.startswith('core::mem::'):
        if L == 'swap':
            st = dict(st)
            x, y = ev.read(st, A[0]), ev.read(st, A[1])
            ev.write(st, A[0], y)
            ev.write(st, A[1], x)
            return tup(), st
        if L == 'replace':
            st = dict(st)
            x = ev.read(st, A[0])
            ev.write(st, A[0], A[1])
            return x, st
        if L == 'take':
            st = dict(st)
            x = ev.read(st, A[0])
            d = default(ev, dty)
            if d is None:
                return NI
            ev.write(st, A[0], d)
            return x, st
        if L in ('drop', 'forget'):
            return tup(), st
        return NI
    if L == 'must_use':
        return A[0], st
    if L in ('black_box', 'identity'):
        return A[0], st

    # ------------------------------------------------ Option / Result
    if 'option::Option::<' in name or 'result::Result::<' in name:
        r = option_method(ev, name, L, A, atys, dty, st, val)
        if r is not NI:
            return r
    if name.endswith('Option::Some'):
        return some(A[0]), st

    # ------------------------------------------------ vectors and slices
    if 'vec::Vec' in name or '[T]>' in name or 'slice::' in name or 'vec::from_elem' in name:
        r = vec_method(ev, name, L, A, atys, dty, st, val)
        if r is not NI:
            return r
    # ------------------------------------------------ iterators
    if trait.endswith('iter::IntoIterator') and m == 'into_iter':
        return into_iter(ev, A[0], sty or atys[0], st), st
    if trait.endswith('iter::Iterator') or trait.endswith('DoubleEndedIterator') or trait.endswith('ExactSizeIterator'):
        r = iter_method(ev, m, A, atys, dty, st, val, sty)
        if r is not NI:
            return r
    if 'RangeInclusive' in name and L == 'new':
        return adt('RangeInclusive', [A[0], A[1], FALSE]), st
    if L in ('contains',) and 'Range' in name:
        r = val(A[0])
        x = val(A[1])
        if r.op == 'adt' and r.k[0] == 'Range':
            return band(le(r.a[0], x), lt(x, r.a[1])), st
        if r.op == 'adt' and r.k[0] == 'RangeInclusive':
            return band(le(r.a[0], x), le(x, r.a[1])), st
    if name.endswith('bool>::then') or name.endswith('bool>::then_some'):
        c = A[0]
        if L == 'then_some':
            return opt(c, A[1]), st
        v, st = cond_apply(ev, c, st, lambda s: ev.apply(A[1], [], s))
        return opt(c, v), st
    if L in ('_eprint', '_print'):
        return tup(), st
    return NI


_lockok = ZERO


def mk_lockok():
    return ZERO


def _numeric_unknown(t):
    return t is not None and t[0] in ('param', 'other')


def _prim(sty, atys):
    t = sty
    if t is not None and t[0] == 'ref':
        t = t[1]
    if t is not None and t[0] == 'prim':
        return t
    return None


def mkbox(ev, dty, v, vt):
    from eval import is_box
    if is_box(dty):
        return adt('Box', [v])
    return mk('ref', (('V', vt), ()), v)


def default(ev, t):
    k = t[0]
    if k == 'prim':
        if t[1] == 'bool':
            return FALSE
        return ZERO
    if k == 'tuple':
        xs = [default(ev, x) for x in t[1]]
        return None if any(x is None for x in xs) else tup(*xs)
    if k == 'array' and isinstance(t[2], int):
        x = default(ev, t[1])
        if x is None:
            return None
        return arr([x] * t[2]) if t[2] <= 16 else mk('repeat', None, x, num(t[2]))
    if k == 'adt':
        n = last(t[1])
        if n == 'Option':
            return none()
        if n == 'Vec':
            return arr([])
        if n == 'String':
            return mk('str', '')
        for i, e in ev.M.find_impls('std::default::Default', t):
            p = i['im'].get('default')
            if p in ev.M.bodies:
                pc = ev.pc
                r = ev.call_body(ev.M.bodies[p], None, [], [], t, {}, {}, dict(e))
                if r is None:
                    return None
                return r[0]
    if k in ('param', 'other'):
        return ZERO
    return None


def cond_apply(ev, c, st, thunk):
    """run thunk(st) only where c holds; merge the state with the unchanged one elsewhere"""
    pc = ev.pc
    cc = band(pc, c)
    if cc is FALSE:
        return UNDEF, st
    ev.pc = cc
    r = thunk(dict(st))
    if r is None:
        ev.pc = band(pc, bnot(c))
        return UNDEF, st
    v, s2 = r
    c2 = ev.pc
    rest = band(pc, bnot(c))
    if rest is FALSE:
        return v, s2
    ev.pc, s = ev.merge(c2, s2, rest, st)
    return v, s


def option_method(ev, name, L, A, atys, dty, st, val):
    from eval import pointee, is_ptr
    isopt = 'option::Option::<' in name
    byref = atys and atys[0][0] == 'ref'
    o = A[0]
    ot = atys[0]
    if byref:
        ot = pointee(atys[0])
        o = ev.read(st, A[0], ot)
    if o.op != 'enum':
        o2 = ev.expand(ot, o)
        if o2.op == 'ite':
            o2 = enumify(ev, o2, ot)
        o = o2
    if o.op != 'enum':
        return NI
    ok = eq(o.a[0], ONE) if isopt else eq(o.a[0], ZERO)
    x = o.a[1]
    err = o.a[2] if not isopt else None

    def mkopt(c, v):
        if isopt:
            return opt(c, v)
        return enum('Result', (1, 1), ite(c, ZERO, ONE), [v, err])
    if L in ('is_some', 'is_ok'):
        return ok, st
    if L in ('is_none', 'is_err'):
        return bnot(ok), st
    if L in ('unwrap', 'expect', 'unwrap_unchecked'):
        ev.oblige('unwrap', ok, ev.pc, [])
        return x, st
    if L == 'unwrap_err':
        return err, st
    if L == 'unwrap_or':
        return ite(ok, x, A[1]), st
    if L == 'unwrap_or_default':
        d = default(ev, dty)
        if d is None:
            return NI
        return ite(ok, x, d), st
    if L == 'unwrap_or_else':
        v, st = cond_apply(ev, bnot(ok), st, lambda s: ev.apply(A[1], [] if isopt else [err], s, dty))
        return ite(ok, x, v), st
    if L == 'map':
        v, st = cond_apply(ev, ok, st, lambda s: ev.apply(A[1], [x], s))
        return mkopt(ok, v), st
    if L == 'map_or':
        v, st = cond_apply(ev, ok, st, lambda s: ev.apply(A[2], [x], s, dty))
        return ite(ok, v, A[1]), st
    if L == 'map_or_else':
        v, st = cond_apply(ev, ok, st, lambda s: ev.apply(A[2], [x], s, dty))
        w, st = cond_apply(ev, bnot(ok), st, lambda s: ev.apply(A[1], [] if isopt else [err], s, dty))
        return ite(ok, v, w), st
    if L in ('and_then', 'is_some_and', 'is_ok_and'):
        v, st = cond_apply(ev, ok, st, lambda s: ev.apply(A[1], [x], s, dty))
        if L != 'and_then':
            return (band(ok, v) if is_bool(v) else FALSE), st
        v = ev.expand(dty, v)
        if v is UNDEF:
            return (none() if isopt else o), st
        if isopt:
            return ite(ok, v, none()), st
        return ite(ok, v, o), st
    if L == 'is_none_or':
        v, st = cond_apply(ev, ok, st, lambda s: ev.apply(A[1], [x], s, dty))
        return (bor(bnot(ok), v) if is_bool(v) else TRUE), st
    if L == 'filter':
        ref = mk('ref', (('V', UNK), ()), x)
        v, st = cond_apply(ev, ok, st, lambda s: ev.apply(A[1], [ref], s))
        return opt(band(ok, v if is_bool(v) else FALSE), x), st
    if L == 'or':
        y = ev.expand(atys[1], A[1])
        return ite(ok, o, y), st
    if L == 'or_else':
        v, st = cond_apply(ev, bnot(ok), st, lambda s: ev.apply(A[1], [], s, dty))
        return ite(ok, o, v), st
    if L == 'and':
        return ite(ok, ev.expand(atys[1], A[1]), none() if isopt else o), st
    if L in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut'):
        if byref and A[0].op in ('ref', 'ite'):
            p = ev.ext(A[0], ('f', 1 if isopt else 0, 0))
            if L.startswith('as_deref'):
                p = x
            return mkopt(ok, p), st
        return NI
    if L in ('cloned', 'copied'):
        v = ev.read(st, x) if x.op in ('ref', 'ite') else x
        return mkopt(ok, v), st
    if L == 'take':
        st = dict(st)
        ev.write(st, A[0], none())
        return o, st
    if L in ('replace', 'insert'):
        st = dict(st)
        ev.write(st, A[0], some(A[1]))
        return o, st
    if L == 'ok':
        return opt(ok, x), st
    if L == 'ok_or':
        return enum('Result', (1, 1), ite(ok, ZERO, ONE), [x, A[1]]), st
    if L == 'map_err':
        v, st = cond_apply(ev, bnot(ok), st, lambda s: ev.apply(A[1], [err], s))
        return enum('Result', (1, 1), o.a[0], [x, v]), st
    if L in ('iter',):
        return NI
    return NI


def enumify(ev, v, t):
    return v


# ---------------------------------------------------------------- sequences

def subseq(seq, lo, hi):
    if seq.op == 'arr' and lo.op == 'num' and hi.op == 'num':
        return arr(seq.a[lo.k:hi.k])
    if lo is ZERO and hi is T.seq_len(seq):
        return seq
    if seq.op == 'slice':
        return mk('slice', None, seq.a[0], add(seq.a[1], lo), add(seq.a[1], hi))
    return mk('slice', None, seq, lo, hi)


def unboxed(v):
    while v.op == 'adt' and v.k[0] == 'Box':
        v = v.a[0]
    return v


def vec_method(ev, name, L, A, atys, dty, st, val):
    from eval import pointee, is_box
    if L in ('new', 'with_capacity') and 'Vec' in name:
        return arr([]), st
    if L == 'from_elem':
        n = val(A[1])
        if n.op == 'num' and n.k <= 16:
            return arr([A[0]] * n.k), st
        return mk('repeat', None, A[0], n), st
    if L in ('into_boxed_slice',):
        return adt('Box', [A[0]]), st
    if L in ('into_vec',):
        return unboxed(A[0]), st
    if L == 'box_new' or L == 'box_assume_init_into_vec_unsafe':
        return NI
    if not A:
        return NI
    r = A[0]
    if L in ('as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'deref', 'deref_mut'):
        return r, st
    if L == 'len':
        return ev.length(st, r), st
    if L == 'is_empty':
        return eq(ev.length(st, r), ZERO), st
    if L == 'push':
        st = dict(st)
        v = ev.read(st, r)
        st_push(ev, st, r, v, A[1])
        return tup(), st
    if L == 'pop':
        st = dict(st)
        v = ev.read(st, r)
        n = T.seq_len(v)
        et = ev.elemty(ev.reftype(r))
        if v.op == 'arr':
            if not v.a:
                return none(), st
            ev.write(st, r, arr(v.a[:-1]))
            return some(v.a[-1]), st
        if v.op == 'push':
            ev.write(st, r, v.a[0])
            return some(v.a[1]), st
        has = bnot(eq(n, ZERO))
        x = ev.expand(et, T.idx_raw(v, sub(n, ONE)))
        ev.write(st, r, ite(has, mk('popped', None, v), v))
        return opt(has, x), st
    if L == 'clear':
        st = dict(st)
        ev.write(st, r, arr([]))
        return tup(), st
    if L in ('iter', 'iter_mut'):
        b = r
        if is_box(ev.reftype(r)):
            b = ev.ext(r, ('f', 0, 0))
        return adt(('it', 'slice'), [b, ZERO, ev.length(st, b)]), st
    if L == 'to_vec' or L == 'to_owned':
        return ev.read(st, r), st
    if L in ('first', 'last'):
        n = ev.length(st, r)
        i = ZERO if L == 'first' else sub(n, ONE)
        return opt(bnot(eq(n, ZERO)), ev.ext(r, 'i', i)), st
    if L in ('split_first', 'split_last', 'split_at'):
        n = ev.length(st, r)
        seq = unboxed(ev.read(st, r))
        vt = ('slice', ev.elemty(ev.reftype(r)))
        part = lambda lo, hi: mk('ref', (('V', vt), ()), subseq(seq, lo, hi))
        if L == 'split_at':
            k = val(A[1])
            ev.oblige('slice', le(k, n), ev.pc, [k, n])
            return tup(part(ZERO, k), part(k, n)), st
        i, rest = (ZERO, part(ONE, n)) if L == 'split_first' else (sub(n, ONE), part(ZERO, sub(n, ONE)))
        return opt(bnot(eq(n, ZERO)), tup(ev.ext(r, 'i', i), rest)), st
    if L in ('get', 'get_mut') and atys[1] == ('prim', 'usize'):
        i = val(A[1])
        return opt(lt(i, ev.length(st, r)), ev.ext(r, 'i', i)), st
    if L in ('get_unchecked', 'get_unchecked_mut'):
        return ev.ext(r, 'i', val(A[1])), st
    if L == 'swap':
        st = dict(st)
        a, b = ev.ext(r, 'i', val(A[1])), ev.ext(r, 'i', val(A[2]))
        x, y = ev.read(st, a), ev.read(st, b)
        ev.write(st, a, y)
        ev.write(st, b, x)
        return tup(), st
    if L in ('sort_by', 'sort_unstable_by', 'sort_by_key', 'sort_unstable_by_key', 'sort', 'sort_unstable'):
        st = dict(st)
        v = ev.read(st, r)
        cl = [ev.export(st, a) for a in A[1:]]
        ev.events.append((ev.pc, 'sort', tuple([v] + cl), ev.depth, ev.curspan, tuple(ev.stack)))
        ev.write(st, r, mk('sorted', L, v, *cl))
        return tup(), st
    if L == 'truncate':
        st = dict(st)
        v = ev.read(st, r)
        n = fn('min', T.seq_len(v), val(A[1]))
        ev.write(st, r, subseq(v, ZERO, n))
        return tup(), st
    if L == 'fill':
        st = dict(st)
        n = ev.length(st, r)
        ev.write(st, r, mk('repeat', None, A[1], n) if not (n.op == 'num' and n.k <= 16) else arr([A[1]] * n.k))
        return tup(), st
    if L in ('extend_from_slice',):
        st = dict(st)
        v = ev.read(st, r)
        w = ev.read(st, A[1])
        ev.write(st, r, seq_append(v, w))
        return tup(), st
    if L == 'extend':
        it = into_iter(ev, A[1], atys[1], st)
        byref = '&' in str(name.split('Extend<')[-1].split('>')[0])
        try:
            w, _, _, st = consume(ev, it, st, arr([]), lambda s, a, x: (seq_push(a, ev.read(s, x) if byref and x.op == 'ref' else x), FALSE, UNDEF, s))
        except CantIter:
            return NI
        st = dict(st)
        ev.write(st, r, seq_append(ev.read(st, r), w))
        return tup(), st
    if L == 'append':
        st = dict(st)
        v, w = ev.read(st, r), ev.read(st, A[1])
        ev.write(st, r, seq_append(v, w))
        ev.write(st, A[1], arr([]))
        return tup(), st
    if L == 'resize':
        st = dict(st)
        v = ev.read(st, r)
        if v.op == 'arr' and not v.a:
            ev.write(st, r, mk('repeat', None, A[2], val(A[1])))
            return tup(), st
        return NI
    if L in ('copy_from_slice', 'clone_from_slice'):
        st = dict(st)
        ev.write(st, r, ev.read(st, A[1]))
        return tup(), st
    if L in ('reserve', 'shrink_to_fit', 'reserve_exact'):
        return tup(), st
    return NI


def seq_append(v, w):
    if v.op == 'arr' and not v.a:
        return w
    if w.op == 'arr':
        for x in w.a:
            v = seq_push(v, x)
        return v
    return mk('append', None, v, w)


def seq_push(v, x):
    if v.op == 'arr':
        return arr(list(v.a) + [x])
    return mk('push', None, v, x)


def st_push(ev, st, r, v, x):
    ev.write(st, r, seq_push(v, x))


# ---------------------------------------------------------------- iterators

def into_iter(ev, v, t, st):
    from eval import pointee, is_box
    if v.op == 'adt' and isinstance(v.k[0], tuple) and v.k[0][0] == 'it':
        return v
    if v.op == 'adt' and v.k[0] in ('Range', 'RangeInclusive'):
        return v
    if t[0] == 'ref' and v.op in ('ref', 'ite'):
        pt = pointee(t)
        if pt[0] in ('slice', 'array') or pt[0] == 'adt' and last(pt[1]) == 'Vec':
            return adt(('it', 'slice'), [v, ZERO, ev.length(st, v)])
        if is_box(pt):
            b = ev.ext(v, ('f', 0, 0))
            return adt(('it', 'slice'), [b, ZERO, ev.length(st, b)])
    if t[0] in ('array',) or t[0] == 'adt' and last(t[1]) == 'Vec' or is_box(t):
        s = unboxed(v)
        n = num(t[2]) if t[0] == 'array' and isinstance(t[2], int) else T.seq_len(s)
        return adt(('it', 'vec', ev.elemty(t)), [s, ZERO, n])
    return v


def kind(v):
    if v.op == 'adt':
        if v.k[0] in ('Range', 'RangeInclusive', 'std::ops::RangeFrom', 'RangeFrom'):
            return v.k[0]
        if isinstance(v.k[0], tuple) and v.k[0][0] == 'it':
            return v.k[0][1]
    return None


def position(v):
    """number of elements an iterator over a whole sequence has passed"""
    k = kind(v)
    if k in ('slice', 'vec'):
        return v.a[1]
    if k in ('map', 'cloned', 'copied', 'inspect', 'zip') and v.op == 'adt':
        return position(v.a[0])
    return None


class CantIter(Exception):
    pass


def it_next(ev, v, st, back=False):
    """-> (has, item, advanced iterator value, state)"""
    k = kind(v)
    if k == 'Range':
        s, e = v.a
        has = lt(s, e)
        if back:
            i = sub(e, ONE)
            return has, i, adt('Range', [s, ite(has, i, e)]), st
        return has, s, adt('Range', [ite(has, add(s, ONE), s), e]), st
    if k in ('RangeFrom', 'std::ops::RangeFrom'):
        return TRUE, v.a[0], adt(v.k[0], [add(v.a[0], ONE)]), st
    if k == 'RangeInclusive':
        s, e, ex = v.a
        # normalised: iterate s..e+1
        has = lt(s, add(e, ONE))
        if back:
            return has, e, adt('RangeInclusive', [s, ite(has, sub(e, ONE), e), ex]), st
        return has, s, adt('RangeInclusive', [ite(has, add(s, ONE), s), e, ex]), st
    if k == 'slice':
        r, i, n = v.a
        has = lt(i, n)
        if back:
            j = sub(n, ONE)
            return has, ev.ext(r, 'i', j), adt(v.k[0], [r, i, ite(has, j, n)]), st
        return has, ev.ext(r, 'i', i), adt(v.k[0], [r, ite(has, add(i, ONE), i), n]), st
    if k == 'vec':
        s, i, n = v.a
        has = lt(i, n)
        et = v.k[0][2]
        if back:
            j = sub(n, ONE)
            return has, ev.expand(et, T.idx_raw(s, j)), adt(v.k[0], [s, i, ite(has, j, n)]), st
        return has, ev.expand(et, T.idx_raw(s, i)), adt(v.k[0], [s, ite(has, add(i, ONE), i), n]), st
    if k == 'map':
        has, x, w, st = it_next(ev, v.a[0], st, back)
        y, st = cond_apply(ev, has, st, lambda s: ev.apply(v.a[1], [x], s))
        return has, y, adt(v.k[0], [w, v.a[1]]), st
    if k == 'enumerate' and not back:
        has, x, w, st = it_next(ev, v.a[0], st)
        if len(v.a) == 1:
            return has, tup(position(v.a[0]), x), adt(v.k[0], [w]), st
        return has, tup(v.a[1], x), adt(v.k[0], [w, ite(has, add(v.a[1], ONE), v.a[1])]), st
    if k == 'rev':
        has, x, w, st = it_next(ev, v.a[0], st, not back)
        return has, x, adt(v.k[0], [w]), st
    if k in ('cloned', 'copied'):
        has, x, w, st = it_next(ev, v.a[0], st, back)
        return has, (ev.read(st, x) if x.op in ('ref', 'ite') else x), adt(v.k[0], [w]), st
    if k == 'zip' and not back:
        h1, x, w1, st = it_next(ev, v.a[0], st)
        h2, y, w2, st = it_next(ev, v.a[1], st)
        has = band(h1, h2)
        return has, tup(x, y), adt(v.k[0], [w1, w2]), st
    if k == 'take' and not back:
        h, x, w, st = it_next(ev, v.a[0], st)
        has = band(h, bnot(eq(v.a[1], ZERO)))
        return has, x, adt(v.k[0], [w, ite(has, sub(v.a[1], ONE), v.a[1])]), st
    if k == 'chain' and not back:
        h1, x, w1, st = it_next(ev, v.a[0], st)
        h2, y, w2, st = it_next(ev, v.a[1], st)
        w2 = _iteit(h1, v.a[1], w2)
        return bor(h1, h2), ite(h1, x, y), adt(v.k[0], [w1, w2]), st
    if k == 'step_by' and not back:
        inner = v.a[0]
        if kind(inner) == 'Range':
            s, e = inner.a
            has = lt(s, e)
            return has, s, adt(v.k[0], [adt('Range', [ite(has, add(s, v.a[1]), s), e]), v.a[1]]), st
        raise CantIter()
    if k == 'once':
        has = v.a[0]
        return has, v.a[1], adt(v.k[0], [FALSE, v.a[1]]), st
    # an iterator implemented in the crate
    if v.op == 'adt' and isinstance(v.k[0], str) and v.k[0] in ev.M.adts:
        bs = [b for i in ev.M.impls if (i.get('trait') or '').endswith('iter::Iterator') and i['selft'][0] == 'adt' and i['selft'][1] == v.k[0] for b in [ev.M.bodies.get(i['im'].get('next'))] if b]
        if bs and not back:
            ev.nfid += 1
            cell = ('L', -ev.nfid, 0)
            ev.celltype[cell] = ('adt', v.k[0], ())
            st = dict(st)
            st[cell] = v
            r = ev.call_body(bs[0], None, [ev.mkref(cell)], [('ref', ('adt', v.k[0], ()), True)], bs[0].locals[0], st, {}, {})
            if r is None:
                raise CantIter()
            o, st = r
            o = ev.expand(bs[0].locals[0], o)
            st = dict(st)
            w = st.pop(cell)
            return is_some(o), o.a[1], w, st
    raise CantIter()


FILTERS = ('filter', 'filter_map', 'take_while')


def filtered(v):
    """an iterator chain that may skip elements"""
    while kind(v) in FILTERS + ('map', 'cloned', 'copied', 'inspect'):
        if kind(v) in FILTERS:
            return True
        v = v.a[0]
    return False


def it_step(ev, v, st):
    """one step of a chain that may skip elements -> (has, keep, item, advanced, state)"""
    k = kind(v)
    if k in ('filter', 'filter_map', 'map', 'cloned', 'copied', 'take_while'):
        has, keep, x, w, st = it_step(ev, v.a[0], st)
        live = band(has, keep)
        if k in ('cloned', 'copied'):
            return has, keep, (ev.read(st, x) if x.op in ('ref', 'ite') else x), adt(v.k[0], [w]), st
        if k == 'map':
            y, st = cond_apply(ev, live, st, lambda s: _call(ev, v.a[1], [x], s))
            return has, keep, y, adt(v.k[0], [w, v.a[1]]), st
        if k in ('filter', 'take_while'):
            p, st = cond_apply(ev, live, st, lambda s: _call(ev, v.a[1], [mk('ref', (('V', UNK), ()), x)], s))
            if not is_bool(p):
                p = atom(p)
            if k == 'take_while':
                return band(has, bor(bnot(keep), p)), keep, x, adt(v.k[0], [w, v.a[1]]), st
            return has, band(keep, p), x, adt(v.k[0], [w, v.a[1]]), st
        o, st = cond_apply(ev, live, st, lambda s: _call(ev, v.a[1], [x], s))
        if o.op != 'enum':
            raise CantIter()
        return has, band(keep, is_some(o)), o.a[1], adt(v.k[0], [w, v.a[1]]), st
    has, x, w, st = it_next(ev, v, st)
    return has, TRUE, x, w, st


def skipping_next(ev, ref, st):
    """next() of a chain that may skip elements, as one step of the loop it drives -> (skipped, state then, value, state)"""
    v = ev.read(st, ref)
    if v.op == 'ref' or not filtered(v):
        return None
    try:
        has, keep, x, w, st = it_step(ev, v, dict(st))
    except CantIter:
        return None
    st = dict(st)
    ev.write(st, ref, w)
    return band(has, bnot(keep)), opt(has, x), st


def _iteit(c, x, y):
    return ite(c, x, y)


def mkcell(ev, st, v):
    ev.nfid += 1
    cell = ('L', -ev.nfid, 0)
    st[cell] = v
    return cell


def consume(ev, it, st, acc, f):
    """drive an iterator: f(st, acc, item) -> (acc2, stop condition or FALSE, stop value, st). Returns (acc, stopped, stopval, st)."""
    k = kind(it)
    if k in ('map', 'cloned', 'copied') and filtered(it.a[0]):
        def g(s, a, x):
            if k == 'map':
                x, s = _call(ev, it.a[1], [x], s)
            else:
                x = ev.read(s, x) if x.op in ('ref', 'ite') else x
            return f(s, a, x)
        return consume(ev, it.a[0], st, acc, g)
    if k in ('filter', 'filter_map', 'skip_while', 'take_while', 'inspect', 'flat_map'):
        if k == 'filter':
            def g(s, a, x):
                p, s = _call(ev, it.a[1], [mk('ref', (('V', UNK), ()), x)], s)
                return _cond(ev, p, s, a, x, f)
            return consume(ev, it.a[0], st, acc, g)
        if k == 'filter_map':
            def g(s, a, x):
                o, s = _call(ev, it.a[1], [x], s)
                if o.op != 'enum':
                    raise CantIter()
                return _cond(ev, is_some(o), s, a, o.a[1], f)
            return consume(ev, it.a[0], st, acc, g)
        if k == 'take_while':
            def g(s, a, x):
                p, s = _call(ev, it.a[1], [mk('ref', (('V', UNK), ()), x)], s)
                if not is_bool(p):
                    p = atom(p)
                a2, stop, sv, s = _cond(ev, p, s, a, x, f)
                if stop is not FALSE:
                    raise CantIter()
                return a2, bnot(p), UNDEF, s
            return consume(ev, it.a[0], st, acc, g)
        raise CantIter()
    st = dict(st)
    c0 = ev.pc
    ci, ca = mkcell(ev, st, it), mkcell(ev, st, acc)
    cs = mkcell(ev, st, UNDEF)

    def step(pc, s):
        ev.pc = pc
        a = s[ca]
        has, x, w, s2 = it_next(ev, s[ci], s)
        has = restrict(has, pc)
        if has is TRUE or has is FALSE:
            ev.decflag = True
        exits = []
        endc = band(pc, bnot(has))
        if endc is not FALSE:
            exits.append(('end', endc, dict(s)))
        hc = band(pc, has)
        if hc is FALSE:
            return None, exits
        ev.pc = band(ev.pc, has)
        s2 = dict(s2)
        s2[ci] = w
        a2, stop, sv, s3 = f(s2, a, x)
        s3 = dict(s3)
        s3[ca] = a2
        stop = restrict(stop, ev.pc)
        sc = band(ev.pc, stop)
        if sc is not FALSE:
            s4 = dict(s3)
            s4[cs] = sv
            exits.append(('stop', sc, s4))
        bc = band(ev.pc, bnot(stop))
        if bc is FALSE:
            return None, exits
        return (bc, s3), exits
    outs = ev.loop(step, c0, st, (ev.stack[-1] if ev.stack else '', 'iter'))
    if not outs:
        raise CantIter()
    stopped = FALSE
    cc, s = None, None
    for t, c, x in outs:
        if t == 'stop':
            stopped = bor(stopped, c)
        if cc is None:
            cc, s = c, x
        else:
            cc, s = ev.merge(cc, s, c, x)
    ev.pc = cc
    s = dict(s)
    a, sv = s.pop(ca), s.pop(cs, UNDEF)
    s.pop(ci, None)
    return a, restrict(stopped, cc), sv, s


def _call(ev, clo, args, st):
    r = ev.apply(clo, args, st)
    if r is None:
        raise CantIter()
    return r


def _cond(ev, p, s, a, x, f):
    res = {}

    def th(s1):
        a2, stop, sv, s2 = f(s1, a, x)
        res['stop'], res['sv'] = stop, sv
        return a2, s2
    a2, s = cond_apply(ev, p, s, th)
    stop = band(p, res.get('stop', FALSE))
    return ite(p, a2, a), stop, res.get('sv', UNDEF), s


def iter_method(ev, m, A, atys, dty, st, val, sty):
    try:
        return iter_method_(ev, m, A, atys, dty, st, val, sty)
    except CantIter:
        return NI


def iter_method_(ev, m, A, atys, dty, st, val, sty):
    if m in ('next', 'next_back'):
        v = ev.read(st, A[0])
        if v.op == 'ref':
            # &mut I as an iterator
            has, x, w, st = it_next(ev, ev.read(st, v), st, m == 'next_back')
            st = dict(st)
            ev.write(st, v, w)
            return opt(has, x), st
        has, x, w, st = it_next(ev, v, st, m == 'next_back')
        st = dict(st)
        ev.write(st, A[0], w)
        return opt(has, x), st
    by = A[0]
    if by.op == 'ref':
        it = ev.read(st, by)
        mut = True
    else:
        it, mut = by, False
    if m in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'flat_map'):
        return adt(('it', m), [it, A[1]]), st
    if m == 'enumerate':
        # elements counted from the start of a sequence are counted by the position in it
        return adt(('it', m), [it] if position(it) is ZERO else [it, ZERO]), st
    if m in ('rev', 'cloned', 'copied'):
        return adt(('it', m), [it]), st
    if m == 'by_ref':
        return A[0], st
    if m in ('zip', 'chain'):
        o = into_iter(ev, A[1], atys[1], st)
        return adt(('it', m), [it, o]), st
    if m == 'take':
        return adt(('it', m), [it, val(A[1])]), st
    if m == 'step_by':
        return adt(('it', m), [it, val(A[1])]), st
    if m == 'skip':
        k = kind(it)
        n = val(A[1])
        if k == 'Range':
            return adt('Range', [fn('min', add(it.a[0], n), fn('max', it.a[0], it.a[1])) if not (it.a[0].op == 'num' and it.a[1].op == 'num') else num(min(it.a[0].k + n.k, max(it.a[0].k, it.a[1].k))), it.a[1]]), st
        if k in ('slice', 'vec'):
            i = add(it.a[1], n)
            return adt(it.k[0], [it.a[0], i, it.a[2]]), st   # i beyond the end behaves as empty
        raise CantIter()
    if m == 'into_iter':
        return it, st

    def fin(v, s):
        return v, s
    if m == 'fold':
        a, _, _, s = consume(ev, it, st, A[1], lambda s, a, x: _f3(_call(ev, A[2], [a, x], s)))
        return a, s
    if m == 'for_each':
        _, _, _, s = consume(ev, it, st, tup(), lambda s, a, x: (a, FALSE, UNDEF, _call(ev, A[1], [x], s)[1]))
        return tup(), s
    if m in ('any', 'all', 'find', 'position'):
        def g(s, a, x):
            arg = mk('ref', (('V', UNK), ()), x) if m == 'find' else x
            p, s = _call(ev, A[1], [arg], s)
            if not is_bool(p):
                p = atom(p)
            if m == 'all':
                p = bnot(p)
            sv = x if m == 'find' else (a if m == 'position' else TRUE)
            return (add(a, ONE) if m == 'position' else a), p, sv, s
        a, stopped, sv, s = consume(ev, it, st, ZERO, g)
        if m == 'any':
            return stopped, s
        if m == 'all':
            return bnot(stopped), s
        return opt(stopped, sv), s
    if m == 'sum' or m == 'product':
        def g(s, a, x):
            x = ev.read(s, x) if x.op == 'ref' else x
            if x.op in ('adt', 'enum'):
                raise CantIter()
            return (add(a, x) if m == 'sum' else mul(a, x)), FALSE, UNDEF, s
        a, _, _, s = consume(ev, it, st, ZERO if m == 'sum' else ONE, g)
        return a, s
    if m == 'count':
        a, _, _, s = consume(ev, it, st, ZERO, lambda s, a, x: (add(a, ONE), FALSE, UNDEF, s))
        return a, s
    if m == 'collect':
        if not (dty[0] == 'adt' and last(dty[1]) in ('Vec', 'Box')):
            raise CantIter()
        a, _, _, s = consume(ev, it, st, arr([]), lambda s, a, x: (seq_push(a, x), FALSE, UNDEF, s))
        if last(dty[1]) == 'Box':
            a = adt('Box', [a])
        return a, s
    if m in ('min', 'max') :
        def g(s, a, x):
            x = ev.read(s, x) if x.op == 'ref' else x
            return opt(TRUE, ite(is_some(a), fn(m, a.a[1], x), x)), FALSE, UNDEF, s
        a, _, _, s = consume(ev, it, st, none(), g)
        return a, s
    if m == 'last':
        a, _, _, s = consume(ev, it, st, none(), lambda s, a, x: (some(x), FALSE, UNDEF, s))
        return a, s
    if m == 'len':
        k = kind(it)
        if k in ('slice', 'vec'):
            return sub(it.a[2], it.a[1]), st
        if k == 'Range':
            return sub(it.a[1], it.a[0]), st
    return NI


def _f3(r):
    return r[0], FALSE, UNDEF, r[1]
