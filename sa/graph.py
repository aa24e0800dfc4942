"""Call graph over the MIR model: static callees, trait dispatch resolved to every local implementation, closures."""


def callees(M, b):
    """[(callee path or trait method name, terminator, block)]"""
    out = []
    for i, bl in enumerate(b.blocks):
        t = bl['t']
        if t['t'] == 'call':
            out.append((t, i, bl['c']))
    return out


def targets(M, f):
    """local bodies a callee operand may run"""
    if not isinstance(f, dict):
        return []
    n = f.get('res') or f.get('n')
    out = []
    if n in M.bodies:
        out.append(n)
    tr, m = f.get('trait'), f.get('m')
    if tr and f.get('rk') != 'item' or (tr and n not in M.bodies):
        for i in M.impls:
            if i.get('trait') == tr and m in i['im'] and i['im'][m] in M.bodies:
                out.append(i['im'][m])
        d = M.trait_default(tr, m)
        if d is not None:
            out.append(d.path)
    return out


_g = {}


def calls(M):
    g = _g.get(id(M))
    if g is not None:
        return g
    g = {p: set() for p in M.bodies}
    for b in M.bodies.values():
        for bl in b.blocks:
            t = bl['t']
            if t['t'] == 'call':
                for x in targets(M, t['f']):
                    g[b.path].add(x)
            for s in bl['s']:
                if s['s'] == 'assign':
                    for n in mentions(s['v']):
                        if n in M.bodies:
                            g[b.path].add(n)
                        elif n in fnitems(M):
                            g[b.path] |= set(fnitems(M)[n])
        for p in M.bodies:
            if p.startswith(b.path + '::{closure'):
                g[b.path].add(p)
    _g[id(M)] = g
    return g


def callers_of(g, p):
    return {a for a, bs in g.items() if p in bs and a != p}


def reach(g, roots):
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += [y for y in g.get(x, ()) if y not in seen]
    return seen


def mentions(v):
    """names of functions and closures that occur as values"""
    out = []
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if isinstance(x.get('n'), str) and '::' in x['n']:
                out.append(x['n'])
            st += list(x.values())
        elif isinstance(x, list):
            st += x
    return out


_fi = {}


def fnitems(M):
    """trait method name -> implementing bodies"""
    r = _fi.get(id(M))
    if r is None:
        r = {}
        for i in M.impls:
            if i.get('trait'):
                for m, p in i['im'].items():
                    if p in M.bodies:
                        r.setdefault(i['trait'] + '::' + m, []).append(p)
        _fi[id(M)] = r
    return r
