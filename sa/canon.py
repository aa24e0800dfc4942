"""Canonical names. Checks name their anchors (types, fields, functions) as they are called in the tree the properties were written for (reference.json).
When something was merely renamed or moved, it is recognised here by what did not change (fields, signature, owner, module) and the dump is rewritten to the
reference names before anything else looks at it. A wrong or missing match makes checks fail closed or look at the renamed thing: names decide nothing else."""
import json
import os
import re
HERE = os.path.dirname(os.path.abspath(__file__))
REF = os.path.join(HERE, 'reference.json')
GEN = re.compile(r'::<[^<>]*>')


def tstr(j):
    return json.dumps(j, sort_keys=True)


def plain(path):
    """path without generic arguments of types"""
    while True:
        n = GEN.sub('', path)
        if n == path:
            return n
        path = n


def summary(j):
    adts, fns, consts, traits = {}, {}, {}, {}
    for a in j['adts']:
        adts[a['n']] = {'enum': a['enum'], 'v': [[v['n'], [[f['n'], tstr(f['ty'])] for f in v['f']]] for v in a['v']]}
    for b in j['bodies']:
        if b.get('closure') or b.get('trait') or '{' in b['path'] or '<' in plain(b['path']).split('::')[0]:
            continue
        # the receiver may be by value or by reference: part of the signature
        sg = [tstr(t) for t in b['locals'][:b['argc'] + 1]]
        fns[b['path']] = {'owner': plain(b['path']).rpartition('::')[0], 'sig': sg, 'line': int((b['span'].split(':') + ['0'])[1])}
    for c in j['consts']:
        consts[c['n']] = [tstr(c['ty']), tstr(c['v'])]
    for t in j['traits']:
        traits[t['n']] = [i['n'] for i in t['items']]
    return {'adts': adts, 'fns': fns, 'consts': consts, 'traits': traits}


def sub(text, pairs):
    """replace whole paths in the JSON text"""
    if not pairs:
        return text
    m = dict(pairs)
    rx = re.compile(r'(?<![A-Za-z0-9_:])(%s)(?![A-Za-z0-9_])' % '|'.join(re.escape(k) for k in sorted(m, key=len, reverse=True)))
    return rx.sub(lambda x: m[x.group(1)], text)


def last(p):
    return p.split('::')[-1]


def canonical(text):
    """text of a dump -> parsed dump with reference names"""
    j = json.loads(text)
    if not os.path.exists(REF) or os.environ.get('SA_NOCANON'):
        return j
    with open(REF) as f:
        ref = json.load(f)
    notes = []
    # traits, types and constants: moved (same last name) or renamed (same shape, same module)
    for kind in ('traits', 'adts', 'consts'):
        cur = summary(j)
        miss = [n for n in ref[kind] if n not in cur[kind]]
        new = [n for n in cur[kind] if n not in ref[kind]]
        pairs = []
        for n in miss:
            c = [x for x in new if last(x) == last(n)]
            if len(c) != 1:
                mod = n.rpartition('::')[0]
                if kind == 'traits':
                    same = lambda x: ref[kind][n] == cur[kind][x]
                elif kind == 'consts':
                    same = lambda x: ref[kind][n] == cur[kind][x]
                else:
                    same = lambda x: shape_like(n, ref[kind][n], x, cur[kind][x])
                c = [x for x in new if same(x)]
                d = [x for x in c if x.rpartition('::')[0] == mod]
                c = d if d else c
            if len(c) == 1 and c[0] not in [x for x, _ in pairs]:
                pairs.append((c[0], n))
        if pairs:
            notes += pairs
            text = sub(json.dumps(j), pairs)
            j = json.loads(text)
            for a in j['adts']:
                if not a['enum'] and len(a['v']) == 1:
                    a['v'][0]['n'] = last(a['n'])
    # trait methods
    cur = summary(j)
    pairs, ren = [], {}
    for t, items in ref['traits'].items():
        have = cur['traits'].get(t)
        if have is None or len(have) != len(items):
            continue
        miss = [i for i in items if i not in have]
        new = [i for i in have if i not in items]
        if miss and len(miss) == len(new):
            # same position in the trait, or the only one
            for a in miss:
                b = have[items.index(a)]
                if b not in new and len(new) == 1:
                    b = new[0]
                if b in new:
                    ren[(t, b)] = a
    if ren:
        for b in j['bodies']:
            for (t, o), n in ren.items():
                if b.get('name') == o and (b.get('trait') == t or b.get('in_trait') == t):
                    p = b['path']
                    q = p[:len(p) - len(o)] + n
                    pairs.append((p, q))
        for t in j['traits']:
            for i in t['items']:
                if (t['n'], i['n']) in ren:
                    pairs.append((i['p'], i['p'][:len(i['p']) - len(i['n'])] + ren[(t['n'], i['n'])]))
        j = rename_fns(j, pairs)
        for t in j['traits']:
            for i in t['items']:
                i['n'] = ren.get((t['n'], i['n']), i['n'])
        for i in j['impls']:
            for it in i['items']:
                it['n'] = ren.get((i.get('trait'), it['n']), it['n'])
        notes += pairs
    # fields
    cur = summary(j)
    for a in j['adts']:
        r = ref['adts'].get(a['n'])
        if not r or len(r['v']) != len(a['v']):
            continue
        rv = r['v']
        if sorted(n for n, _ in rv) == sorted(v['n'] for v in a['v']):
            rv = [next(x for x in rv if x[0] == v['n']) for v in a['v']]
        for (rn, rf), v in zip(rv, a['v']):
            v['n'] = rn
            miss = [(k, n, t) for k, (n, t) in enumerate(rf) if n not in [f['n'] for f in v['f']]]
            new = [(k, f['n'], tstr(f['ty'])) for k, f in enumerate(v['f']) if f['n'] not in [n for n, _ in rf]]
            for k, n, t in miss:
                c = [x for x in new if x[2] == t]
                if len(c) != 1:
                    c = [x for x in c if x[0] == k]
                if not c and len(miss) == len(new) and len(rf) == len(v['f']):
                    c = [x for x in new if x[0] == k]
                if len(c) == 1:
                    v['f'][c[0][0]]['n'] = n
                    notes.append((a['n'] + '.' + c[0][1], a['n'] + '.' + n))
                    new.remove(c[0])
    # functions
    cur = summary(j)
    miss = [n for n in ref['fns'] if n not in cur['fns']]
    new = [n for n in cur['fns'] if n not in ref['fns']]
    pairs = []
    for test in (lambda n, x: last(plain(x)) == last(plain(n)) and len(ref['fns'][n]['sig']) == len(cur['fns'][x]['sig']),
                 lambda n, x: ref['fns'][n]['owner'] == cur['fns'][x]['owner'] and ref['fns'][n]['sig'] == cur['fns'][x]['sig']):
        groups = {}
        for n in miss:
            c = tuple(x for x in new if test(n, x) and ref['fns'][n]['owner'].split('::')[-1] in (cur['fns'][x]['owner'].split('::')[-1], ref['fns'][n]['owner'].split('::')[-1]))
            groups.setdefault(c, []).append(n)
        for c, ns in groups.items():
            if len(c) == len(ns):
                # several of one signature: in source order
                for n, x in zip(sorted(ns, key=lambda n: ref['fns'][n]['line']), sorted(c, key=lambda x: cur['fns'][x]['line'])):
                    pairs.append((x, n))
        miss = [n for n in miss if n not in [b for _, b in pairs]]
        new = [x for x in new if x not in [a for a, _ in pairs]]
    pairs = [(a, b) for a, b in pairs if a != b]
    if pairs:
        j = rename_fns(j, pairs)
        notes += pairs
    j['renamed'] = notes
    return j


def shape_like(rn, r, cn, c):
    if r['enum'] != c['enum'] or len(r['v']) != len(c['v']):
        return False
    for (_, rf), (_, cf) in zip(r['v'], c['v']):
        if len(rf) != len(cf):
            return False
        # names may be kept while types are renamed, or the other way round
        if [n for n, _ in rf] != [n for n, _ in cf] and [t.replace('"%s"' % rn, '"%s"' % cn) for _, t in rf] != [t for _, t in cf]:
            return False
    return bool(r['v'])


def rename_fns(j, pairs):
    before = {b['path'] for b in j['bodies']}
    m = dict(pairs)
    for b in j['bodies']:
        if b['path'] in m and b.get('name') == last(plain(b['path'])):
            b['name'] = last(plain(m[b['path']]))
    for i in j['impls']:
        for it in i['items']:
            if it['p'] in m and it['n'] == last(plain(it['p'])):
                it['n'] = last(plain(m[it['p']]))
    j = json.loads(sub(json.dumps(j), pairs))
    st = [j['bodies']]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st += [y for y in x if isinstance(y, (list, dict))]
        elif isinstance(x, dict):
            if x.get('local') is True and 'm' in x and isinstance(x.get('n'), str):
                x['m'] = last(plain(x['n']))
            st += [y for y in x.values() if isinstance(y, (list, dict))]
    return j
