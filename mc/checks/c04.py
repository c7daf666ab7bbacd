import itertools
import json

from pyswagger import errs
from pyswagger.utils import walk
from mc import engine
from mc.engine import Skip
from mc.lib import mem_app, ROOT, plain, doc as mkdoc, op as mkop

ASSUMPTIONS = ['$ref siblings are not used', 'cycles of parameters, responses and path items are not reported by strict mode (only schemas are)']

EXT = 'http://h.io/x/e.json'


def elementary(n, out):
    """all elementary cycles, each starting with its smallest vertex, by brute force"""
    found = []
    for k in range(1, n + 1):
        for vs in itertools.permutations(range(n), k):
            if vs[0] != min(vs):
                continue
            if all(b in out[a] for a, b in zip(vs, vs[1:] + vs[:1])):
                found.append(vs)
    return found


def reach(out, s):
    seen, stk = set(), [s]
    while stk:
        v = stk.pop()
        if v not in seen:
            seen.add(v)
            stk.extend(out[v])
    return seen


def walker(c):
    n = 4
    rows = list(itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n + 1)))
    r0 = c.free('edges of 0', rows)
    r1 = c.free('edges of 1', rows)
    for r2 in rows:
        for r3 in rows:
            out = [r0, r1, r2, r3]
            cyc = elementary(n, out)
            starts = range(n) if engine.TIER == 'thorough' else (0, 2)
            acc = []
            for s in starts:
                alive = reach(out, s)
                want = sorted(list(v) + [v[0]] for v in cyc if set(v) <= alive)
                got = sorted(walk(s, lambda v: out[v]))
                c.step()
                c.check(got == want, 'edges %r from %d: got %r, elementary cycles are %r' % (out, s, got, want), 'walk')
                prev = sorted(acc)
                acc = walk(s, lambda v: list(reversed(out[v])), acc)
                c.check(sorted(acc) == sorted(prev + [w for w in want if w not in prev]), 'accumulated cycles of %r from %d: %r' % (out, s, acc), 'accumulate')
            c.state(len(cyc))


FULL = ['full properties', 'full items', 'full allOf', 'full additionalProperties']
KINDS = ['property', 'items', 'allOf', 'addp', 'nested', 'allOfprop', 'direct', 'itemsarr'] + FULL


# what may be written beside a $ref (and has no meaning, or none for what is referred)
BESIDE = [{}, {'description': 'd', 'title': 't', 'example': 1, 'externalDocs': {'url': 'u'}, 'xml': {'name': 'x'}}, {'readOnly': True}, {'type': 'object', 'properties': {'w': {'type': 'string'}}, 'required': []}]


def edge(kind, ref, i, beside={}):
    r = dict(beside, **{'$ref': ref})
    if kind == 'property':
        return {'properties': {'e%d' % i: r}}
    if kind == 'items':
        return {'properties': {'e%d' % i: {'type': 'array', 'items': r}}}
    if kind == 'itemsarr':
        return {'properties': {'e%d' % i: {'type': 'array', 'items': {'type': 'array', 'items': r}}}}
    if kind == 'allOf':
        return {'allOf': [r]}
    if kind == 'addp':
        return {'additionalProperties': r}
    if kind == 'nested':
        return {'properties': {'e%d' % i: {'type': 'object', 'properties': {'n': r}}}}
    if kind in FULL:
        # a schema that has everything a schema can refer by, one of them being the reference
        h = {'properties': {'z': {'type': 'string'}}, 'items': {'type': 'string'}, 'allOf': [{'description': 'd'}], 'additionalProperties': {'type': 'string'}}
        slot = kind.split()[1]
        h[slot] = {'properties': {'z': r}, 'allOf': [r]}.get(slot, r)
        return {'properties': {'e%d' % i: h}}
    if kind == 'allOfprop':
        return {'allOf': [{'properties': {'e%d' % i: r}}]}
    raise ValueError(kind)


def wrap(kind, v):
    return {'property': lambda: v, 'items': lambda: [v], 'itemsarr': lambda: [[v]], 'nested': lambda: {'n': v}, 'allOfprop': lambda: v}[kind]()


def sorted_form(out, perm):
    perm = list(perm)
    return sorted((perm[i], perm[j]) for i in range(len(out)) for j in out[i])


def schemas(c):
    n = 3
    out = []
    kinds = {}
    for i in range(n):
        out.append(c.free('edges of %d' % i, list(itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n + 1)))))
    # renaming the definitions gives the same graph: one representative of each is enough
    for perm in itertools.permutations(range(n)):
        if sorted_form(out, perm) < sorted_form(out, range(n)):
            raise Skip()
    default = c.pick('usual kind', ['property', 'allOf'])
    for i in range(n):
        addp = 0
        for j in out[i]:
            k = c.pick('kind %d-%d' % (i, j), [default] + [k for k in KINDS if k != default])
            if k == 'direct' and len(out[i]) != 1 or k == 'addp' and addp:
                raise Skip()
            addp += k == 'addp'
            kinds[i, j] = k
    beside = c.pick('beside the references', BESIDE)
    far = c.pick('external', [(), (2,), (1, 2), (0, 1, 2), (0,), (1,), (0, 1), (0, 2)])
    # who is reachable from the root document
    local = [i for i in range(n) if i not in far]
    used = set()
    for i in local or [0]:
        used |= reach(out, i)
    cyc = [v for v in elementary(n, out) if set(v) <= used]
    oncyc = set(x for v in cyc for x in v)
    refs = lambda i, here: (EXT if here == ROOT else '') + '#/definitions/N%d' % i if i in far else (ROOT if here == EXT else '') + '#/definitions/N%d' % i
    defs = {ROOT: {}, EXT: {}}
    for i in range(n):
        here = EXT if i in far else ROOT
        d = {'type': 'object', 'properties': {'v%d' % i: {'type': 'string', 'format': 'date'}}}
        for j in out[i]:
            k = kinds[i, j]
            if k == 'direct':
                d = dict(beside, **{'$ref': refs(j, here)})
                break
            e = edge(k, refs(j, here), j, beside)
            if 'properties' in e:
                d['properties'].update(e['properties'])
            if 'allOf' in e:
                d.setdefault('allOf', []).extend(e['allOf'])
            if 'additionalProperties' in e:
                d['additionalProperties'] = e['additionalProperties']
        defs[here]['N%d' % i] = d
    paths = {'/fine': {'get': mkop([{'name': 'q', 'in': 'query', 'type': 'integer'}], operationId='fine', responses={'200': {'description': '', 'schema': {'type': 'string', 'format': 'date'}}})}}
    for i in range(n):
        if i in used:
            paths['/n%d' % i] = {'post': mkop([{'name': 'b', 'in': 'body', 'schema': {'$ref': refs(i, ROOT)}}], operationId='n%d' % i)}
    if not local:
        # the root document refers to the other one by a single operation only
        for i in range(1, n):
            paths.pop('/n%d' % i, None)
    docs = {ROOT: mkdoc(paths=paths, definitions=defs[ROOT]), EXT: {'definitions': defs[EXT]}}
    text = json.dumps(docs, sort_keys=True)
    c.step(2)
    try:
        mem_app(json.loads(text))
        raised = False
    except errs.CycleDetectionError:
        raised = True
    c.check(raised == bool(cyc), 'strict preparation %s, cycles are %r: %s' % ('raised' if raised else 'did not raise', cyc, text), 'strict')
    app = mem_app(json.loads(text), strict=False)
    c.state(len(cyc), raised, sorted(set(kinds.values())))
    req, resp = app.op['fine'](q=1)
    c.eq(req.query, [('q', '1')], 'unrelated operation')
    resp.apply_with(status=200, raw='"2001-02-03"')
    c.eq(resp.data.to_json(), '2001-02-03', 'unrelated response')
    # finite values of every definition not involved in a cycle of allOf or direct references
    hard = [(a, b) for (a, b), k in kinds.items() if k in ('allOf', 'direct')]
    hout = [[b for a, b in hard if a == i] for i in range(n)]
    bad = set(x for v in elementary(n, hout) for x in v)

    def ok(i):
        return not (reach(hout, i) & bad)

    def value(i, depth):
        """-> (python value, JSON expected)"""
        ks = [kinds[i, j] for j in out[i]]
        if 'direct' in ks:
            return value(out[i][0], depth)
        v = {'v%d' % i: '2001-02-0%d' % (i + 1)}
        for j in out[i]:
            k = kinds[i, j]
            if k == 'allOf':
                v.update(value(j, 0))
            elif k in ('addp',):
                if depth and ok(j):
                    v['extra'] = value(j, depth - 1)
            elif depth and ok(j) and k not in FULL:
                v['e%d' % j] = wrap(k, value(j, depth - 1))
        return v
    for i in range(n):
        if ('/n%d' % i) not in paths or not ok(i) or beside.get('readOnly'):
            continue
        if any(k == 'addp' for k in kinds.values()) and any(k == 'allOf' for k in kinds.values()):
            continue        # which additionalProperties applies is decided by C14
        for depth in (0, 1, 2):
            v = value(i, depth)
            req, _ = app.op['n%d' % i](b=v)
            req.prepare()
            c.eq(json.loads(req.data), v, 'value of N%d (depth %d) sent; documents %s' % (i, depth, text), 'finite value')
            m = app.resolve(refs(i, ROOT))._prim_(v, app.prim_factory)
            c.check(typed(m), 'value of N%d is not converted: %r; documents %s' % (i, m, text), 'not converted')


def typed(m):
    if isinstance(m, dict):
        return all(hasattr(v, 'to_json') and not isinstance(v, (dict, list)) if k.startswith('v') else typed(v) for k, v in m.items())
    if isinstance(m, list):
        return all(typed(x) for x in m)
    return False


def chains(c):
    """functional reference graphs of parameters, responses and path items, possibly across documents"""
    kind = c.free('kind', ['parameters', 'responses', 'paths'])
    n = 3
    tgt = [c.free('target of %d' % i, [None, 0, 1, 2]) for i in range(n)]
    far = c.free('external', [(), (1,), (0, 1, 2)]) if kind != 'paths' else c.free('external', [(), (1, 2)])
    name = (lambda i: '/p%d' % i) if kind == 'paths' else (lambda i: 'P%d' % i)
    esc = lambda s: s.replace('/', '~1')

    def ref(i, here):
        url = EXT if i in far else ROOT
        return ('' if url == here else url) + '#/%s/%s' % (kind, esc(name(i)))
    secs = {ROOT: {}, EXT: {}}
    for i in range(n):
        here = EXT if i in far else ROOT
        if tgt[i] is not None:
            o = {'$ref': ref(tgt[i], here)}
        elif kind == 'parameters':
            o = {'name': 'q%d' % i, 'in': 'query', 'type': 'integer', 'minimum': 0}
        elif kind == 'responses':
            o = {'description': 'r%d' % i, 'schema': {'type': 'string', 'format': 'date'}}
        else:
            o = {'get': mkop([{'name': 'q%d' % i, 'in': 'query', 'type': 'integer'}])}
        secs[here][name(i)] = o
    d = mkdoc(paths={'/fine': {'get': mkop([{'name': 'q', 'in': 'query', 'type': 'integer'}], operationId='fine')}})
    if kind == 'paths':
        d['paths'].update(secs[ROOT])
    else:
        d[kind] = secs[ROOT]
        for i in range(n):
            o = mkop(operationId='use%d' % i)
            if kind == 'parameters':
                o['parameters'] = [{'$ref': ref(i, ROOT)}]
            else:
                o['responses'] = {'200': {'$ref': ref(i, ROOT)}}
            d['paths']['/u%d' % i] = {'get': o}
    if kind == 'paths':
        for i in far:
            d['paths']['/x%d' % i] = {'$ref': ref(i, ROOT)}
    docs = {ROOT: d, EXT: {kind: secs[EXT]}}
    text = json.dumps(docs, sort_keys=True)
    c.step(2)

    def end(i):
        seen = set()
        while tgt[i] is not None:
            if i in seen:
                return None
            seen.add(i)
            i = tgt[i]
        return i
    ends = [end(i) for i in range(n)]
    c.state(kind, ends, far)
    for strict in (True, False):
        app = mem_app(json.loads(text), strict=strict)
        req, _ = app.op['fine'](q=1)
        c.eq(req.query, [('q', '1')], 'unrelated operation')
        for i in range(n):
            if ends[i] is None:
                continue
            what = '%s%d of %s' % (kind, i, text)
            if kind == 'parameters':
                req, _ = app.op['use%d' % i](**{'q%d' % ends[i]: '5'})
                c.eq(req.query, [('q%d' % ends[i], '5')], what, 'parameter chain')
            elif kind == 'responses':
                _, r = app.op['use%d' % i]()
                r.apply_with(status=200, raw='"2001-02-03"')
                c.eq(plain(r.data), ('Date', '2001-02-03'), what, 'response chain')
            else:
                p = app.root.paths[name(i) if i not in far else '/x%d' % i]
                req, _ = p.get(**{'q%d' % ends[i]: '5'})
                c.eq(req.query, [('q%d' % ends[i], '5')], what, 'path chain')


SCENARIOS = [
    dict(name='walk', fn=walker, bound=0, space='all 65536 directed graphs of 4 vertices (self loops included), cycle enumeration from 2 (quick) or 4 start vertices, accumulated and alone'),
    dict(name='chains', fn=chains, bound=0, space='all reference maps of 3 parameters, responses or path items (None or a target each) x placements in 2 documents'),
    dict(name='schemas', fn=schemas, bound=dict(quick=1, thorough=2), space='all directed graphs of 3 schemas (up to renaming) x 2 usual edge kinds, with up to `bound` edges of another of 12 kinds or external placement, or other fields beside the references; strict and non-strict; finite values converted'),
]
