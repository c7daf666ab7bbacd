import datetime
import io
import json
import uuid

from six.moves.urllib.parse import parse_qsl, unquote
from mc.engine import Skip
from mc import engine
from mc.lib import P, one_op, mem_app, load_app, plain, doc, op as mkop

ASSUMPTIONS = ['path template names without dots; arguments other than None',
               'multipart encoding itself is decided by C11, arrays by C10']

U = uuid.UUID('12345678-1234-5678-1234-567812345678')
D = datetime.date(2015, 3, 4)
# type -> (declaration, [(argument, text on the wire)], [(default, text)])
TYPES = {
    'string': (dict(type='string'), [('a b', 'a b'), ('', ''), (5, '5'), ('0', '0'), (u'\u00e9/&', u'\u00e9/&')], [('dv', 'dv'), ('', '')]),
    'integer': (dict(type='integer', format='int32'), [(7, '7'), (0, '0'), ('12', '12'), (-3, '-3')], [(5, '5'), (0, '0')]),
    'long': (dict(type='integer', format='int64'), [(2 ** 40, str(2 ** 40)), (0, '0')], [(0, '0')]),
    'number': (dict(type='number'), [(1.5, '1.5'), (0, '0.0'), ('2.5', '2.5'), (0.0, '0.0')], [(2.5, '2.5'), (0, '0.0')]),
    'boolean': (dict(type='boolean'), [(True, 'true'), (False, 'false'), (1, 'true'), (0, 'false'), ('false', 'false'), ('true', 'true')],
                [(True, 'true'), (False, 'false')]),
    'date': (dict(type='string', format='date'), [(D, '2015-03-04'), ('2015-03-04', '2015-03-04')], [('2000-01-02', '2000-01-02')]),
    'date-time': (dict(type='string', format='date-time'), [('2015-03-04T01:02:03Z', '2015-03-04T01:02:03+00:00')],
                  [('2000-01-02T00:00:00', '2000-01-02T00:00:00')]),
    'uuid': (dict(type='string', format='uuid'), [(U, str(U)), (str(U), str(U))], [(str(U), str(U))]),
    'password': (dict(type='string', format='password'), [('p%', 'p%')], [('x', 'x')]),
    'byte': (dict(type='string', format='byte'), [('abc', 'abc'), (b'abc', 'abc')], [('z', 'z')]),
    'csv': (dict(type='array', items={'type': 'integer'}), [([1, 2], '1,2'), ([0], '0')], [([3], '3')]),
    'multi': (dict(type='array', items={'type': 'boolean'}, collectionFormat='multi'),
              [([True, False], ['true', 'false']), ([False], ['false'])], [([True], ['true'])]),
}
LOCS = ['query', 'path', 'header', 'formData', 'body', 'file']
NOTHING = ({'header': {'Content-Type': 'text/plain'}}, None)      # neither a name nor content
BODY_SCHEMA = {'type': 'object', 'properties': {'a': {'type': 'integer'}, 'b': {'type': 'string'}}}
BODIES = [({'a': 1, 'b': 'x'}, {'a': 1, 'b': 'x'}), ({'a': 0}, {'a': 0}), ({'b': ''}, {'b': ''})]


def choose_param(c, i, loc, name):
    """-> (declaration, argument given or absent, text expected or None, required, default text)"""
    if loc == 'path':
        req = True
    else:
        req = c.pick('required%d' % i, [False, True])
    d = dict(name=name, required=req) if req or c.flag('explicit-optional%d' % i) else dict(name=name)
    d['in'] = 'formData' if loc == 'file' else loc
    if loc == 'body':
        d['schema'] = BODY_SCHEMA
        arg = c.pick('arg%d' % i, BODIES + [None])
        return d, arg, None
    if loc == 'file':
        d['type'] = 'file'
        arg = c.pick('arg%d' % i, [(dict(filename='f.txt', data=io.BytesIO(b'DATA')), b'DATA'), None, NOTHING])
        return d, arg, None
    t = c.pick('type%d' % i, list(TYPES))
    if t == 'multi' and loc not in ('query', 'formData'):
        raise Skip()
    decl, vals, defs = TYPES[t]
    d.update(decl)
    df = c.pick('default%d' % i, [None] + defs)
    if df is not None:
        d['default'] = df[0]
    arg = c.pick('arg%d' % i, vals + [None])
    return d, arg, df


def expect_entries(name, text):
    return [(name, x) for x in (text if isinstance(text, list) else [text])]


def spelled(c, names, got, want):
    """known finding: booleans are sent in Python's spelling; the rest is still compared"""
    if not names & set(want):
        return want
    want = dict(want)
    for n in names & set(want):
        g = got.get(n)
        if isinstance(g, list) and g == [t.capitalize() for t in want[n]] and g != want[n]:
            c.finding('boolean spelling', 'boolean argument %s is sent as %s' % (n, g))
            want[n] = g
    return want


def routing(c):
    n = c.free('params', [1, 2, 0])
    params, given, wanted, missing = [], {}, [], False
    locs = []
    samename = n == 2 and c.flag('same-name', free=True)
    for i in range(n):
        loc = c.free('in%d' % i, LOCS)
        if i == 1:
            pair = set(locs + [loc])
            if 'body' in pair and (pair & {'formData', 'file'} or loc == 'body' and 'body' in locs):
                raise Skip()
            if samename and (locs[0] == loc or pair & {'body', 'file'} or pair == {'formData', 'file'}):
                raise Skip()
        locs.append(loc)
        name = 'p0' if samename else 'p%d' % i
        d, arg, df = choose_param(c, i, loc, name)
        if samename and i == 1:
            # one argument serves both: same declaration except for the location
            d = dict(params[0], **{'in': d['in']})
            if loc == 'path':
                d['required'] = True
            if d.get('collectionFormat') == 'multi' and (loc in ('path', 'header')):
                raise Skip()
            a0 = wanted[0] if wanted and wanted[0][0] == 'p0' else None
            if a0 is not None:
                wanted.append((name, loc, a0[2]))
            elif d.get('required'):
                missing = True
            params.append(d)
            continue
        params.append(d)
        if arg is not None:
            given[name] = arg[0]
            wanted.append((name, loc, arg[1]))
        elif df is not None:
            wanted.append((name, loc, df[1]))
        elif d.get('required'):
            missing = True
    unknown = c.pick('unknown', [None, 'nope', 'p', 'P0'])
    if unknown:
        given[unknown] = 'u'
    at_path = c.flag('second-at-path-level') and n == 2 and not samename
    path = '/a' + ''.join('/{%s}' % p['name'] for p in params if p['in'] == 'path')
    consumes = ['multipart/form-data', 'application/x-www-form-urlencoded'] if 'file' in locs else None
    o = mkop(params[:1] if at_path else params, operationId='op')
    if consumes:
        o['consumes'] = consumes
    pi = {'post': o}
    if at_path:
        pi['parameters'] = params[1:]
    app = mem_app(doc(paths={path: pi}))
    c.step(2)
    nothing = any(v is NOTHING[0] for v in given.values())
    try:
        req, resp = app.op['op'](**given)
    except Exception as e:      # noqa
        c.check(missing or unknown or nothing, 'refused although everything required is given: %s' % e, 'refused')
        if not nothing:
            c.check(isinstance(e, ValueError), 'refused by %s' % type(e).__name__, 'error')
        c.state('refused')
        return
    c.check(not missing, 'a missing required parameter was accepted', 'missing accepted')
    c.check(not nothing, 'a file without name and content was accepted', 'no file accepted')
    c.check(not unknown, 'an undeclared argument was accepted', 'unknown accepted')
    c.state(sorted(p['in'] for p in params), [w[1:] for w in wanted if not isinstance(w[2], dict)])
    req.prepare(scheme='http', handle_files=False)

    def group(pairs):
        out = {}
        for k, v in pairs:
            out.setdefault(k, []).append(v)
        return out

    def want(loc):
        return group([e for nm, l, t in wanted if l == loc for e in expect_entries(nm, t)])
    bools = set(p['name'] for p in params if p.get('type') == 'boolean')
    got = group([tuple(x) for x in req.query])
    c.eq(got, spelled(c, bools, got, want('query')), 'query')
    hdr = dict((k, [v]) for k, v in req.header.items() if k.lower() not in ('content-type', 'accept'))
    c.eq(hdr, spelled(c, bools, hdr, want('header')), 'header')
    # path
    segs = [nm for p in params if p['in'] == 'path' for nm, l, t in wanted if l == 'path' and nm == p['name']]
    got = dict(zip(segs, [[unquote(x)] for x in req.path.split('/')[2:]]))
    c.eq(len(req.path.split('/')[2:]), len(segs), 'number of path segments')
    c.eq(got, spelled(c, bools, got, want('path')), 'path variables')
    c.check(req.url.endswith(req.path), 'url %s does not end with the path %s' % (req.url, req.path))
    # body
    form = want('formData')
    bodies = [t for nm, l, t in wanted if l == 'body']
    files = [(nm, t) for nm, l, t in wanted if l == 'file']
    c.eq(sorted(req.files), sorted(nm for nm, t in files), 'names of files')
    for nm, t in files:
        c.eq(req.files[nm].data.getvalue(), t, 'content of file')
        c.eq(req.files[nm].filename, 'f.txt', 'file name')
    if bodies:
        c.eq(json.loads(req.data), bodies[0], 'body')
        c.check(isinstance(req.data, str), 'body is text')
    elif files:
        got = group([tuple(x) for x in req.data])
        c.eq(got, spelled(c, bools, got, form), 'form fields along with files')
    elif form:
        got = group(parse_qsl(req.data, keep_blank_values=True))
        c.eq(got, spelled(c, bools, got, form), 'form')
    else:
        c.check(not req.data, 'no body expected, got %r' % (req.data,))


def optional_subsets(c):
    """5 declared parameters, every subset of them given, every subset of them required"""
    decl = [P('q', 'query', 'integer'), P('h', 'header'), P('f', 'formData', 'number'), P('g', 'formData'),
            P('d', 'query', 'integer', default=0)]
    req_ = [c.flag('req-' + p['name'], free=True) for p in decl]
    giv = [c.flag('give-' + p['name'], free=True) for p in decl]
    params = [dict(p, required=True) if r else p for p, r in zip(decl, req_)]
    vals = dict(q=0, h='', f=0, g='x', d=9)
    text = dict(q='0', h='', f='0.0', g='x', d='9')
    app = one_op(params, method='post')
    kw = dict((p['name'], vals[p['name']]) for p, g in zip(params, giv) if g)
    missing = any(r and not g and 'default' not in p for p, r, g in zip(params, req_, giv))
    try:
        req, _ = app.op['op'](**kw)
    except ValueError as e:
        c.check(missing, 'refused: %s' % e)
        c.state('refused')
        return
    c.check(not missing, 'missing required parameter accepted')
    req.prepare(scheme='http')
    for p, g in zip(params, giv):
        n = p['name']
        w = text[n] if g else ('0' if 'default' in p else None)
        if p['in'] == 'query':
            got = dict(req.query).get(n)
        elif p['in'] == 'header':
            got = req.header.get(n)
        else:
            got = dict(parse_qsl(req.data or '', keep_blank_values=True)).get(n)
        c.eq(got, w, 'parameter %s' % n)
    c.eq(len(req.query), sum(1 for p, g in zip(params, giv) if p['in'] == 'query' and (g or 'default' in p)), 'number of query entries')
    c.state(giv, req_)


OTHER = 'http://x.io/other.json'


def defaults(c):
    """defaults that are lists or objects reach the request as they are written: order, repetition, nesting"""
    loc = c.free('in', ['query', 'path', 'header', 'formData', 'response'])
    how = c.free('written', ['inline', 'ref', 'ref chain', 'path level', 'path level ref', 'referred path item', 'inherited by two'])
    items = c.free('items', ['integer', 'string', 'boolean', 'array'])
    val = c.free('default', [[2, 1], [1, 2], [3, 2, 1, 0], [5], [2, 1, 2], [1, 1], [0, 0, 0]])
    conv = {'integer': lambda v: v, 'string': lambda v: 'abcdef'[v], 'boolean': lambda v: v % 2 == 0, 'array': lambda v: [v, v + 1]}[items]
    dv = [conv(v) for v in val]
    if items == 'boolean' and len(set(dv)) < len(dv) and len(set(val)) == len(val):
        raise Skip()
    it = {'type': items}
    if items == 'array':
        it = {'type': 'array', 'items': {'type': 'integer'}, 'collectionFormat': 'pipes'}
    cf = c.pick('collectionFormat', [None, 'ssv', 'multi'])
    if cf == 'multi' and loc not in ('query', 'formData') or cf and loc == 'response':
        raise Skip()
    arr = dict(type='array', items=it, default=dv)
    if cf:
        arr['collectionFormat'] = cf
    if loc == 'response' and how not in ('inline', 'ref', 'ref chain', 'referred path item'):
        raise Skip()
    d = doc(paths={}, parameters={}, responses={}, consumes=['application/x-www-form-urlencoded'])
    if loc == 'response':
        par = {'description': '', 'schema': {'type': 'object', 'properties': {'p': arr}}}
    else:
        par = P('p', loc, **arr)
    store = 'responses' if loc == 'response' else 'parameters'
    use = par
    if how in ('ref', 'path level ref'):
        d[store]['A'], use = par, {'$ref': '#/%s/A' % store}
    elif how == 'ref chain':
        d[store].update({'A': par, 'B': {'$ref': '#/%s/A' % store}})
        use = {'$ref': '#/%s/B' % store}
    o = mkop([], operationId='op')
    if loc == 'response':
        o['responses'] = {'200': use}
    elif how not in ('path level', 'path level ref', 'inherited by two'):
        o['parameters'] = [use]
    item = {'post': o}
    if how in ('path level', 'path level ref', 'inherited by two'):
        item['parameters'] = [use]
    if how == 'inherited by two':
        item['put'] = mkop([P('q')], operationId='second')
    docs = {'http://h.io/api/swagger.json': d}
    path = '/a/{p}' if loc == 'path' else '/a'
    if how == 'referred path item':
        docs[OTHER] = {'paths': {path: item}}
        item = {'$ref': OTHER + '#/paths/' + path.replace('/', '~1')}
    d['paths'][path] = item
    app = load_app(docs)
    app.prepare()
    seen = []
    for v in dv:
        if v not in seen:
            seen.append(v)
    for oid in ('op', 'second') if how == 'inherited by two' else ('op', 'op'):
        req, resp = app.op[oid]()
        req.prepare(scheme='http')
        if loc == 'response':
            show = lambda l: l
            resp.apply_with(status=200, raw='{}')
            got = plain(resp.data)['p']
        else:
            one = lambda v: '|'.join(str(x) for x in v) if isinstance(v, list) else str(v).lower() if isinstance(v, bool) else str(v)
            show = lambda l: [one(v) for v in l] if cf == 'multi' else [{'ssv': ' '}.get(cf, ',').join(one(v) for v in l)]
            got = {'query': lambda: [v for n, v in req.query if n == 'p'], 'header': lambda: [req.header.get('p')], 'path': lambda: [unquote(req.path[3:])],
                   'formData': lambda: [v for n, v in parse_qsl(req.data or '', keep_blank_values=True) if n == 'p']}[loc]()
        if seen != dv and got == show(seen):
            c.finding('repeated default', 'default %r in %s (%s) became %r' % (dv, loc, how, got))
        else:
            c.eq(got, show(dv), 'default %r of %s (%s)' % (dv, loc, how))
        c.step()
        c.state(loc, how, str(got))


SCENARIOS = [
    dict(name='defaults', fn=defaults, bound=dict(quick=1, thorough=1), space='list defaults (order, repetition, nested) x 4 item types x 5 places x 7 ways to declare them x collectionFormat'),
    dict(name='routing', fn=routing, bound=dict(quick=2, thorough=4),
         space='operations with 0..2 parameters: all location pairs, and all combinations of type, requiredness, default, argument, unknown name within the deviation bound'),
    dict(name='subsets', fn=optional_subsets, bound=0, space='5 parameters: all 2^10 subsets required x given'),
]
