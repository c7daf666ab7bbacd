import json

from mc import engine
from mc.engine import Skip
from mc.lib import P, mem_app, doc, op as mkop, same, plain
from pyswagger.utils import CaseInsensitiveDict

ASSUMPTIONS = ['one answer per response object (reuse after reset is C21)', 'headers are applied after or together with the status', 'text/plain bodies are UTF-8']
DATE = ('Date', '2001-02-03')
# schema -> [(content type, body, data)]
J = 'application/json'
SCHEMAS = {
    None: [(J, '{"a": 1}', None), ('text/plain', 'zz', None), ('image/png', b'\x89PNG', None), (J, 'no json', None), (J, '', None)],
    'object': [(J, u'{"d": "2001-02-03", "s": "\u00e9", "n": 0}', {'d': DATE, 's': u'\u00e9', 'n': 0}), (J, '{}', {})],
    'array': [(J, '[1, 0, -5]', [1, 0, -5]), (J, '[]', [])],
    'string': [(J, '"x"', 'x'), ('text/plain', u'pl\u00e4in', u'pl\u00e4in'), ('text/plain', '{"a": 1}', '{"a": 1}'), ('text/plain', '', '')],
    'integer': [(J, '0', 0), ('text/plain', '12', 12)],
    'boolean': [(J, 'false', False), ('text/plain', 'false', False)],
    'date': [('text/plain', '2001-02-03', DATE), (J, '"2001-02-03"', DATE)],
    'ref': [(J, '{"k": [{"d": "2001-02-03"}]}', {'k': [{'d': DATE}]})],
}
DEFS = {'M': {'type': 'object', 'properties': {'d': {'type': 'string', 'format': 'date'}, 's': {'type': 'string'}, 'n': {'type': 'integer'}}},
        'Map': {'type': 'object', 'additionalProperties': {'type': 'array', 'items': {'$ref': '#/definitions/M'}}}}


def schema(k):
    return {'object': DEFS['M'], 'array': {'type': 'array', 'items': {'type': 'integer'}}, 'ref': {'$ref': '#/definitions/Map'},
            'date': {'type': 'string', 'format': 'date'}}.get(k) or {'type': k}


HDECL = {'X-Int': {'type': 'integer'}, 'x-list': {'type': 'array', 'items': {'type': 'integer'}, 'collectionFormat': 'pipes'}, 'X-Day': {'type': 'string', 'format': 'date'},
         'X-On': {'type': 'boolean'}, 'X-Num': {'type': 'number'}}
HVALS = {'x-int': [('5', 5), ('0', 0)], 'x-list': [('1|2', [1, 2]), ('7', [7])], 'x-day': [('2001-02-03', DATE)], 'x-on': [('false', False), ('true', True)], 'x-num': [('1.5', 1.5)],
         'x-other': [('5', '5'), ('', '')], 'set-cookie': [('a=1', 'a=1'), ('b=2; Path=/', 'b=2; Path=/')]}


def respell(n, how):
    return {'as declared': n, 'lower': n.lower(), 'upper': n.upper()}[how]


def caseless(pairs):
    d = CaseInsensitiveDict()
    for k, v in pairs:
        d[k] = v
    return d


def answer(c):
    declared = c.subset('declared', ['200', '404', 'default'])
    status = c.free('status', [200, 404, 500])
    kinds = {}
    for d in declared:
        kinds[d] = c.pick('schema of %s' % d, {'200': ['object', 'array', 'string', None, 'integer', 'boolean', 'date', 'ref'], '404': ['array', None, 'object'], 'default': ['string', 'ref', None]}[d])
    used = str(status) if str(status) in declared else 'default' if 'default' in declared else None
    hd = {}
    for d in declared:
        names = c.pick('headers of %s' % d, [['X-Int', 'x-list'], [], ['X-Day', 'X-On', 'X-Num'], sorted(HDECL)]) if d == used else [['X-On'], ['X-Int']][d == 'default']
        hd[d] = names
    where = c.pick('written', ['inline', 'in responses', 'chain'])
    responses, shared = {}, {}
    for d in declared:
        r = {'description': d}
        if kinds[d]:
            r['schema'] = schema(kinds[d])
        if hd[d]:
            r['headers'] = dict((n, HDECL[n]) for n in hd[d])
        if where != 'inline':
            shared['R' + d] = r
            r = {'$ref': '#/responses/R' + d}
            if where == 'chain':
                shared['C' + d] = r
                r = {'$ref': '#/responses/C' + d}
        responses[d] = r
    produces = c.pick('produces', [None, ['text/plain'], ['application/json', 'image/png']])
    app = mem_app(doc(definitions=DEFS, responses=shared, paths={'/a': {'get': mkop([], responses, operationId='op', **(dict(produces=produces) if produces else {}))}}))
    kind = kinds.get(used)
    ctype, body, data = c.pick('body', SCHEMAS[kind])
    form = c.pick('content type written', ['plain', 'absent', 'with parameters', 'other case', 'text/json', 'unknown'])
    raw_only = c.flag('raw body only')
    if isinstance(body, str) and c.pick('body is', ['text', 'bytes']) == 'bytes':
        body = body.encode('utf-8')
    known = True
    if form == 'absent':
        if ctype != J:
            raise Skip()
        ct = None
    elif form == 'with parameters':
        ct = ctype + '; charset=utf-8'
    elif form == 'other case':
        ct = ctype.upper() + ' ; Charset=UTF-8'
    elif form == 'text/json':
        if ctype != J:
            raise Skip()
        ct = 'text/json'
    elif form == 'unknown':
        ct, known = 'application/x-unknown', False
    else:
        ct = ctype
    hnames = c.pick('received headers', [['X-Int', 'x-list'], [], ['X-Int', 'X-Other', 'X-Int'], ['x-list', 'Set-Cookie', 'Set-Cookie', 'X-On'], ['X-Day', 'X-Num', 'X-Day'], ['X-On', 'X-Other', 'X-On', 'X-Num', 'x-list', 'x-list']])
    spell = c.pick('names in', ['as declared', 'lower', 'upper', 'mixed'])
    pairs, want, seen = [], [], {}
    for i, n in enumerate(hnames):
        vs = HVALS[n.lower()]
        t, v = vs[seen.get(n, 0) % len(vs)]
        seen[n] = seen.get(n, 0) + 1
        pairs.append((respell(n, spell if spell != 'mixed' else ['lower', 'upper'][i % 2]), t))
        decl = [x.lower() for x in hd.get(used, [])]
        want.append((n.lower(), v if n.lower() in decl else t))
    if ct:
        pairs.insert(c.pick('content type at', [0, len(pairs)]), (c.pick('spelled', ['Content-Type', 'content-type', 'CONTENT-TYPE']), ct))
    container = c.pick('headers given as', ['list', 'dict', 'caseless', 'tuple'])
    if container in ('dict', 'caseless') and len(set(k.lower() for k, v in pairs)) < len(pairs):
        raise Skip()
    mk = {'list': list, 'dict': dict, 'tuple': tuple, 'caseless': caseless}[container]
    order = c.pick('applied', ['at once', 'status, headers+body', 'status+headers, body', 'status, headers, body', 'status, one header each, body', 'status+body, headers', 'keywords in one call, headers split'])
    st = c.pick('status as', [int, str])(status)
    _, resp = app.op['op']()
    if raw_only:
        resp.raw_body_only = True
    if order == 'status+body, headers':
        if form != 'absent':
            raise Skip()
    calls = {'at once': [dict(status=st, raw=body, header=mk(pairs))], 'status, headers+body': [dict(status=st), dict(header=mk(pairs), raw=body)],
             'status+headers, body': [dict(status=st, header=mk(pairs)), dict(raw=body)], 'status, headers, body': [dict(status=st), dict(header=mk(pairs)), dict(raw=body)],
             'status, one header each, body': [dict(status=st)] + [dict(header=mk([p])) for p in pairs] + [dict(raw=body)],
             'status+body, headers': [dict(status=st, raw=body), dict(header=mk(pairs))],
             'keywords in one call, headers split': [dict(status=st, header=mk(pairs[:1])), dict(header=mk(pairs[1:]), raw=body)]}[order]
    decodes = kind is not None and not raw_only
    try:
        for kw in calls:
            c.step()
            r = resp.apply_with(**kw)
            c.check(r is resp, 'apply_with does not return the response')
    except Exception as e:      # noqa
        c.check(decodes and not known, 'refused: %r' % e, 'refused')
        c.state('refused')
        return
    c.check(known or not decodes, 'unknown content type was decoded as %r' % (resp.data,), 'unknown type')
    c.eq(resp.status, st, 'status')
    c.check(same(resp.raw, body), 'raw is %r, received %r' % (resp.raw, body), 'raw')
    c.check(same(plain(resp.data), data if decodes else None), 'data is %r, expected %r' % (plain(resp.data), data if decodes else None), 'data')
    wanth = {}
    for n, v in want:
        wanth.setdefault(n, []).append(v)
    if ct:
        wanth['content-type'] = [ct]
    got = dict((k.lower(), plain(v)) for k, v in resp.header.items())
    c.check(len(got) == len(list(resp.header.items())), 'a header appears twice: %r' % list(resp.header.items()))
    c.check(same(got, wanth), 'headers %r, expected %r' % (got, wanth), 'headers')
    for k, v in pairs:
        for sp in (k, k.lower(), k.upper()):
            c.check(sp in resp.header and same(plain(resp.header[sp]), wanth[k.lower()]), 'header by %r' % sp)
    c.state(used, kind, repr(got), repr(resp.data))


def before_status(c):
    declared = c.subset('declared', ['200', 'default'])
    s = c.free('schema', [None, {'type': 'string'}])
    raw = c.free('raw', ['"x"', b'"x"', '', b''])
    only = c.flag('raw body only', free=True)
    hdr = c.free('headers', [None, {'Content-Type': 'application/json'}])
    split = c.flag('split', free=True)
    app = mem_app(doc(paths={'/a': {'get': mkop([], dict((d, dict({'description': ''}, **({'schema': s} if s else {}))) for d in declared), operationId='op')}}))
    _, resp = app.op['op']()
    if only:
        resp.raw_body_only = True
    if split and hdr:
        resp.apply_with(header=hdr)
        hdr = None
    try:
        resp.apply_with(raw=raw, header=hdr)
    except Exception:   # noqa
        c.state('refused')
    else:
        c.fail('body before status accepted', 'before status')
    c.check(resp.data is None, 'data %r' % resp.data)
    # still usable
    if not raw:
        return
    resp.apply_with(status=200, raw=raw)
    c.eq((resp.status, resp.raw), (200, raw), 'afterwards')
    c.eq(resp.data, 'x' if s and declared and not only else None, 'data afterwards')


SCENARIOS = [
    dict(name='answer', fn=answer, bound=dict(quick=2, thorough=3), space='subsets of declared responses x status; up to `bound` of schemas, bodies (text/bytes), content type spelling, headers declared/received/spelling/container, order and splitting of apply calls, raw only, references'),
    dict(name='before status', fn=before_status, bound=0, space='body given before any status'),
]
