"""C19: credentials"""
import base64

import six

from mc import engine
from mc.lib import mem_app, doc, op as mkop, P, probe
from pyswagger import Security

ASSUMPTIONS = ['basic credentials are latin-1 text; the name of the user has no colon', 'an oauth2 token is sent as header access_token',
               'alternatives of a security list: all known credentials are applied, as many as are known', 'two schemes never use the same header or query name']
DEFS = {
    'bas': {'type': 'basic'}, 'hdr': {'type': 'apiKey', 'name': 'X-Key', 'in': 'header'}, 'qry': {'type': 'apiKey', 'name': 'api key', 'in': 'query'},
    'oau': {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'http://h.io/o', 'scopes': {'r': 'read'}}, 'qr2': {'type': 'apiKey', 'name': 'k', 'in': 'query'},
}
CRED = {'bas': [('u', 'p'), ('user', 'a:b c'), ('', ''), (u'\xe9', '%')], 'hdr': ['key1', 'k=2; x'], 'qry': ['q1', 'q 2&x'], 'oau': ['tok', 'tok/2=='], 'qr2': ['z', '0']}
NAMES = ['bas', 'hdr', 'qry', 'oau', 'qr2']


def expect(names, known):
    """(headers, query) that the security adds"""
    h, q = {}, {}
    for n in names:
        if n not in known:
            continue
        v = known[n]
        if n == 'bas':
            h['authorization'] = 'Basic ' + base64.b64encode((u'%s:%s' % v).encode('latin-1')).decode('ascii')
        elif n == 'hdr':
            h['x-key'] = v
        elif n == 'oau':
            h['access_token'] = v
        else:
            q[DEFS[n]['name']] = v
    return h, q


def required(own, docl):
    use = docl if own is None else own
    return [k for alt in use or [] for k in alt]


def judge(c, what, req, want, args_q=(), args_h=None, strict_order=True):
    h, q = want
    eh = dict(args_h or {})
    eh.update(h)
    got = dict((k.lower(), v) for k, v in req.header.items())
    for k in ('content-type', 'accept'):
        got.pop(k, None)
    c.eq(got, eh, '%s: headers' % what, 'headers')
    eq = [(n, v) for n, v in args_q if n not in q]
    gq = [tuple(x) for x in req.query]
    c.eq([x for x in gq if x[0] not in q], eq, '%s: query' % what, 'query')
    c.eq(sorted(x for x in gq if x[0] in q), sorted(q.items()), '%s: credentials in the query' % what, 'query credentials')


def requirements(c):
    """all requirement sets x known credentials; twice on one pair; a sibling with other requirements"""
    own = c.free('operation', ['absent', 'empty', 'some'])
    glob = c.free('document', ['absent', 'empty', 'some'])
    own_l = None if own == 'absent' else []
    doc_l = None if glob == 'absent' else []
    shape = c.pick('shape', ['alternatives', 'together', 'with {}', 'mixed'])

    def build(names):
        e = [dict([(n, ['r'] if n == 'oau' else [])]) for n in names]
        if shape == 'together':
            d = {}
            for x in e:
                d.update(x)
            return [d]
        if shape == 'with {}':
            return [{}] + e
        if shape == 'mixed' and len(e) > 1:
            d = dict(e[0])
            d.update(e[1])
            return [d] + e[1:]
        return e
    if own == 'some':
        own_l = build(c.subset('own', NAMES) or ['bas'])
    if glob == 'some':
        doc_l = build(c.subset('global', NAMES) if own != 'some' else c.pick('global', [['hdr'], ['bas', 'qry'], ['oau']]))
    known = dict((n, CRED[n][0]) for n in (c.subset('known', NAMES) if own == 'some' and glob == 'absent' or own == 'absent' and glob == 'some' else c.pick('known', [NAMES, ['hdr'], []])))
    other = c.pick('path', ['plain', 'referred', 'parameters'])
    ps = [P('q'), P('h', 'header')] if other == 'parameters' else []
    okw = {} if own_l is None else dict(security=own_l)
    d = doc(securityDefinitions=DEFS, security=doc_l, paths={'/a': {'get': mkop(ps, operationId='op', **okw), 'put': mkop(operationId='sib'), 'delete': mkop(operationId='none', security=[])}})
    if other == 'referred':
        d['paths'] = {'/a': {'$ref': 'http://x.io/p.json#/a'}}
    docs = {'http://h.io/api/swagger.json': d, 'http://x.io/p.json': {'a': {'get': mkop(ps, operationId='op', **okw), 'put': mkop(operationId='sib'), 'delete': mkop(operationId='none', security=[])}}}
    app = mem_app(docs)
    sec = Security(app)
    for n, v in known.items():
        sec.update_with(n, v)
    cl = probe(security=sec)
    kw = dict(q='1', h='2') if ps else {}
    for i in range(2):
        for name, names in (('op', required(own_l, doc_l)), ('sib', required(None, doc_l)), ('none', [])):
            a = kw if name == 'op' else {}
            pair = app.op[name](**a)
            for again in range(2):
                req = cl.request(pair)
                c.step()
                judge(c, '%s sent %d times' % (name, again + 1), req, expect(names, known), [('q', '1')] if a else [], {'h': '2'} if a else {})
            if i == 0 and name == 'op':
                # a client without security sends none, even from the same pair
                judge(c, 'no security', probe().request(pair), expect([], {}), [('q', '1')] if a else [], {'h': '2'} if a else {})
    c.state(sorted(required(own_l, doc_l)), sorted(known))


def history(c):
    """histories of update_with and sends on two pairs, with two Security objects of one App"""
    depth = 4 if engine.TIER == 'thorough' else 3
    d = doc(securityDefinitions=DEFS, security=[{'hdr': []}, {'oau': []}], paths={
        '/a': {'get': mkop([P('X-Key', 'header'), P('api key'), P('k')], operationId='a', security=[{'bas': [], 'qry': []}, {'qr2': []}]),
               'put': mkop([P('h', 'header'), P('k', type_='array', items={'type': 'string'}, collectionFormat='multi')], operationId='b')}})
    app = mem_app(d)
    secs = [Security(app), Security(app)]
    cls = [probe(security=secs[0]), probe(security=secs[1])]
    known = [{}, {}]
    args = dict(a={'X-Key': 'mine', 'k': 'my k', 'api key': 'zz'}, b=dict(h='hh', k=['1', '2']))
    pairs = dict((n, app.op[n](**args[n])) for n in 'ab')
    qargs = dict(a=[('X-Key', None), ('api key', 'zz'), ('k', 'my k')][1:], b=[('k', '1'), ('k', '2')])
    hargs = dict(a={'x-key': 'mine'}, b={'h': 'hh'})
    names = dict(a=['bas', 'qry', 'qr2'], b=['hdr', 'oau'])
    acts = [None] + [('update', n, i) for n in NAMES for i in (0, 1)] + [('send', w, n) for w in (0, 1) for n in 'ab'] + [('fresh', n) for n in 'ab'] + [('update2', n) for n in ('bas', 'hdr', 'qr2')]
    if engine.TIER != 'thorough':
        acts = [a for a in acts if a is None or a[:2] not in (('update', 'oau'), ('update', 'qr2')) or a[2] == 0]

    def send(w, n, pair):
        req = cls[w].request(pair)
        c.step()
        judge(c, 'send of %s by client %d' % (n, w), req, expect(names[n], known[w]), qargs[n], hargs[n])

    for i in range(depth):
        a = c.free('action %d' % i, acts)
        if a is None:
            break
        if a[0] == 'update':
            v = CRED[a[1]][a[2]]
            secs[0].update_with(a[1], v)
            known[0][a[1]] = v
        elif a[0] == 'update2':
            v = CRED[a[1]][1]
            secs[1].update_with(a[1], v)
            known[1][a[1]] = v
        elif a[0] == 'send':
            send(a[1], a[2], pairs[a[2]])
        else:
            send(0, a[1], app.op[a[1]](**args[a[1]]))
    for w in (0, 1):
        for n in 'ab':
            send(w, n, pairs[n])
            send(w, n, app.op[n](**args[n]))
    c.state(sorted(known[0].items()), sorted(known[1].items()))


def values(c):
    """each scheme alone with every credential; definitions changing place and name; unknown names refused"""
    n = c.free('scheme', NAMES)
    v = c.free('credential', CRED[n] + ([(u'\xe9\xff', u'p\xa0'), ('a', ''), ['l', 'ist']] if n == 'bas' else ['', u'\u6f22', 'a,b', 'x=y', ' ']))
    first = c.free('before', CRED[n][:2] + [None])
    defs = dict((k, dict(x)) for k, x in DEFS.items())
    if n in ('hdr', 'qry', 'qr2'):
        defs[n]['in'] = c.pick('in', [defs[n]['in'], 'header', 'query'])
        defs[n]['name'] = c.pick('name', [defs[n]['name'], 'Authorization', 'access_token', 'a-b_c', 'K'])
    app = mem_app(doc(securityDefinitions=defs, paths={'/a': {'get': mkop(operationId='op', security=[{n: []}])}}))
    sec = Security(app)
    if first is not None:
        sec.update_with(n, first)
    sec.update_with(n, v)
    for bad in ('nope', n.upper(), '', n + ' '):
        try:
            sec.update_with(bad, v)
        except ValueError:
            continue
        c.fail('unknown name %r accepted' % bad)
    req = probe(security=sec).request(app.op['op']())
    h = {}
    q = []
    if n == 'bas':
        h = {'authorization': 'Basic ' + base64.b64encode((u'%s:%s' % tuple(v)).encode('latin-1')).decode('ascii')}
    elif n == 'oau':
        h = {'access_token': v}
    elif defs[n]['in'] == 'header':
        h = {defs[n]['name'].lower(): v}
    else:
        q = [(defs[n]['name'], v)]
    c.eq(dict((k.lower(), x) for k, x in req.header.items()), h, 'headers')
    c.eq([tuple(x) for x in req.query], q, 'query')
    c.state(h, q)


def basic(c):
    """every latin-1 character at every alignment of the base64 groups"""
    user = c.free('user', [u'', u'a', u'ab', u'abc'])
    app = mem_app(doc(securityDefinitions=DEFS, paths={'/a': {'get': mkop(operationId='op', security=[{'bas': []}])}}))
    sec = Security(app)
    for n in range(256):
        for tail in (u'', u'~', u'\xff\xfe'):
            pw = six.unichr(n) + tail
            sec.update_with('bas', (user, pw))
            req = probe(security=sec).request(app.op['op']())
            c.eq(dict((k.lower(), x) for k, x in req.header.items()),
                 {'authorization': 'Basic ' + base64.b64encode((u'%s:%s' % (user, pw)).encode('latin-1')).decode('ascii')}, 'headers for %r' % pw)
            c.state((user, pw))


SCENARIOS = [
    dict(name='requirements', fn=requirements, bound=dict(quick=1, thorough=2), space='requirements at operation and document level (subsets of 5 schemes) x known credentials x shape of the list, three operations, each sent twice'),
    dict(name='history', fn=history, bound=0, space='all histories of updates and sends up to depth 3 (4) with two Security objects and two pairs'),
    dict(name='values', fn=values, bound=2, space='5 schemes x credentials x place and name of keys'),
    dict(name='basic', fn=basic, bound=0, space='basic credentials: every latin-1 character at every alignment'),
]
