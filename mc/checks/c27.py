"""C27: inheritance from document and path item"""
import json

from mc import engine
from mc.lib import mem_app, doc, op as mkop, P, probe
from pyswagger import Security

ASSUMPTIONS = ['parameters are identified by their name alone (pinned by the tests of pyswagger)', 'empty consumes/produces/schemes lists count as not declared']
J, X, Y = 'application/json', 'application/x-1', 'application/x-2'
DEFS = dict((k, {'type': 'apiKey', 'name': 'X-' + k, 'in': 'header'}) for k in 'dgp')


def getter_doc(c, doc_kw, path_params, ops, where):
    """paths /a (get, put, post), /b (get) with the given operations, placed in line or behind $ref"""
    item = dict(ops)
    if path_params is not None:
        item['parameters'] = path_params
    other = {'get': mkop([P('bb', 'body', schema={'type': 'string'})], operationId='b_get')}
    d = doc(parameters={'Q': P('q', default='ref-doc')}, securityDefinitions=DEFS, **doc_kw)
    docs = {'http://h.io/api/swagger.json': d}
    if where == 'in line':
        d['paths'] = {'/a': item, '/b': other}
    elif where == 'other document':
        d['paths'] = {'/a': {'$ref': 'http://h.io/api/p.json#/a'}, '/b': other}
        docs['http://h.io/api/p.json'] = {'a': item, 'parameters': {'Q': P('q', default='ref-other')}}
    else:
        d['paths'] = {'/b': other, '/a': item}
    return docs


def observe(app, oid, sec, kw=None):
    """what the operation inherited, as its requests show it"""
    o = app.op[oid]
    pair = o(**(kw or {}))
    out = {}
    seen = []
    for s in ('http', 'https', 'ws', 'wss'):
        pair[0].scheme = s
        try:
            req = probe({'http', 'https', 'ws', 'wss'}, security=sec).request(pair)
        except Exception:   # noqa
            continue
        seen.append(s)
    out['schemes'] = seen
    pair[0].scheme = None
    req = probe({'http', 'https', 'ws', 'wss'}, security=sec).request(pair)
    h = dict(req.header.items())
    out['consumes'] = h.get('Content-Type')
    out['produces'] = h.get('Accept')
    out['security'] = sorted(k for k in h if k.startswith('X-'))
    out['query'] = [tuple(x) for x in req.query]
    return out


def accepted(app, oid, cand):
    pair = app.op[oid](bb='x')
    out = []
    for m in cand:
        pair[0].consume(m)
        try:
            probe({'http', 'https', 'ws', 'wss'}).request(pair)
        except Exception as e:  # noqa
            if 'codec' not in str(e):
                continue
        out.append(m)
    return out


CHOICES = {
    'consumes': [None, [], [X], [Y, J], [J]], 'produces': [None, [], [X], [Y, X]], 'schemes': [None, [], ['ws'], ['https', 'wss'], ['http']],
    'security': [None, [], [{'d': []}], [{'g': []}, {'p': []}], [{'d': [], 'p': []}]],
}


def settings(c):
    """consumes, produces, schemes and security of the document and of three sibling operations"""
    main = c.free('setting', sorted(CHOICES))
    where = c.pick('placed', ['in line', 'other document', 'after'])
    dk, ops, decl = {}, {}, {}
    for level in ('document', 'get', 'put', 'post'):
        decl[level] = {}
        for s in sorted(CHOICES):
            ch = CHOICES[s]
            if s == main:
                v = c.free('%s of %s' % (s, level), ch if level not in ('put', 'post') else ch[:3] if level == 'post' else ch[:4])
            elif level in ('put', 'post') and engine.TIER != 'thorough' or s == 'security' and main != 'schemes' and level != 'document':
                v = None
            else:
                v = c.pick('%s of %s' % (s, level), ch[:3])
            decl[level][s] = v
    for s, v in decl['document'].items():
        if v is not None:
            dk[s] = v
    for m in ('get', 'put', 'post'):
        ops[m] = mkop([P('bb', 'body', schema={'type': 'string'})], operationId=m, **dict((s, v) for s, v in decl[m].items() if v is not None))
    from pyswagger.primitives import MimeCodec

    class Any(object):
        def marshal(self, value, **kw):
            return value
        unmarshal = marshal
    codec = MimeCodec()
    codec.register(X, Any())
    codec.register(Y, Any())
    if 'schemes' not in dk:
        dk['schemes'] = None
    app = mem_app(getter_doc(c, dk, None, ops, where), mime_codec=codec)
    sec = Security(app)
    for k in 'dgp':
        sec.update_with(k, k)
    for oid in ('get', 'put', 'post', 'b_get'):
        mine = decl.get(oid, {})
        eff = {}
        for s in CHOICES:
            own, glob = mine.get(s), decl['document'][s]
            eff[s] = own if (own is not None if s == 'security' else own) else glob or []
        got = observe(app, oid, sec, dict(bb='x'))
        c.step()
        c.eq(got['consumes'], (eff['consumes'] or [J])[0], '%s: content type' % oid, 'consumes')
        c.eq(got['produces'], (eff['produces'] or [None])[0], '%s: accept' % oid, 'produces')
        c.eq(got['schemes'], [s for s in ('http', 'https', 'ws', 'wss') if s in (eff['schemes'] or ['http'])], '%s: schemes' % oid, 'schemes')
        c.eq(got['security'], sorted(set('X-' + k for e in eff['security'] for k in e)), '%s: security' % oid, 'security')
        if main == 'consumes':
            c.eq(accepted(app, oid, [J, X, Y]), [m for m in (J, X, Y) if not eff['consumes'] or m in eff['consumes']], '%s: consumes' % oid, 'consumes')
        c.state(oid, sorted(got.items(), key=str))


PARAMS = {
    'q': P('q', default='path'), 'r': P('r', default='path-r'), 'x': P('x', 'path', default='px'), 'h': P('h', 'header', default='ph'), 'ref': {'$ref': '#/parameters/Q'},
}


def parameters(c):
    """parameters of the path item and of two sibling operations"""
    where = c.pick('placed', ['in line', 'other document', 'after'])
    lst = [None, [], ['q'], ['q', 'r'], ['r', 'q'], ['x', 'q'], ['h', 'r', 'q'], ['ref'], ['ref', 'r'], ['r', 'ref', 'x']]
    pl = c.free('path item', lst)
    decl = {'get': c.free('get', [None, [], ['q'], ['r'], ['q', 'r'], ['ref'], ['h'], ['n'], ['n', 'q']]), 'put': c.free('put', [None, [], ['q'], ['n'], ['ref'], ['r', 'h']]), 'post': None}
    own = {'q': P('q', type_='integer', default=5), 'r': P('r', default='own-r'), 'h': P('h', 'header', default='own-h'), 'n': P('n', default='new'), 'ref': {'$ref': '#/parameters/Q'}}
    refv = 'ref-other' if where == 'other document' else 'ref-doc'
    ops = {}
    for m in ('get', 'put', 'post'):
        ps = None if decl[m] is None else [own[k] for k in decl[m]]
        ops[m] = dict(mkop(None, operationId=m), **({} if ps is None else {'parameters': ps}))
    app = mem_app(getter_doc(c, {}, None if pl is None else [PARAMS[k] for k in pl], ops, where))
    name = lambda k: 'q' if k == 'ref' else k
    val = {'q': 'path', 'r': 'path-r', 'x': 'px', 'h': 'ph', 'ref': refv}
    oval = {'q': '5', 'r': 'own-r', 'h': 'own-h', 'n': 'new', 'ref': refv}
    for oid in ('get', 'put', 'post', 'get'):
        eff = dict((name(k), val[k]) for k in pl or [])
        eff.update((name(k), oval[k]) for k in decl[oid] or [])
        req, _ = app.op[oid]()
        req.prepare(scheme='http')
        c.step()
        c.eq(sorted(req.query), sorted((k, v) for k, v in eff.items() if k in ('q', 'r', 'n')), '%s: query' % oid, 'query')
        c.eq(dict(req.header.items()).get('h'), eff.get('h'), '%s: header' % oid)
        c.eq(req._p['path'], dict((k, v) for k, v in eff.items() if k == 'x'), '%s: path' % oid)
        for k in ('q', 'r', 'h', 'n', 'x', 'zz'):
            try:
                req, _ = app.op[oid](**{k: '7'})
            except ValueError:
                c.check(k not in eff, '%s: %s refused' % (oid, k), 'refused')
                continue
            c.check(k in eff, '%s: %s accepted' % (oid, k), 'accepted')
            req.prepare(scheme='http')
            where_ = {'h': req.header.get('h'), 'x': req._p['path'].get('x')}.get(k, dict(req.query).get(k))
            c.eq(where_, '7', '%s: argument %s' % (oid, k))
        # the declaration in force: integer of the operation, or text of the path item
        if 'q' in eff:
            typed = 'q' in (decl[oid] or [])
            try:
                app.op[oid](q='abc')
                ok = True
            except Exception:   # noqa
                ok = False
            c.eq(ok, not typed, '%s: declaration of q' % oid, 'declaration')
    req, _ = app.op['b_get'](bb='x')
    c.eq(req.query, [], 'parameters of another path')
    c.state(pl, decl)


SCENARIOS = [
    dict(name='settings', fn=settings, bound=dict(quick=1, thorough=2), space='each of 4 settings at document level and 3 sibling operations (5x5x5x3), plus up to `bound` declarations of other settings or placements'),
    dict(name='parameters', fn=parameters, bound=dict(quick=1, thorough=1), space='10 parameter lists of the path item x 9 x 6 lists of sibling operations x placement'),
]
