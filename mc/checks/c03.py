import copy
import json
import posixpath

from six.moves.urllib.parse import urljoin, urlparse
from mc import engine
from mc.lib import mem_app, ROOT, request_view, plain, outcome, doc as mkdoc

ASSUMPTIONS = ['references are not cyclic here (C04) and documents are served by one getter (C06)',
               'a reference in a file lies below a URL with a folder, or at the root of the site']

SECTION = dict(schema='definitions', parameter='parameters', response='responses', path='paths')
URLS = ['http://h.io/api/b.json', 'http://h.io/c.json', 'http://h.io/api/deep/er/d.json', 'https://o.io/e.json']
HOW = ['inline', 'local', 'abs', 'rel', 'file', 'chain', 'abspath', 'dotrel', 'filechain']


def relative(frm, to):
    f, t = urlparse(frm), urlparse(to)
    if f[:2] != t[:2]:
        return None
    return posixpath.relpath(t.path, posixpath.dirname(f.path) or '/')


class Layout(object):
    def __init__(self, c):
        self.c = c
        self.docs = {ROOT: {}}
        self.n = 0
        self.limit = 3

    def put(self, url, kind, content_for):
        """store an object in `url`; content_for(url) builds it with references relative to that document"""
        self.n += 1
        name = 'N%d/~x' % self.n if self.n % 2 else 'N%d' % self.n
        # (a whole file may be an object with fields of the same name)
        sec = SECTION[kind] if '/w/' not in url else 'x-' + SECTION[kind]
        if kind == 'path':
            name = '/other%d' % self.n
        tgt = self.docs.setdefault(url, {})
        tgt.setdefault(sec, {})[name] = {}
        tgt[sec][name] = content_for(url)
        return '#/%s/%s' % (sec, name.replace('~', '~0').replace('/', '~1'))

    def slot(self, kind, here, build):
        """-> the object itself or a reference to it, to be written in document `here`"""
        c = self.c
        how = c.pick('%s%d in %s' % (kind, self.n, here.rsplit('/', 1)[-1]),
                     [h for h in HOW if kind != 'path' or h not in ('local', 'chain')])   # operation ids must stay unique
        self.n += 1
        if how == 'inline':
            return build(here)
        if how == 'local':
            return {'$ref': self.put(here, kind, build)}
        if how in ('file', 'filechain'):
            u = 'http://h.io/w/%s%d.json' % (kind, self.n)
            self.docs[u] = {}
            # what is written in a whole file may hold sections of its own
            self.docs[u].update(build(u))
            if how == 'filechain':
                self.n += 1
                u0, u = u, 'http://h.io/w/v/%s%d.json' % (kind, self.n)
                self.docs[u] = {'$ref': '../' + u0.rsplit('/', 1)[-1]}
            r = relative(here, u)
            return {'$ref': r if r is not None else u}
        url = c.pick('document', [u for u in URLS if u != here])
        frag = self.put(url, kind, build)
        if how == 'chain':
            # here -> local alias -> alias in another document -> the object
            u2 = 'http://h.io/chain/%d.json' % self.n
            a2 = self.put(u2, kind, lambda u: {'$ref': (relative(u, url) or url) + frag})
            a1 = self.put(here, kind, lambda u: {'$ref': (relative(here, u2) or u2) + a2})
            return {'$ref': a1}
        if how == 'abs':
            return {'$ref': url + frag}
        if how == 'abspath':
            if urlparse(url)[:2] != urlparse(here)[:2]:
                return {'$ref': url + frag}
            return {'$ref': urlparse(url).path + frag}
        r = relative(here, url)
        if r is None:
            return {'$ref': url + frag}
        return {'$ref': ('./' if how == 'dotrel' else '') + r + frag}


INNER = [
    lambda L, u, d: {'type': 'string', 'format': 'date'},
    lambda L, u, d: {'type': 'integer', 'minimum': 0, 'default': 0},
    lambda L, u, d: {'type': 'object', 'properties': {'x': L.slot('schema', u, leaf)}, 'required': ['x']},
    lambda L, u, d: {'type': 'array', 'items': L.slot('schema', u, leaf), 'maxItems': 2},
    lambda L, u, d: {'type': 'object', 'additionalProperties': L.slot('schema', u, leaf)},
    lambda L, u, d: {'allOf': [L.slot('schema', u, leafobj), {'properties': {'y': {'type': 'boolean', 'default': False}}}], 'type': 'object'},
]
VALUES = ['2001-02-03', 0, -1, [], ['2001-02-03'], ['x'], {}, {'x': '2001-02-03'}, {'x': 'nope'}, {'x': {'z': '2001-02-03'}}, {'y': True, 'z': '2001-02-03'}, [1, 2, 3], '',
          {'p': '2001-02-03'}, {'p': 1}, {'p': {'x': '2001-02-03'}}, {'p': {'x': 'nope'}}, {'p': ['2001-02-03']}, {'p': {'k': '2001-02-03'}}, {'p': {'k': 5}}, {'p': {'y': 'true', 'z': '2001-02-03'}}, {'p': {'y': True}}, {'p': -1}, {'p': 7}]


def leaf(u):
    return {'type': 'string', 'format': 'date'}


def leafobj(u):
    return {'type': 'object', 'properties': {'z': {'type': 'string', 'format': 'date'}}}


def make(c, L, form, inner):
    """a document with one path whose parts are all slots"""
    def deep(u):
        return {'type': 'object', 'properties': {'p': L.slot('schema', u, lambda v: INNER[inner](L, v, 0))}}

    def body(u):
        return {'name': 'b', 'in': 'body', 'required': True, 'schema': L.slot('schema', u, deep)}

    def query(u):
        return {'name': 'q', 'in': 'query', 'type': 'array', 'items': {'type': 'integer', 'maximum': 5}, 'collectionFormat': 'pipes', 'required': True}

    def header(u):
        return {'name': 'X-H', 'in': 'header', 'type': 'boolean', 'default': False}

    def response(u):
        return {'description': 'r', 'schema': L.slot('schema', u, deep), 'headers': {'X-N': {'type': 'integer', 'minimum': 0}}}

    def other(u):
        return {'description': 'o', 'schema': L.slot('schema', u, leaf)}

    def form_(u):
        return {'name': 'f', 'in': 'formData', 'type': 'string', 'maxLength': 2}

    def item(u):
        d = {'parameters': [L.slot('parameter', u, query)],
             'get': {'operationId': 'op', 'tags': ['t'], 'parameters': [L.slot('parameter', u, body), L.slot('parameter', u, header)] if form == 'body'
                     else [L.slot('parameter', u, form_), L.slot('parameter', u, header)],
                     'responses': {'200': L.slot('response', u, response), 'default': L.slot('response', u, other)}},
             'put': {'operationId': 'op2', 'responses': {'default': {'description': ''}}}}
        return d
    p = L.slot('path', ROOT, item)
    root = L.docs[ROOT]
    paths = {'/a/b': p}
    paths.update(root.pop('paths', {}))
    root.update(mkdoc(paths=paths, securityDefinitions={'k': {'type': 'apiKey', 'name': 'n', 'in': 'query'}}, security=[{'k': []}], consumes=['application/json', 'application/x-www-form-urlencoded']))
    return L.docs


class Inline(object):
    def __init__(self):
        self.docs = {ROOT: {}}

    def slot(self, kind, here, build):
        return build(here)


def behaviour(app, form):
    o = app.root.paths['/a/b'].get
    out = {}

    def call(k, **kw):
        def f():
            req, _ = o(**copy.deepcopy(kw))
            v = request_view(req)
            if isinstance(v['data'], str):
                try:
                    v['data'] = json.loads(v['data'])
                except ValueError:
                    pass
            return v
        out['call ' + k] = outcome(f)
    if form == 'body':
        for i, v in enumerate(VALUES):
            call('body %r' % (v,), b=v, q=[1])
        call('no body', q=[1])
        call('q', b={}, q=[1, 6])
        call('q2', b={}, q=[1, 2], **{'X-H': True})
        call('no q', b={})
    else:
        call('f', f='xx', q=[3, 4])
        call('f too long', f='xxx', q=[3, 4])
        call('none', q=[0])
        call('unknown', q=[0], b=1)
    for st in (200, 404):
        for v in VALUES if st == 200 else VALUES[:3]:
            def answer():
                req, r = o(**(dict(b={}, q=[1]) if form == 'body' else dict(q=[1])))
                r.apply_with(status=st, raw=json.dumps(v), header={'x-n': '3'})
                return plain(r.data), plain(r.header['X-N'])
            out['answer %d %r' % (st, v)] = outcome(answer)
    out['put'] = outcome(lambda: request_view(app.root.paths['/a/b'].put(q=[2])[0]))
    out['security'] = o.security
    out['type'] = [k for k in ('get', 'put', 'post') if getattr(app.root.paths['/a/b'], k)]
    return out


BASE = {}


def place(c):
    form = c.free('form', ['body', 'form'])
    inner = c.pick('schema', [2, 0, 1, 3, 4, 5]) if form == 'body' else 0
    key = (form, inner)
    if key not in BASE:
        L0 = Inline()
        BASE[key] = behaviour(mem_app(make(c, L0, form, inner)), form)
    L = Layout(c)
    docs = make(c, L, form, inner)
    src = copy.deepcopy(docs)
    app = mem_app(docs)
    c.step(2)
    b = behaviour(app, form)
    for k, w in BASE[key].items():
        c.check(b[k] == w, '%s: %r with references, %r with everything in place; documents: %s' % (k, b[k], w, json.dumps(src)), 'differs')
    c.state(sorted(src), form, inner)


SCENARIOS = [dict(name='placement', fn=place, bound=dict(quick=2, thorough=3),
                  space='one path with 2 operations: path item, parameters, responses, schemas (6 shapes, nested) each inline or behind one of 8 kinds of reference into 5 documents; all placements with at most `bound` departures from inline')]
