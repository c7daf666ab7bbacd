"""document builders and drivers shared by the scenarios (public API only)"""
from __future__ import print_function
import copy
import io
import json

import six
from pyswagger import App, Security
from pyswagger.resolve import Resolver
from pyswagger.getter import SimpleGetter

ROOT = 'http://h.io/api/swagger.json'


def getter_for(docs, log=None, faults=None):
    """getter serving `docs` (url -> document) from memory"""
    class G(SimpleGetter):
        def load(self, path):
            if log is not None:
                log.append(path)
            if faults is not None:
                faults(path)
            if path not in docs:
                raise IOError('404 ' + path)
            d = docs[path]
            return d if isinstance(d, (six.string_types, six.binary_type)) else json.dumps(d)
    return G


def load_app(docs, root=ROOT, log=None, faults=None, **kw):
    if 'swagger' in docs or 'swaggerVersion' in docs:
        docs = {root: docs}
    return App.load(root, resolver=Resolver(default_getter=getter_for(docs, log, faults)), **kw)


def mem_app(docs, root=ROOT, strict=True, log=None, faults=None, **kw):
    app = load_app(docs, root, log, faults, **kw)
    app.prepare(strict=strict)
    return app


def doc(**kw):
    d = {'swagger': '2.0', 'info': {'title': 't', 'version': '1'}, 'host': 'h.io', 'basePath': '/v1',
         'schemes': ['http'], 'paths': {}}
    d.update(kw)
    return dict((k, v) for k, v in d.items() if v is not None)


def op(params=None, responses=None, **kw):
    d = {'responses': responses or {'200': {'description': ''}}}
    if params:
        d['parameters'] = params
    d.update(kw)
    return d


def one_op(params=None, responses=None, method='get', path='/a', app_kw=None, strict=True, docs=None, **kw):
    """app with a single operation reachable as app.op['op']"""
    opkw = dict((k, kw.pop(k)) for k in list(kw) if k in ('consumes', 'produces', 'security', 'schemes', 'tags'))
    d = doc(paths={path: {method: op(params, responses, operationId='op', **opkw)}}, **kw)
    alld = {ROOT: d}
    alld.update(docs or {})
    return mem_app(alld, strict=strict, **(app_kw or {}))


def P(name, in_='query', type_='string', **kw):
    d = {'name': name, 'in': in_}
    if in_ == 'body':
        d['schema'] = kw.pop('schema')
    else:
        d['type'] = type_
    if in_ == 'path':
        d['required'] = True
    d.update(kw)
    return d


def outcome(f, *a, **k):
    """('ok', value) or ('err', exception class name)"""
    try:
        return ('ok', f(*a, **k))
    except Exception as e:      # noqa
        return ('err', type(e).__name__)


def plain(v):
    """typed value -> comparable plain value (type name kept for wrappers)"""
    n = type(v).__name__
    if v is None or isinstance(v, (bool, int, float, six.text_type, bytes)):
        return v
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple, set)):
        return [plain(x) for x in v]
    if hasattr(v, 'v'):
        return (n, str(v.v))
    if hasattr(v, 'filename'):
        return (n, v.filename)
    return repr(v)


def same(a, b):
    """equality that does not confuse True with 1 or 1 with 1.0"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, float) != isinstance(b, float):
        return False
    return a == b


def request_view(req, scheme='http', **kw):
    """everything a client would put on the wire"""
    req.prepare(scheme=scheme, **kw)
    data = req.data
    return dict(method=req.method, url=req.url, path=req.path, query=[tuple(x) for x in req.query],
                header=dict((k.lower(), v) for k, v in req.header.items()),
                data=data if data is None or isinstance(data, (six.text_type, bytes)) else plain(data),
                files=sorted(req.files))


class FakeFile(io.BytesIO):
    pass


def probe(schemes=('http', 'https'), security=None):
    """the client of the documentation: prepares, but sends nothing"""
    from pyswagger.core import BaseClient

    class Probe(BaseClient):
        __schemes__ = schemes

        def request(self, req_and_resp, opt=None, headers=None):
            opt = dict(opt or {})
            req, resp = req_and_resp
            req.reset()
            resp.reset()
            req, resp = super(Probe, self).request((req, resp), opt)
            req.prepare(scheme=self.prepare_schemes(req))
            req._patch(opt)
            self.headers = self.compose_headers(req, headers, opt)
            return req
    return Probe(security)
