"""C26: validation, against an independent validator of the plain documents"""
import copy

from mc import engine
from mc.lib import getter_for, load_app, doc as mkdoc, op as mkop, P, outcome
from pyswagger import App, errs
from pyswagger.resolve import Resolver

ROOT12 = 'http://h.io/api/docs.json'
ASSUMPTIONS = ['lists and maps which are missing count as empty ones (the parser makes them so)', 'the rules are those listed in pyswagger/scanner/v*/validate.py; documents which cannot be parsed at all (no apis or operations) raise while loading',
               'only the root document of a 2.0 API, and what is written in it (not referred to), is validated']

DEL = object()


def listing():
    return {'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [{'path': '/pet'}, {'path': '/us er'}], 'info': {'title': 't', 'description': 'd'},
            'authorizations': {
                'k': {'type': 'apiKey', 'passAs': 'header', 'keyname': 'K'}, 'b/c': {'type': 'basicAuth'},
                'o': {'type': 'oauth2', 'scopes': [{'scope': 'r', 'description': ''}, {'scope': 'w'}],
                      'grantTypes': {'implicit': {'loginEndpoint': {'url': 'u'}, 'tokenName': 'n'},
                                     'authorization_code': {'tokenRequestEndpoint': {'url': 'u'}, 'tokenEndpoint': {'url': 'v'}}}}}}


def resource(n):
    return {'swaggerVersion': '1.2', 'basePath': 'http://h.io/v1', 'resourcePath': '/' + n, 'consumes': ['application/json'],
            'models': {'M': {'id': 'M', 'required': ['a'], 'properties': {'a': {'type': 'integer', 'minimum': '1'}, 'b/~': {'type': 'array', 'items': {'type': 'string'}}, 'c': {'$ref': 'N'}}}, 'N': {'id': 'N', 'properties': {}}},
            'apis': [{'path': '/a/{p}', 'operations': [
                {'method': 'GET', 'nickname': 'get', 'type': 'M', 'authorizations': {'o': [{'scope': 'r', 'description': ''}], 'k': []},
                 'parameters': [{'name': 'p', 'paramType': 'path', 'type': 'string', 'required': True}, {'name': 'q', 'paramType': 'query', 'type': 'integer', 'allowMultiple': True}],
                 'responseMessages': [{'code': 404, 'message': 'm', 'responseModel': 'M'}, {'code': 500, 'message': 'n'}]},
                {'method': 'POST', 'nickname': 'post', 'type': 'void', 'consumes': ['multipart/form-data'],
                 'parameters': [{'name': 'p', 'paramType': 'path', 'type': 'string', 'required': True}, {'name': 'f', 'paramType': 'form', 'type': 'File'}]}]},
                {'path': '/b', 'operations': [
                    {'method': 'PUT', 'nickname': 'put', 'type': 'array', 'items': {'$ref': 'M'}, 'uniqueItems': True,
                     'parameters': [{'name': 'body', 'paramType': 'body', 'type': 'M'}]}]}]}


# ---- the rules of 1.2, on plain documents --------------------------------------
def esc(s):
    return s.replace('~', '~0').replace('/', '~1')


def missing(o, *fields):
    return sum(1 for f in fields if o.get(f) is None)


def datatype(o):
    n = 0
    if o.get('type') is None and o.get('$ref') is None:
        n += 1
    if (o.get('type') == 'array') != (o.get('items') is not None):
        n += 1
    if o.get('uniqueItems') is not None and o.get('type') != 'array':
        n += 1
    return n


def expect12(lst, res):
    out = {}

    def add(place, kind, n):
        if n:
            out[place, kind] = out.get((place, kind), 0) + n
    add('#', 'ResourceList', missing(lst, 'swaggerVersion', 'apis'))
    if lst.get('info') is not None:
        add('#/info', 'Info', missing(lst['info'], 'title', 'description'))
    auths = lst.get('authorizations') or {}
    for k, a in auths.items():
        pl = '#/authorizations/' + esc(k)
        n = missing(a, 'type')
        if a.get('type') == 'apiKey':
            n += (not a.get('passAs')) + (not a.get('keyname'))
        if a.get('type') == 'oauth2':
            n += a.get('grantTypes') is None
        add(pl, 'Authorization', n)
        for i, s in enumerate(a.get('scopes') or []):
            add('%s/scopes/%d' % (pl, i), 'Scope', missing(s, 'scope'))
        g = a.get('grantTypes')
        if g is not None:
            pg = pl + '/grantTypes'
            add(pg, 'GrantType', g.get('implicit') is None and g.get('authorization_code') is None)
            i = g.get('implicit')
            if i is not None:
                add(pg + '/implicit', 'Implicit', missing(i, 'loginEndpoint'))
                if i.get('loginEndpoint') is not None:
                    add(pg + '/implicit/loginEndpoint', 'LoginEndpoint', missing(i['loginEndpoint'], 'url'))
            c = g.get('authorization_code')
            if c is not None:
                add(pg + '/authorization_code', 'AuthorizationCode', missing(c, 'tokenRequestEndpoint', 'tokenEndpoint'))
                for f, kind in (('tokenRequestEndpoint', 'TokenRequestEndpoint'), ('tokenEndpoint', 'TokenEndpoint')):
                    if c.get(f) is not None:
                        add(pg + '/authorization_code/' + f, kind, missing(c[f], 'url'))
    for n, r in res.items():
        pr = '#/apis/' + esc(n)
        add(pr, 'Resource', missing(r, 'swaggerVersion', 'basePath', 'apis'))
        for k, m in (r.get('models') or {}).items():
            pm = pr + '/models/' + esc(k)
            add(pm, 'Model', missing(m, 'id'))
            for pn, p in (m.get('properties') or {}).items():
                pp = pm + '/properties/' + esc(pn)
                add(pp, 'Property', datatype(p) + (p.get('type') == 'void'))
                if p.get('items') is not None:
                    add(pp + '/items', 'Items', p['items'].get('type') == 'void')
        for api in r['apis']:
            for o in api['operations']:
                po = pr + '/apis/' + esc(o['nickname'])
                n = missing(o, 'method', 'nickname') + (api.get('path') is None)
                n += datatype(o)
                for k, v in (o.get('authorizations') or {}).items():
                    if k not in auths:
                        n += 1
                    elif auths[k].get('type') in ('basicAuth', 'apiKey') and v:
                        n += 1
                    for i, s in enumerate(v):
                        add('%s/authorizations/%s/%d' % (po, esc(k), i), 'Authorizations', missing(s, 'scope'))
                add(po, 'Operation', n)
                if o.get('items') is not None:
                    add(po + '/items', 'Items', o['items'].get('type') == 'void')
                for i, p in enumerate(o.get('parameters') or []):
                    n = missing(p, 'paramType', 'name') + datatype(p)
                    if p.get('allowMultiple'):
                        n += p.get('paramType') not in ('path', 'query', 'header')
                        n += p.get('type') == 'array'
                    n += p.get('paramType') == 'body' and p.get('name') not in ('', 'body')
                    if p.get('type') == 'File':
                        n += p.get('paramType') != 'form'
                        n += 'multipart/form-data' not in (o.get('consumes') or r.get('consumes') or [])
                    n += p.get('type') == 'void'
                    add('%s/parameters/%d' % (po, i), 'Parameter', n)
                    if p.get('items') is not None:
                        add('%s/parameters/%d/items' % (po, i), 'Items', p['items'].get('type') == 'void')
                for i, m in enumerate(o.get('responseMessages') or []):
                    add('%s/responseMessages/%d' % (po, i), 'ResponseMessage', missing(m, 'code', 'message'))
    return out


# ---- mutations: every field of every object -----------------------------------------
VALUES = {
    'type': ['void', 'array', 'File', 'string', 'apiKey', 'oauth2', 'basicAuth'], 'items': [{'type': 'void'}, {'type': 'string'}], 'uniqueItems': [True, False], 'allowMultiple': [True, False],
    'paramType': ['body', 'form', 'path', 'query', 'header'], 'name': ['', 'body', 'x'], 'authorizations': [{'k': [{'scope': 'r'}]}, {'zz': []}, {'b/c': []}, {'o': []}, {'o': [{}]}, {'b/c': [{'scope': 'x'}], 'nope': [{}]}, {}], 'consumes': [['multipart/form-data'], []],
    '$ref': ['M'], 'passAs': [''], 'keyname': [''], 'grantTypes': [{}],
}
ADD = {'parameters': ['type', 'items', 'uniqueItems', 'allowMultiple', '$ref'], 'operations': ['items', 'uniqueItems', 'authorizations', 'consumes', '$ref', 'responseMessages'],
       'properties': ['items', 'uniqueItems', '$ref'], 'resource': ['consumes'], 'authorizations': ['passAs', 'keyname', 'grantTypes'], 'items': ['type']}
# without these nothing can be parsed (or nothing is known about where)
KEEP = {('listing', 'swaggerVersion'), ('listing', 'apis'), ('resource', 'apis'), ('apis', 'operations'), ('operations', 'nickname'), ('listing', 'path')}


def places(o, label, path=()):
    """all objects with fields: (path, label of what it is)"""
    if isinstance(o, list):
        for i, x in enumerate(o):
            for r in places(x, label, path + (i,)):
                yield r
    elif isinstance(o, dict):
        names = label in ('models', 'properties', 'authorizations') and (not path or path[-1] == label)
        if not names:
            yield path, label
        for k, v in o.items():
            if isinstance(v, (dict, list)):
                for r in places(v, label if names else k, path + (k,)):
                    yield r


def edits(docs):
    out = []
    for url, d in docs.items():
        kind = 'listing' if 'authorizations' in d else 'resource'
        for path, label in places(d, kind):
            o = d
            for k in path:
                o = o[k]
            if kind == 'listing' and label == 'apis':
                continue
            for k in list(o) + [k for k in ADD.get(label, []) if k not in o]:
                if (label, k) in KEEP:
                    continue
                if k in o:
                    out.append((url, path + (k,), DEL))
                    if not isinstance(o[k], (dict, list)):
                        out.append((url, path + (k,), None))
                for v in VALUES.get(k, []):
                    if label == 'listing' and k == 'authorizations':
                        continue
                    if o.get(k) != v:
                        out.append((url, path + (k,), v))
    return out


def apply(docs, e):
    url, path, v = e
    o = docs[url]
    for k in path[:-1]:
        try:
            o = o[k]
        except (KeyError, IndexError, TypeError):
            return False
        if o is None:
            return False
    if not isinstance(o, (dict, list)):
        return False
    if v is DEL:
        if isinstance(o, dict) and path[-1] in o:
            del o[path[-1]]
        else:
            return False
    else:
        o[path[-1]] = copy.deepcopy(v)
    return True


RES = ['http://h.io/api/pet', 'http://h.io/api/us er']
BASE = None


def base():
    global BASE
    if BASE is None:
        d = {'L': listing(), 'R': resource('pet')}
        BASE = d, edits(d)
    return BASE


def grouped(errors):
    out = {}
    for e in errors:
        if not (isinstance(e, tuple) and len(e) == 2 and len(e[0]) == 2 and isinstance(e[1], str) and e[1]):
            raise AssertionError('error is %r' % (e,))
        out[e[0]] = out.get(e[0], 0) + 1
    return out


def v12(c):
    d, es = base()
    docs = copy.deepcopy(d)
    first = c.free('edit', [None] + es)
    if first is not None:
        apply(docs, first)
        second = c.pick('second edit', [None] + [e for e in es if engine.TIER == 'thorough' or (e[0], e[1][:-1]) == (first[0], first[1][:-1])])
        if second is not None and not apply(docs, second):
            c.state('no such place')
            return
    want = expect12(docs['L'], {'pet': docs['R'], 'us er': resource('us er')})
    served = {ROOT12: docs['L'], RES[0]: docs['R'], RES[1]: resource('us er')}
    app = App.load(ROOT12, resolver=Resolver(default_getter=getter_for(served)))
    got = grouped(app.validate(strict=False))
    if got != want:
        more = dict((k, v) for k, v in got.items() if want.get(k) != v)
        less = dict((k, v) for k, v in want.items() if got.get(k) != v)
        c.fail('reported %s, expected %s' % (more, less), 'report')
    c.eq(grouped(app.validate(strict=False)), want, 'validating again')
    r = outcome(lambda: app.validate(strict=True))
    c.eq(r[0] == 'err', bool(want), 'strict validation raises')
    if want:
        c.eq(r, ('err', 'ValidationError'), 'strict validation')
    fresh = App.load(ROOT12, resolver=Resolver(default_getter=getter_for(served)))
    r = outcome(lambda: fresh.prepare(strict=True))
    if want:
        c.eq(r[0], 'err', 'preparing an invalid document strictly')
    elif first is None:
        c.eq(r[0], 'ok', 'preparing')
    c.state(sorted(want.items()))


# ---- 2.0: read-only properties that are required -------------------------------------------
def schema(c, label, depth):
    """-> schema, [(place below, number)]"""
    props, req, n = {}, [], 0
    for name in ('a', 'b/~', '0'):
        how = c.pick('%s %s' % (label, name), ['none', 'plain', 'required', 'read-only', 'read-only required', 'required only', 'not read-only required'])
        if how == 'none':
            continue
        if how != 'required only':
            props[name] = {'type': 'string'}
            if 'read-only' in how:
                props[name]['readOnly'] = not how.startswith('not')
        if 'required' in how:
            req.append(name)
        n += how == 'read-only required'
    s = {'type': 'object', 'properties': props}
    if req:
        s['required'] = req
    bad = {'': n} if n else {}
    if depth:
        where = c.pick(label + ' nested', [None, 'properties', 'items', 'allOf', 'additionalProperties', 'deep'])
        if where:
            inner, ib = schema(c, label + '/', 0)
            if not ib:
                inner = {'type': 'object', 'required': ['r'], 'properties': {'r': {'type': 'string', 'readOnly': True}}}
                ib = {'': 1}
            pre = {'properties': '/properties/in', 'items': '/properties/in/items', 'allOf': '/allOf/1', 'additionalProperties': '/additionalProperties', 'deep': '/properties/in/items/allOf/0/additionalProperties'}[where]
            if where == 'properties':
                s['properties']['in'] = inner
            elif where == 'items':
                s['properties']['in'] = {'type': 'array', 'items': inner}
            elif where == 'deep':
                s['properties']['in'] = {'type': 'array', 'items': {'allOf': [{'type': 'object', 'additionalProperties': inner}]}}
            elif where == 'allOf':
                s['allOf'] = [{'type': 'object'}, inner]
            else:
                s['additionalProperties'] = inner
            for k, v in ib.items():
                bad[pre + k] = v
    return s, bad


SLOTS = ['#/definitions/D', '#/definitions/x~1y~0z', '#/parameters/B/schema', '#/responses/R/schema', '#/paths/~1a/post/parameters/1/schema', '#/paths/~1a/parameters/0/schema', '#/paths/~1a/post/responses/200/schema', '#/paths/~1a/get/responses/default/schema']


def v20(c):
    plain = {'type': 'object'}
    slots = dict((s, plain) for s in SLOTS)
    want = {}
    for s in c.pick('places', [[x] for x in SLOTS] + [list(x) for x in zip(SLOTS, SLOTS[1:])]):
        slots[s], bad = schema(c, s.rsplit('/', 2)[-2], 1)
        for k, v in bad.items():
            want[s + k, 'Schema'] = v
    d = mkdoc(definitions={'D': slots[SLOTS[0]], 'x/y~z': slots[SLOTS[1]], 'Refd': {'$ref': '#/definitions/D'}}, parameters={'B': P('b', 'body', schema=slots[SLOTS[2]])}, responses={'R': {'description': '', 'schema': slots[SLOTS[3]]}},
              paths={'/a': {'parameters': [P('c', 'body', schema=slots[SLOTS[5]])], 'post': mkop([P('q'), P('c', 'body', schema=slots[SLOTS[4]])], {'200': {'description': '', 'schema': slots[SLOTS[6]]}}),
                            'get': mkop(None, {'default': {'description': '', 'schema': slots[SLOTS[7]]}})}})
    app = load_app(d)
    c.eq(grouped(app.validate(strict=False)), want, 'report')
    strict, loose = load_app(d), load_app(d)
    c.eq(outcome(lambda: strict.prepare(strict=True)), ('err', 'ValidationError') if want else ('ok', None), 'strict preparation')
    c.eq(outcome(lambda: loose.prepare(strict=False)), ('ok', None), 'preparation')
    got = grouped(loose.validate(strict=False))     # parameters of a path are found below its operations, too
    c.eq(dict((k, v) for k, v in got.items() if k in want), want, 'report of a prepared App')
    c.check(bool(want) or not got, 'a prepared App reports %s' % got)
    c.eq(outcome(lambda: loose.validate(strict=True)), ('err', 'ValidationError') if want else ('ok', []), 'strict validation of a prepared App')
    c.state(sorted(want.items()))


SCENARIOS = [
    dict(name='v12', fn=v12, bound=1, space='all single deletions, nulls and replacements of every field of every kind of 1.2 object, all pairs in one object (thorough: all pairs)'),
    dict(name='v20', fn=v20, bound=dict(quick=3, thorough=4), space='2.0 schemas in 8 places, nested: read-only and required properties'),
]
