"""C25: a Swagger 1.2 API against the same API written in 2.0 by hand"""
import copy
import itertools
import json

from mc.lib import getter_for, mem_app, plain, outcome, doc as mkdoc, P, FakeFile, request_view, probe
from pyswagger import App, Security
from pyswagger.resolve import Resolver
from pyswagger.primitives import Primitive  # noqa

ROOT12 = 'http://h.io/api/docs.json'
SEP = '!##!'
ASSUMPTIONS = ['all resources of a 1.2 API are served by the same host (2.0 has one host per document)', 'a document declares what 1.2 requires (see C26)',
               'operations declaring no (or empty) authorizations, consumes, produces use those of their resource']


class Pair(object):
    """the 1.2 documents and the 2.0 document of one API"""
    def __init__(self, names=('pet',), bases=None, auths=None):
        self.listing = {'swaggerVersion': '1.2', 'apiVersion': '3', 'apis': [{'path': '/' + n} for n in names], 'info': {'title': 't', 'description': 'd'}}
        self.res = dict((n, {'swaggerVersion': '1.2', 'basePath': (bases or {}).get(n, 'http://h.io/v1'), 'resourcePath': '/' + n, 'apis': []}) for n in names)
        self.doc = mkdoc(basePath='', schemes=['http', 'https'], host='h.io', definitions={}, securityDefinitions={})
        self.names = list(names)
        self.ops = []

    def op(self, res, method, path, nickname, params12, params20, returns, responses=None, **kw):
        """returns: (1.2 fields, 2.0 schema or None)"""
        r = self.res[res]
        o12 = dict(method=method.upper(), nickname=nickname, parameters=params12, **returns[0])
        o20 = dict(tags=[res], operationId=nickname, parameters=params20, responses={'default': dict(description='', **({'schema': returns[1]} if returns[1] else {}))})
        for k, v in kw.items():
            o12[k] = v[0]
            if v[1] is not None:
                o20[k] = v[1]
        for k in ('consumes', 'produces'):
            if not o20.get(k) and r.get(k):
                o20[k] = r[k]
        if responses:
            o12['responseMessages'] = responses[0]
            o20['responses'].update(responses[1])
        for a in r['apis']:
            if a['path'] == path:
                a['operations'].append(o12)
                break
        else:
            r['apis'].append({'path': path, 'operations': [o12]})
        base = r['basePath'].split('h.io', 1)[1]
        base = base[base.index('/'):] if '/' in base else ''
        self.doc['paths'].setdefault(base + path, {})[method.lower()] = o20
        self.ops.append((res, nickname))

    def model(self, res, name, m12, s20):
        self.res[res].setdefault('models', {})[name] = dict(id=name, **m12)
        self.doc['definitions'][res + SEP + name] = s20

    def apps(self, strict=True):
        docs = {ROOT12: self.listing}
        for n in self.names:
            docs['http://h.io/api/' + n] = self.res[n]
        a = App.load(ROOT12, resolver=Resolver(default_getter=getter_for(docs)))
        a.prepare(strict=strict)
        return a, mem_app(self.doc)


VALUES = [0, 1, -1, 7, 2.5, '', 'a', 'b', 'zz', True, [], ['a'], ['a', 'zz'], [1, 7], [3], '2001-02-03', ['2001-02-03'], {}, {'id': 3}, {'id': 'x'}, {'id': 3, 'name': 'n', 'kind': 'Cat'}, {'name': 1}, {'id': 1, 'tags': ['a']}, {'id': 1, 'more': 5},
          [{'id': 3}], {'id': 1, 'when': '2001-02-03', 'owner': {'id': 2}}, {'id': 1, 'age': 9}, {'id': 1, 'kids': [{'id': 2}, {'id': 3}]}, {'age': 2, 'lives': 9, 'id': 1}, 'f']


def ok_or_not(r):
    """which one of several errors is found first is not judged"""
    return r if r[0] == 'ok' else 'refused'


def fresh(kw):
    return dict((k, FakeFile(b'x') if isinstance(v, FakeFile) else fresh(v) if isinstance(v, dict) else copy.deepcopy(v)) for k, v in kw.items())


def unscope(v):
    """the discriminator holds the name of the model, without scope"""
    if isinstance(v, dict):
        return dict((k, x.replace('pet' + SEP, '') if k == 'kind' and isinstance(x, str) else unscope(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v)(unscope(x) for x in v)
    return v


def unordered(v):
    """the order of parameters and of keys means nothing"""
    ct = v['header'].get('content-type', '')
    if 'boundary=' in ct:
        b = ct.split('boundary=')[1]
        v['header']['content-type'] = 'multipart'
        v['data'] = v['data'].replace(b.encode(), b'BOUNDARY')
    v['query'].sort(key=lambda x: x[0])
    v['url'] = sorted(v['url'].replace('?', '&').split('&'))
    if isinstance(v['data'], str):
        try:
            v['data'] = json.loads(v['data'])
        except ValueError:
            v['data'] = sorted(v['data'].split('&'))
    return v


def compare(c, pair, what, values=VALUES, single=True):
    a, b = outcome(lambda: pair.apps()), None
    if a[0] != 'ok':
        pair.apps()
    a, b = a[1]
    c.eq(sorted(a.root.paths), sorted(b.root.paths), '%s: paths' % what)
    c.eq([a.root.host, a.root.basePath, sorted(a.schemes)], [b.root.host, b.root.basePath, sorted(b.schemes)], '%s: host' % what)
    c.eq(sorted(a.m), sorted(b.m), '%s: models' % what)
    c.eq(sorted(a.op), sorted(b.op), '%s: operations' % what)
    for res, nick in pair.ops:
        refs = [(res, nick), res + SEP + nick]
        if sum(1 for r, n in pair.ops if n == nick) == 1:
            refs.append(nick)
        oa, ob = a.op[res + SEP + nick], b.op[res + SEP + nick]
        for r in refs:
            for app, o in ((a, oa), (b, ob)):
                if app.op[r] is not o:
                    c.fail('%s: %r is not the operation %s of %s' % (what, r, nick, res))
        c.eq([oa.method, oa.path, oa.consumes, oa.produces, oa.tags, oa.deprecated, sorted(map(repr, oa.security or []))],
             [ob.method, ob.path, ob.consumes, ob.produces, ob.tags, ob.deprecated, sorted(map(repr, ob.security or []))], '%s: operation %s' % (what, nick))
        params = [(p['name'], p) for p in pair.doc['paths'][_path(pair, res, nick)][oa.method]['parameters']]
        base = dict((n, ok(p)) for n, p in params)

        def call(o, kw):
            def f():
                q, _ = o(**fresh(kw))
                return unordered(request_view(q))
            return ok_or_not(outcome(f))
        combos = [base, {}, dict(base, unknown=1)]
        for n, p in params:
            combos.append(dict((k, v) for k, v in base.items() if k != n))
            for v in values + ([dict(data=FakeFile(b'x'), header={'Content-Type': 'a/b'}), dict(filename='')] if p.get('type') == 'file' else []):
                combos.append(dict(base, **{n: v}))
        good = None
        for kw in combos:
            ra, rb = call(oa, kw), unscope(call(ob, kw))
            if ra != rb:
                c.fail('%s: %s(%r) gives %.400r, in 2.0 %.400r' % (what, nick, kw, ra, rb), '%s: request' % what)
            c.state(nick, ra)
            c.step()
            if ra != 'refused' and good is None:
                good = kw
        if good is None:
            if not any('minimum' in x or 'maximum' in x for n, p in params for x in (p, p.get('items', {}))) and oa.consumes != ['multipart/form-data']:
                c.fail('%s: no call of %s is accepted' % (what, nick))
            continue        # impossible limits, or a multipart body without file
        for st in (200, 404, 500):
            for v in values:
                def answer(o):
                    def f():
                        q, r = o(**fresh(good))
                        r.apply_with(status=st, raw=json.dumps(v))
                        return type(r.data).__name__, plain(r.data)
                    return ok_or_not(outcome(f))
                ra, rb = answer(oa), unscope(answer(ob))
                if ra != rb:
                    c.fail('%s: answer %d %r of %s is %.400r, in 2.0 %.400r' % (what, st, v, nick, ra, rb), '%s: answer' % what)
                c.state(nick, st, ra)
                c.step()
        # credentials
        names = sorted(pair.doc['securityDefinitions'])
        for n in range(len(names) + 1):
            for have in itertools.combinations(names, n):
                def send(app, o):
                    def f():
                        s = Security(app)
                        for k in have:
                            s.update_with(k, ('u', 'p') if pair.doc['securityDefinitions'][k]['type'] == 'basic' else 'secret-' + k)
                        pr = probe(security=s)
                        q = pr.request(o(**fresh(good)))
                        return q.method, q.url, sorted((k, v.split('; bound')[0]) for k, v in q.header.items()), sorted(map(tuple, q.query)), q.schemes
                    return outcome(f)
                ra, rb = send(a, oa), send(b, ob)
                if ra != rb:
                    c.fail('%s: %s sent with %s is %.400r, in 2.0 %.400r' % (what, nick, have, ra, rb), '%s: security' % what)
                c.state(nick, have, ra)
    for k in a.m:
        for v in values:
            def conv(app):
                return ok_or_not(outcome(lambda: plain(app.prim_factory.produce(app.m[k], copy.deepcopy(v)))))
            ra, rb = conv(a), unscope(conv(b))
            if ra != rb:
                c.fail('%s: %r as model %s is %.400r, in 2.0 %.400r' % (what, v, k, ra, rb), '%s: model' % what)
            c.state(k, ra)
    return a, b


def _path(pair, res, nick):
    for p, item in pair.doc['paths'].items():
        for o in item.values():
            if o['operationId'] == nick and o['tags'] == [res]:
                return p


def ok(p):
    """an acceptable argument"""
    if p['in'] == 'body':
        return {'id': 3, 'name': 'n'} if '$ref' in p['schema'] else [{'id': 3}] if '$ref' in p['schema'].get('items', {}) else ok(dict(p['schema'], **{'in': ''}))
    if p.get('enum'):
        return p['enum'][0]
    t = p['type']
    if t == 'array':
        return [ok(dict(p['items'], **{'in': ''}))]
    if t in ('integer', 'number'):
        return 3 if t == 'integer' else 2.5
    if t == 'boolean':
        return True
    if t == 'file':
        return dict(filename='f.txt', data=FakeFile(b'x'))
    return '2001-02-03' if p.get('format') == 'date' else '2001-02-03T04:05:06Z' if p.get('format') == 'date-time' else 'a'


PRIMS = [dict(type='string'), dict(type='integer', format='int32'), dict(type='integer', format='int64'), dict(type='number', format='float'), dict(type='number', format='double'), dict(type='boolean'),
         dict(type='string', format='date'), dict(type='string', format='date-time'), dict(type='string', format='byte')]
VOID = (dict(type='void'), None)
STR = (dict(type='string'), dict(type='string'))


def limits(c, t):
    """-> extra 1.2 fields, extra 2.0 fields"""
    if t in ('integer', 'number'):
        lo, hi = c.pick('minimum', [None, '1', '0', '1.0', '-1']), c.pick('maximum', [None, '5', '0', '7.0'])
        a = dict((k, v) for k, v in (('minimum', lo), ('maximum', hi)) if v is not None)
        return a, dict((k, float(v)) for k, v in a.items())
    return {}, {}


def default(c, t, fmt):
    vals = dict(string=['a', ''], integer=[3, 0], number=[2.5, 0], boolean=[True, False])[t]
    if fmt == 'date':
        vals = ['2001-02-03']
    elif fmt:
        vals = [] if t == 'string' else vals
    return c.pick('default', [None] + [[v] for v in vals])


def parameter(c, name, kind):
    """one parameter of every kind -> (1.2, 2.0)"""
    p12, p20 = dict(name=name, paramType=kind), dict(name=name)
    p20['in'] = 'formData' if kind == 'form' else kind
    if kind == 'path' or c.flag('required'):
        p12['required'] = p20['required'] = True
    how = c.pick('type', ['plain', 'array', 'file'] if kind == 'form' else ['plain', 'array', 'multiple'])
    if how == 'file':
        p12['type'], p20['type'] = 'File', 'file'
        return p12, p20
    prim = c.free('of', PRIMS)
    t, f = prim['type'], prim.get('format')
    l12, l20 = limits(c, t) if how != 'array' else ({}, {})
    enum = c.pick('enum', [None, ['a', 'b'], ['zz']]) if t == 'string' and not f and how != 'array' else None
    d = default(c, t, f) if how != 'array' else None
    if how == 'plain':
        p12.update(prim, **l12)
        p20.update(prim, **l20)
        if d:
            p12['defaultValue'] = p20['default'] = d[0]
        if enum:
            p12['enum'] = p20['enum'] = enum
    elif how == 'array':
        u = c.flag('unique')
        p12.update(type='array', items=dict(prim))
        p20.update(type='array', items=dict(prim), collectionFormat='csv')
        if u:
            p12['uniqueItems'] = p20['uniqueItems'] = True
    else:
        p12.update(prim, allowMultiple=True, **l12)
        p20.update(type='array', items=dict(prim, **l20), collectionFormat='csv')
        if d:
            p12['defaultValue'] = d[0]
            p20['default'] = [d[0]]
        if enum:
            p12['enum'] = enum
            p20['items']['enum'] = enum
    return p12, p20


def params(c):
    kind = c.free('kind', ['query', 'path', 'header', 'form'])
    pr = Pair()
    name = c.pick('name', ['p', 'in', 'P-q'])
    p12, p20 = parameter(c, name, kind)
    o12, o20 = [p12], [p20]
    mime = c.pick('consumes', [None, ['application/x-www-form-urlencoded'], ['multipart/form-data']]) if kind == 'form' else None
    if p20.get('type') == 'file':
        mime = ['multipart/form-data']
    if c.flag('with another'):
        o12.append(dict(name='other', paramType='query', type='string', defaultValue='z'))
        o20.append({'name': 'other', 'in': 'query', 'type': 'string', 'default': 'z'})
    path = '/a/{%s}/x' % name if kind == 'path' else '/a'
    kw = dict(consumes=(mime, mime)) if mime else {}
    pr.op('pet', 'post' if kind == 'form' else 'get', path, 'doIt', o12, o20, VOID, **kw)
    compare(c, pr, 'parameter')


def typed(c, name, models, prims=PRIMS):
    """type fields -> (1.2, 2.0)"""
    how = c.free(name, ['plain', 'model', '$ref', 'array of plain', 'array of models', 'array of $ref'] if models else ['plain', 'array of plain'])
    if how == 'plain':
        p = dict(c.pick('of', prims))
        l12, l20 = limits(c, p['type'])
        return dict(p, **l12), dict(p, **l20)
    ref = {'$ref': '#/definitions/pet%sPet' % SEP}
    if how == 'model':
        return dict(type='Pet'), ref
    if how == '$ref':
        return {'$ref': 'Pet'}, ref
    if how == 'array of plain':
        p = c.pick('of', prims)
        return dict(type='array', items=dict(p)), dict(type='array', items=dict(p))
    u = dict(uniqueItems=True) if how == 'array of models' and c.flag('unique') else {}
    return dict(type='array', items={'type': 'Pet'} if how == 'array of models' else {'$ref': 'Pet'}, **u), dict(type='array', items=ref, **u)


def simple_pet(pr, res='pet'):
    pr.model(res, 'Pet', dict(required=['id'], properties={'id': dict(type='integer', format='int64'), 'name': dict(type='string'), 'when': dict(type='string', format='date')}),
             dict(required=['id'], properties={'id': dict(type='integer', format='int64'), 'name': dict(type='string'), 'when': dict(type='string', format='date')}))


def bodies(c):
    pr = Pair()
    simple_pet(pr)
    b12, b20 = typed(c, 'body', True)
    req = c.flag('required')
    d = c.pick('default', [None, ['a']]) if b20 == {'type': 'string'} else None
    p12 = dict(name='body', paramType='body', required=req, **b12)
    if d:
        p12['defaultValue'] = 'a'
        b20 = dict(b20, default='a')
    p20 = {'name': 'body', 'in': 'body', 'required': req, 'schema': b20}
    r = typed(c, 'returns', True) if c.free('returns something', [True, False]) else VOID
    pr.op('pet', 'put', '/pet', 'putPet', [p12], [p20], r, consumes=(['application/json'], ['application/json']))
    compare(c, pr, 'body')


def answers(c):
    """answers by status"""
    pr = Pair()
    simple_pet(pr)
    pr.model('pet', 'Err', dict(properties={'id': dict(type='string')}), dict(properties={'id': dict(type='string')}))
    r = c.free('returns', [VOID, STR, (dict(type='Pet'), {'$ref': '#/definitions/pet%sPet' % SEP})])
    msgs, resp = [], {}
    for st in (200, 404):
        m = c.free('message %d' % st, [None, 'none', 'Err', 'Pet', 'string'])
        if m:
            d = dict(code=st, message='m')
            if m != 'none':
                d['responseModel'] = m
                resp[str(st)] = dict(description='m', schema={'type': m} if m == 'string' else {'$ref': '#/definitions/pet%s%s' % (SEP, m)})
            msgs.append(d)
    pr.op('pet', 'get', '/pet', 'getPet', [], [], r, responses=(msgs, resp))
    compare(c, pr, 'answers')


def resources(c):
    names = c.free('resources', [('pet',), ('pet', 'user'), ('pet', 'user', 'pe'), ('pet', 'admin/pet'), ('a.b', 'pet')])
    base = c.free('base', ['http://h.io/v1', 'http://h.io', 'https://h.io:8080/x/v1', 'http://h.io:81'])
    bases = dict((n, base) for n in names)
    if len(names) > 1 and c.free('second elsewhere', [False, True]):
        bases[names[1]] = base + '/' + names[1]
    pr = Pair(names, bases)
    pr.doc['host'] = base.split('//')[1].split('/')[0]
    lev = c.free('media types', ['none', 'resource', 'operation', 'both', 'empty'])
    J, X = ['application/json'], ['text/plain', 'application/json']
    for i, n in enumerate(names):
        pr.res[n].update(dict(consumes=J, produces=J) if lev in ('resource', 'both', 'empty') and not i else {})
        kw = {}
        if lev in ('operation', 'both'):
            kw = dict(consumes=(X, X), produces=(X, X))
        elif lev == 'empty':
            kw = dict(consumes=([], None), produces=([], None))
        simple_pet(pr, n)
        ref = {'$ref': '#/definitions/%s%sPet' % (n.replace('/', '~1'), SEP)}
        pr.op(n, 'get', '/' + n.replace('/', '_') + '/{x}', 'get', [dict(name='x', paramType='path', required=True, type='string')], [P('x', 'path')], (dict(type='Pet'), ref), **kw)
        if c.free('same path in %s' % n, [False, True]):
            pr.op(n, 'post', '/' + n.replace('/', '_') + '/{x}', 'post' + n.replace('/', '_'), [dict(name='x', paramType='path', required=True, type='string'), dict(name='body', paramType='body', required=True, type='Pet')],
                  [P('x', 'path'), P('body', 'body', schema=ref, required=True)], STR, deprecated=('true', True), summary=('s', 's'))
    info = c.pick('info', ['short', 'none', 'full'])
    if info == 'none':
        pr.listing.pop('info')
    elif info == 'full':
        pr.listing['info'].update(termsOfServiceUrl='http://t', contact='a@b', license='l', licenseUrl='http://l')
    a, b = compare(c, pr, 'resources', values=[0, 'a', {'id': 3}, {'name': 'x'}])
    if info == 'full':
        i = a.root.info
        c.eq([i.title, i.description, i.version, i.termsOfService, i.contact.email, i.license.name, i.license.url], ['t', 'd', '3', 'http://t', 'a@b', 'l', 'http://l'], 'info')
    c.eq(sorted(t.name for t in a.root.tags), sorted(names), 'tags')


PROP_ALTS = ['plain', 'array of plain', 'model', '$ref', 'array of models', 'self', 'limits', 'default', 'enum']


def prop(c, label, models):
    """-> (1.2, 2.0) property"""
    def ref(n):
        return {'$ref': '#/definitions/pet%s%s' % (SEP, n)}
    how = c.pick(label, PROP_ALTS)
    if how == 'plain':
        p = c.pick('of', PRIMS)
        return dict(p), dict(p)
    if how == 'array of plain':
        return dict(type='array', items=dict(PRIMS[6])), dict(type='array', items=dict(PRIMS[6]))
    if how == 'limits':
        p = c.pick('of', [PRIMS[1], PRIMS[3]])
        l12, l20 = dict(minimum='2', maximum='8.0'), dict(minimum=2, maximum=8)
        return dict(p, **l12), dict(p, **l20)
    if how == 'default':
        return dict(type='string', defaultValue='dv'), dict(type='string', default='dv')
    if how == 'enum':
        return dict(type='string', enum=['a', 'n']), dict(type='string', enum=['a', 'n'])
    m = c.pick('model', models)
    if how == 'model':
        return dict(type=m), ref(m)
    if how == '$ref':
        return {'$ref': m}, ref(m)
    u = dict(uniqueItems=True) if c.flag('unique') else {}
    return dict(type='array', items={'$ref': m} if how == 'array of models' else {'type': m}, **u), dict(type='array', items=ref(m), **u)


def models(c):
    """inheritance and properties"""
    pr = Pair()
    names = ['Pet', 'Cat', 'Lion', 'Own']
    tree = c.free('inheritance', [{}, {'Pet': ['Cat']}, {'Pet': ['Cat'], 'Cat': ['Lion']}, {'Pet': ['Cat', 'Lion']}, {'Pet': ['Lion'], 'Cat': ['Lion']}])
    order = c.pick('order', [names, names[::-1], ['Lion', 'Pet', 'Own', 'Cat']])
    disc = bool(tree) and c.free('discriminator', [False, True])
    defs = {}
    for n in names:
        props = {'Pet': ['id', 'name', 'kids'], 'Cat': ['age', 'owner'], 'Lion': ['lives', 'when'], 'Own': ['id', 'more']}[n]
        m12, m20 = {}, {}
        for p in props:
            if p == 'id':
                m12[p], m20[p] = dict(type='integer', format='int32'), dict(type='integer', format='int32')
            else:
                m12[p], m20[p] = prop(c, n + '.' + p, ['Own', 'Pet', 'Lion'])
                if c.flag('described'):
                    m12[p]['description'] = 'txt'
        req = ['id'] if 'id' in props and c.pick('%s requires id' % n, [True, False]) else []
        d12, d20 = dict(properties=m12), dict(properties=m20)
        if req:
            d12['required'] = d20['required'] = req
        if disc and n == 'Pet':
            m12['kind'] = m20['kind'] = dict(type='string')
            d12['discriminator'] = d20['discriminator'] = 'kind'
            for d in (d12, d20):
                d['required'] = d.get('required', []) + ['kind']
        if n in tree:
            d12['subTypes'] = tree[n]
        sup = [m for m in names if n in tree.get(m, [])]
        if sup:
            d20['allOf'] = [{'$ref': '#/definitions/pet%s%s' % (SEP, m)} for m in sup]
        defs[n] = (d12, d20)
    for n in order:
        pr.model('pet', n, *defs[n])
    # 2.0 knows no order of definitions; cycles of references are not judged here (C04)
    t = 'Lion' if len(tree) else 'Pet'
    pr.op('pet', 'post', '/pet', 'post', [dict(name='body', paramType='body', type=t)], [{'name': 'body', 'in': 'body', 'schema': {'$ref': '#/definitions/pet%s%s' % (SEP, t)}}], (dict(type='Pet'), {'$ref': '#/definitions/pet%sPet' % SEP}))
    a, b = outcome(pr.apps), None
    if a == ('err', 'CycleDetectionError'):
        b = outcome(lambda: mem_app(pr.doc))
        c.eq(b, ('err', 'CycleDetectionError'), 'models: cycles')
        c.state('cycle')
        return
    compare(c, pr, 'models', values=MVALUES)


MVALUES = [{}, {'id': 3}, {'id': '3'}, {'name': 'x'}, {'id': 1, 'name': 'x', 'kids': '2001-02-03', 'age': '3', 'owner': 1, 'lives': 9, 'when': 'x', 'more': 5, 'kind': 'Cat'},
           {'id': 1, 'name': {'id': 2}, 'age': {'id': 3}, 'when': [{'id': 4}], 'lives': {'id': 5, 'kind': 'Pet'}, 'kind': 'Lion'}, {'id': 1, 'kids': ['2001-02-03'], 'name': 5, 'kind': 'Cat'}, {'id': 1, 'kids': [{'id': 2}], 'owner': 9, 'kind': 'Lion', 'lives': 1.5},
           {'id': 3, 'name': 'n', 'kind': 'Pet'}, [{'id': 3}], 'a', {'name': 'a', 'more': 'a', 'id': 2}]


def security(c):
    pr = Pair(('pet', 'user'))
    sd12, sd20 = {}, {}
    ALL = {'k': (dict(type='apiKey', passAs='query', keyname='key'), {'type': 'apiKey', 'in': 'query', 'name': 'key'}),
           'h': (dict(type='apiKey', passAs='header', keyname='X-Key'), {'type': 'apiKey', 'in': 'header', 'name': 'X-Key'}),
           'b': (dict(type='basicAuth'), {'type': 'basic'}),
           'o': (dict(type='oauth2', scopes=[{'scope': 'r', 'description': 'R'}, {'scope': 'w'}], grantTypes={'implicit': {'loginEndpoint': {'url': 'http://l'}, 'tokenName': 't'}}),
                 {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'http://l', 'scopes': {'r': 'R', 'w': ''}})}
    for k in 'khbo':
        sd12[k], sd20[k] = copy.deepcopy(ALL[k])
    grant = c.pick('grant', ['implicit', 'code', 'both'])
    code = {'tokenRequestEndpoint': {'url': 'http://r', 'clientIdName': 'i', 'clientSecretName': 's'}, 'tokenEndpoint': {'url': 'http://t', 'tokenName': 'c'}}
    if grant == 'both':
        sd12['o']['grantTypes']['authorization_code'] = code
    elif grant == 'code':
        sd12['o']['grantTypes'] = {'authorization_code': code}
        sd20['o'].update(flow='accessCode', tokenUrl='http://t', authorizationUrl='http://r')
    pr.listing['authorizations'] = sd12
    pr.doc['securityDefinitions'] = sd20

    def auth(label):
        return c.free(label, [None, {}, {'k': []}, {'o': [{'scope': 'r', 'description': 'R'}]}, {'b': [], 'h': []}, {'o': [{'scope': 'r'}, {'scope': 'w'}], 'k': []}])

    def security20(a):
        return [{k: [s['scope'] for s in v]} for k, v in a.items()]
    ra = auth('resource')
    if ra is not None:
        pr.res['pet']['authorizations'] = ra
    for n, res, path in (('one', 'pet', '/a'), ('two', 'pet', '/b'), ('three', 'user', '/c')):
        oa = auth(n) if n == 'one' or c.flag(n + ' too') else None
        eff = oa or (ra if res == 'pet' else None) or {}
        kw = dict(authorizations=(oa, None)) if oa is not None else {}
        pr.op(res, 'get', path, n, [], [], VOID, security=(None, security20(eff)), **kw)
        pr.res[res]['apis'][-1]['operations'][-1].pop('security')
    a, b = compare(c, pr, 'security', values=['a'])
    for k in 'khbo':
        x, y = a.root.securityDefinitions[k], b.root.securityDefinitions[k]
        x, y = [[o.type, o.name, getattr(o, 'in'), o.tokenUrl, dict(o.scopes or {}), o.flow, o.authorizationUrl] for o in (x, y)]
        if k == 'o' and grant == 'both':
            c.eq(x[3], 'http://t', 'tokenUrl')
            y[3] = x[3]
        if x[5:] == ['access_code', None]:
            c.finding('flow', 'authorization_code was converted to flow access_code without authorizationUrl')
            x, y = x[:5], y[:5]
        c.eq(x, y, 'scheme %s' % k)


def separator(c):
    sep = c.free('separator', ['!##!', ':', '.', '__'])
    same = c.free('same names', [True, False])
    pr = Pair(('pet', 'user'))
    global SEP
    old = SEP
    SEP = sep
    try:
        for n in ('pet', 'user'):
            pr.model(n, 'Pet', dict(discriminator='kind', properties={'kind': dict(type='string'), 'id': dict(type='integer' if n == 'pet' else 'string')}), None)
            pr.op(n, 'get', '/' + n, 'get' if same else 'get' + n, [], [], (dict(type='Pet'), {'$ref': ''}))
    finally:
        SEP = old
    docs = {ROOT12: pr.listing}
    for n in pr.names:
        docs['http://h.io/api/' + n] = pr.res[n]
    a = App.load(ROOT12, resolver=Resolver(default_getter=getter_for(docs)), sep=sep)
    a.prepare()
    c.eq(sorted(a.m), ['pet%sPet' % sep, 'user%sPet' % sep], 'models with separator')
    for n in ('pet', 'user'):
        o = a.op[n, 'get' if same else 'get' + n]
        q, r = o()
        r.apply_with(status=200, raw='{"id": "5"}' if n == 'user' else '{"id": 5}')
        c.eq(plain(r.data), {'id': '5' if n == 'user' else 5, 'kind': 'Pet'}, 'answer of %s' % n)
        c.eq(a.m[n, 'Pet'] is a.m['%s%sPet' % (n, sep)], True, 'model of %s' % n)
        c.state(sep, same, n, plain(r.data))
        other = outcome(lambda: a.op['get'])
        c.eq(other[0], 'err', 'ambiguous or unknown name')


def empty(c):
    """APIs without operations, or without resources"""
    pr = Pair(c.free('resources', [(), ('pet',), ('pet', 'user')]))
    for n in pr.names:
        if c.free('models of %s' % n, [False, True]):
            simple_pet(pr, n)
    pr.doc['host'] = ''
    a, b = compare(c, pr, 'empty')
    c.state(pr.names, sorted(a.m))


SCENARIOS = [
    dict(name='params', fn=params, bound=dict(quick=2, thorough=4), space='every kind x primitive x array/allowMultiple/File, limits, defaults, enums; all values of the alphabet'),
    dict(name='bodies', fn=bodies, bound=dict(quick=1, thorough=2), space='body and return types: primitives, models by type and $ref, arrays of them'),
    dict(name='answers', fn=answers, bound=0, space='return types x response messages with and without models'),
    dict(name='resources', fn=resources, bound=dict(quick=1, thorough=2), space='1-3 resources, base paths, media types by resource and operation, shared paths, info'),
    dict(name='models', fn=models, bound=dict(quick=1, thorough=2), space='inheritance trees, orders, property kinds'),
    dict(name='security', fn=security, bound=dict(quick=1, thorough=3), space='4 schemes, authorizations of resource and operations, all subsets of credentials'),
    dict(name='empty', fn=empty, bound=0, space='no operations, no resources'),
    dict(name='separator', fn=separator, bound=0, space='scope separators'),
]
