import copy

from pyswagger.spec.base import BaseObj
from mc import engine
from mc.lib import mem_app, ROOT, same

ASSUMPTIONS = ['fields defined by Swagger 2.0 (vendor extensions are not part of the object model)',
               'pointers are given with ~0/~1 escapes, not percent-encoded']

# names that are prefixes of one another, contain separators, or look like indices
NAMES = ['Pet', 'Pet/x', 'Pet~1x', 'Pet~x', 'Pets', '0', '~01', '#', 'Pet#', 'properties', 'a b', u'\u00e9']


def esc(s):
    return s.replace('~', '~0').replace('/', '~1')


def feature_docs(c):
    """a document with every kind of 2.0 object; keys come from NAMES"""
    k1 = c.pick('name1', NAMES, free=True)
    k2 = c.pick('name2', [n for n in NAMES if n != k1], free=True)
    addp = c.pick('addp', [False, True, {'type': 'number', 'format': 'double', 'multipleOf': 0.5}])
    sch = lambda tag: {'type': 'object', 'title': tag, 'required': ['z'], 'properties': {
        k1: {'type': 'integer', 'minimum': 0, 'maximum': 2.5, 'default': 0, 'description': tag + 'p1'},
        k2: {'type': 'array', 'items': {'type': 'string', 'enum': ['', 'x'], 'title': tag + 'it'}, 'description': tag + 'p2'},
        'z': {'$ref': '#/definitions/' + esc(k2), 'description': 'd'}},
        'additionalProperties': addp,
        'allOf': [{'description': tag + 'all0'}, {'properties': {'q': {'type': 'boolean', 'default': False, 'readOnly': True}}}],
        'example': {k1: 1, k2: ['', {'a': 0}]}, 'xml': {'name': tag, 'wrapped': True}, 'externalDocs': {'url': 'u' + tag}}
    paths = {}
    ps = ['/' + esc(k1).replace('~', '') .replace('#', ''), '/a', '/a/b']
    if c.flag('param path', free=False):
        ps.append('/a/{id}')
    for i, p in enumerate(dict.fromkeys(ps)):
        prm = [{'name': 'q', 'in': 'query', 'type': 'array', 'items': {'type': 'array', 'items': {'type': 'integer', 'maximum': 0}}, 'default': [[0]]},
               {'name': 'id', 'in': 'path', 'required': True, 'type': 'string', 'pattern': '^%d' % i}]
        paths[p] = {'get': {'tags': ['t%d' % i, k1], 'operationId': 'g%d' % i, 'summary': '', 'deprecated': True, 'parameters': prm,
                            'security': [{'k': []}, {'o': ['s1', 's2']}],
                            'responses': {'200': {'description': 'ok%d' % i, 'headers': {'X-A': {'type': 'integer', 'default': 0}, k1: {'type': 'string'}},
                                                  'schema': {'type': 'array', 'items': {'type': 'string', 'title': 'r%d' % i}},
                                                  'examples': {'application/json': ['x', 0, '']}},
                                          'default': {'$ref': '#/responses/' + esc(k1)}}},
                    'post': {'operationId': 'p%d' % i, 'consumes': ['application/json', 'text/plain'], 'produces': ['a/b'], 'schemes': ['https'],
                             'externalDocs': {'description': 'x', 'url': 'y'},
                             'parameters': [{'name': 'b', 'in': 'body', 'schema': sch('b%d' % i)}, {'$ref': '#/parameters/' + esc(k2)}],
                             'responses': {'default': {'description': 'd%d' % i}}}}
    return {'swagger': '2.0', 'info': {'title': 'T', 'version': '0', 'description': '', 'contact': {'name': 'n', 'email': 'e@x'}, 'license': {'name': 'l', 'url': 'u'}},
            'host': 'h.io', 'basePath': '/v1', 'schemes': ['http', 'https'], 'consumes': ['c/1'], 'produces': ['p/1', 'p/2'],
            'tags': [{'name': 't0', 'description': 'td', 'externalDocs': {'url': 'z'}}, {'name': 't1'}], 'externalDocs': {'url': 'top'},
            'paths': paths, 'definitions': {k1: sch('D1'), k2: sch('D2')} if c.flag('cross') is False else {k2: sch('D2'), k1: sch('D1'), k1 + k2: sch('D3')},
            'parameters': {k1: {'name': 'P1', 'in': 'query', 'type': 'number', 'minimum': -0.5}, k2: {'name': 'P2', 'in': 'header', 'type': 'string', 'minLength': 0}},
            'responses': {k1: {'description': 'R1', 'schema': {'$ref': '#/definitions/' + esc(k1)}}, k2: {'description': 'R2'}},
            'securityDefinitions': {'k': {'type': 'apiKey', 'name': 'n', 'in': 'query'}, 'o': {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'a', 'scopes': {'s1': '', 's2': 'two'}},
                                    k1: {'type': 'basic'}},
            'security': [{'k': []}]}


def down(o, tok):
    """one step by attribute, key or index"""
    if isinstance(o, BaseObj):
        return getattr(o, tok)
    if isinstance(o, list):
        return o[int(tok)]
    return o[tok]


def pointers(c):
    d = feature_docs(c)
    want = copy.deepcopy(d)
    # documented: references are kept in their absolute spelling
    app = mem_app(d, strict=False)
    forms = [lambda p: '#' + p, lambda p: ROOT + '#' + p]
    objs = {}
    n = [0]

    def visit(val, toks, walked):
        ptr = ''.join('/' + esc(t) for t in toks)
        n[0] += 1
        if val is not None:
            for i, f in enumerate(forms):
                ref = f(ptr)
                got = app.resolve(ref)
                direct = app.root.resolve(list(toks))
                if isinstance(walked, BaseObj):
                    c.check(direct is walked, 'pointer %s: tokens and attributes give different objects' % ref, 'tokens')
                    c.check(got.__repr__() == walked.__repr__(), 'pointer %s gives another object than walking to it' % ref, 'alias')
                else:
                    c.check(same(got, walked) or got is walked, 'pointer %s gives %r, walking gives %r' % (ref, got, walked), 'walk')
                    c.check(direct is walked or same(direct, walked), 'tokens of %s give %r, walking gives %r' % (ref, direct, walked), 'tokens')
        if isinstance(walked, BaseObj):
            c.check(id(walked) not in objs, 'pointers %s and %s give the same object' % (ptr, objs.get(id(walked))), 'shared')
            objs[id(walked)] = ptr
            for k in val:
                visit(val[k], toks + [k], down(walked, k))
            for fld, dflt in defaults(walked).items():
                if fld in val:
                    continue
                if fld in inherited(walked, toks):
                    continue
                c.check(same(getattr(walked, fld), dflt), 'field %s not written at %s reads as %r' % (fld, ptr, getattr(walked, fld)), 'default')
        elif isinstance(val, dict):
            c.check(isinstance(walked, dict) and set(walked) == set(val), 'keys at %s: %r' % (ptr, walked), 'keys')
            for k in val:
                visit(val[k], toks + [k], down(walked, k))
        elif isinstance(val, list):
            c.check(len(walked) == len(val), 'length at %s: %d' % (ptr, len(walked)), 'length')
            for i, x in enumerate(val):
                visit(x, toks + [str(i)], down(walked, str(i)))
        else:
            w = val
            if toks and toks[-1] == '$ref' and w.startswith('#'):
                w = ROOT + w
            c.check(same(walked, w), 'value at %s is %r, the document says %r' % (ptr, walked, w), 'value')
    for k in want:
        visit(want[k], [k], down(app.root, k))
    c.step(n[0])
    c.state(sorted(want['definitions']), n[0])
    # pointers that lead nowhere
    names = list(want['definitions'])
    bad = ['/definitions/Nope', '/definitions/' + esc(names[0]) + 'x', '/definition', '/definitions/' + esc(names[0]) + '/nope',
           '/info/title/x', '/tags/2', '/tags/-1', '/tags/x', '/info/contact/url', '/schemes/2', '/paths/~1a/put', '/host/0',
           '/definitions/%s/properties/nope' % esc(names[0]), '/paths/~1a~1', '/paths/a', '/definitions/Pet ', '/x']
    # a raw (unescaped) spelling of a name with special characters is another pointer
    for nm in names:
        if esc(nm) != nm and nm not in [x for x in names if x == esc(nm)]:
            bad.append('/definitions/' + nm)
    for b in bad:
        toks = [t.replace('~1', '/').replace('~0', '~') for t in b.split('/')[1:]]
        if exists(want, toks):
            continue
        for f in forms:
            try:
                got = app.resolve(f(b))
            except Exception:   # noqa: any error will do
                continue
            leaf, idx = below_leaf(want, toks)
            if leaf is not None and same(got, leaf):
                c.finding('below a leaf', 'pointer %s leads nowhere but gives %r' % (f(b), got))
            elif idx is not None and got.__repr__() == app.root.resolve(toks[:-1])[int(idx)].__repr__():
                c.finding('negative index', 'pointer %s leads nowhere but gives %r' % (f(b), got))
            else:
                c.fail('pointer %s leads nowhere but gives %r' % (f(b), got), 'nowhere')
    for b in ('', None):
        try:
            app.resolve(b)
        except ValueError:
            continue
        c.fail('empty reference accepted')


def below_leaf(d, toks):
    """-> (value of the scalar above the end of the pointer or None, negative index at its end or None)"""
    for i, t in enumerate(toks):
        if isinstance(d, dict) and t in d:
            d = d[t]
        elif isinstance(d, list) and t.isdigit() and int(t) < len(d):
            d = d[int(t)]
        elif isinstance(d, list) and t.startswith('-') and t[1:].isdigit() and i == len(toks) - 1:
            return None, t
        else:
            break
    return (None if isinstance(d, (dict, list)) else d), None


def exists(d, toks):
    for t in toks:
        if isinstance(d, dict) and t in d:
            d = d[t]
        elif isinstance(d, list) and t.isdigit() and int(t) < len(d):
            d = d[int(t)]
        else:
            return False
    return True


DEF = {
    'Schema': {'type': None, 'format': None, 'items': None, 'default': None, 'maximum': None, 'exclusiveMaximum': None, 'minLength': None, 'maxItems': None,
               'enum': None, 'uniqueItems': None, '$ref': None, 'required': [], 'allOf': [], 'properties': {}, 'additionalProperties': True, 'title': None,
               'discriminator': None, 'readOnly': None, 'xml': None, 'externalDocs': None, 'example': None},
    'Parameter': {'required': None, 'collectionFormat': 'csv', 'schema': None, 'default': None, 'items': None, 'allowEmptyValue': False},
    'Items': {'collectionFormat': 'csv', 'type': None, 'minimum': None, 'items': None},
    'Header': {'collectionFormat': 'csv', 'default': None, 'items': None, 'description': None},
    'Response': {'headers': {}, 'schema': None, 'examples': None, '$ref': None},
    'Operation': {'deprecated': False, 'summary': None, 'description': None, 'externalDocs': None, 'tags': None, 'operationId': None},
    'PathItem': {'put': None, 'delete': None, 'parameters': [], '$ref': None},
    'Info': {'termsOfService': None}, 'Contact': {'url': None}, 'License': {'url': None}, 'Tag': {'description': None},
    'SecurityScheme': {'flow': None, 'scopes': None, 'name': None, 'in': None},
    'XMLObject': {'namespace': None, 'prefix': None, 'attribute': None}, 'ExternalDocumentation': {'description': None},
}


def defaults(o):
    return DEF.get(type(o).__name__, {})


def inherited(o, toks):
    return ()


SCENARIOS = [dict(name='pointers', fn=pointers, bound=dict(quick=1, thorough=3),
                  space='documents with every kind of object, all ordered pairs of 13 adversarial key names; all pointers (local and with URL), defaults of unwritten fields, pointers leading nowhere')]
