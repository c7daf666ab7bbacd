"""C28: custom primitives"""
import json

from six.moves.urllib.parse import unquote
from mc import engine
from mc.engine import Skip
from mc.lib import mem_app, doc, op as mkop, P, plain, same
from pyswagger.primitives import Primitive

ASSUMPTIONS = ['creators give text; formats of the empty string are not registered', 'how often a validator runs for parts of allOf is left open']
# declared (type, format), a value, what the handler of pyswagger makes of it (str: on the wire, response)
DECL = [('integer', 'enc', 5), ('integer', None, 5), ('integer', 'int32', 5), ('string', 'special', 'v'), ('string', 'other', 'v'), ('string', None, 'v'), ('string', 'date', '2001-02-03'), ('custom', None, 'v'),
        ('custom', 'f', 'v'), ('custom', 'g', 'v'), ('number', 'enc', 1.5), ('string', 'enc', 'v')]
BUILTIN = {'integer': [None, 'int32', 'int64'], 'number': [None, 'float', 'double', 'int32', 'int64'], 'string': [None, '', 'email', 'uuid', 'password', 'byte', 'binary', 'date', 'date-time'],
           'boolean': [None, ''], 'array': [None, ''], 'object': [None, ''], 'file': [None, '']}


class Mark(str):
    pass


def creator(tag, calls):
    def create(obj, val, ctx):
        calls.append(('create', tag, val, obj.type, obj.format, ctx.get('read')))
        return Mark('%s<%s>' % (tag, val))
    return create


def validator(tag, calls):
    def check(obj, ret, val, ctx):
        calls.append(('check', tag, str(ret), val, obj.type, obj.format))
        if val == 'bad' or val == 13:
            raise ValueError('rejected by %s' % tag)
        return val
    return check


def resolve(reg, t, f):
    """tag of the custom handler, 'builtin', or None (nothing handles it)"""
    if (t, f) in reg:
        return reg[(t, f)]
    if f in BUILTIN.get(t, []):
        return 'builtin'
    if (t, None) in reg:
        return reg[(t, None)]
    return 'builtin' if t in BUILTIN else None


PLACES = ['query', 'path', 'header', 'form', 'items', 'items of items', 'body', 'property', 'body items', 'additional', 'nested', 'referred', 'allOf part', 'allOf property', 'default', 'response', 'response header',
          'response property', 'response items', 'referred parameter', 'property default', 'multi form']


def build(place, t, f, v):
    """-> (document parts, kwargs, read function)"""
    d = {'type': t}
    if f is not None:
        d['format'] = f
    dflt = dict(d, default=v)
    defs = {}
    params, resp, kw, docp = [], {'description': ''}, {}, {}
    obj = lambda p: {'type': 'object', 'properties': {'a': p, 'b': {'type': 'boolean'}}}
    if place == 'query':
        params, kw = [dict(d, name='x', **{'in': 'query'})], {'x': v}
    elif place == 'referred parameter':
        docp['parameters'] = {'X': dict(d, name='x', **{'in': 'query'})}
        params, kw = [{'$ref': '#/parameters/X'}], {'x': v}
    elif place == 'path':
        params, kw = [dict(d, name='x', required=True, **{'in': 'path'})], {'x': v}
    elif place == 'header':
        params, kw = [dict(d, name='x', **{'in': 'header'})], {'x': v}
    elif place == 'form':
        params, kw = [dict(d, name='x', **{'in': 'formData'})], {'x': v}
    elif place == 'multi form':
        params, kw = [P('x', 'formData', 'array', items=d, collectionFormat='multi')], {'x': [v, v]}
    elif place == 'items':
        params, kw = [P('x', 'query', 'array', items=d)], {'x': [v, v]}
    elif place == 'items of items':
        params, kw = [P('x', 'query', 'array', items={'type': 'array', 'items': d, 'collectionFormat': 'pipes'})], {'x': [[v, v], [v]]}
    elif place == 'default':
        params, kw = [dict(dflt, name='x', **{'in': 'query'})], {}
    elif place in ('body', 'response'):
        sch = d
    elif place in ('property', 'response property'):
        sch = obj(d)
    elif place in ('body items', 'response items'):
        sch = {'type': 'array', 'items': d}
    elif place == 'additional':
        sch = {'type': 'object', 'additionalProperties': d}
    elif place == 'nested':
        sch = obj({'type': 'array', 'items': {'type': 'object', 'additionalProperties': d}})
    elif place == 'referred':
        defs['D'] = d
        sch = obj({'$ref': '#/definitions/D'})
    elif place == 'allOf part':
        sch = {'allOf': [d]}
    elif place == 'allOf property':
        defs['B'] = obj(d)
        sch = {'allOf': [{'$ref': '#/definitions/B'}, {'properties': {'c': {'type': 'boolean'}}}]}
    elif place == 'property default':
        sch = obj(dflt)
    elif place == 'response header':
        resp['headers'] = {'X-H': d}
    shape = {'body': lambda x: x, 'property': lambda x: {'a': x, 'b': True}, 'body items': lambda x: [x, x], 'additional': lambda x: {'z': x}, 'nested': lambda x: {'a': [{'z': x}]}, 'referred': lambda x: {'a': x},
             'allOf part': lambda x: x, 'allOf property': lambda x: {'a': x, 'c': False}, 'property default': lambda x: {'a': x}, 'response': lambda x: x, 'response property': lambda x: {'a': x, 'b': True},
             'response items': lambda x: [x, x]}.get(place)
    if shape:
        if place.startswith('response'):
            resp['schema'] = sch
        else:
            params, kw = [P('x', 'body', schema=sch)], {'x': shape(v) if place != 'property default' else {}}
            resp['schema'] = sch
    if defs:
        docp['definitions'] = defs
    path = '/a/{x}' if place == 'path' else '/a'
    return doc(paths={path: {'post': mkop(params, {'200': resp}, operationId='op')}}, **docp), kw, shape


def text(tag, t, f, v):
    """text on the wire outside of JSON"""
    return '%s<%s>' % (tag, v) if tag != 'builtin' else str(v)


def value(tag, t, f, v, typed):
    if tag != 'builtin':
        return '%s<%s>' % (tag, v)
    if typed and (t, f) == ('string', 'date'):
        return ('Date', v)
    return v


def observe(c, app, place, t, f, v, tag, kw, shape, who):
    """checks requests and responses of one App against the handler `tag`"""
    what = '%s: %s/%s at %s, handled by %s' % (who, t, f, place, tag)
    c.step()
    try:
        req, resp = app.op['op'](**kw)
    except Exception as e:      # noqa
        c.check(tag is None, '%s: %s: %s' % (what, type(e).__name__, e), 'refused')
        return
    if not place.startswith('response'):
        c.check(tag is not None, what + ': accepted', 'accepted')
        req.prepare(scheme='http')
        tx = text(tag, t, f, v)
        if place in ('query', 'default', 'referred parameter'):
            got, want = req.query, [('x', tx)]
        elif place == 'path':
            got, want = unquote(req.path), '/a/' + tx
        elif place == 'header':
            got, want = req.header.get('x'), tx
        elif place == 'form':
            got, want = req._p['formData'], [('x', tx)]
        elif place == 'multi form':
            got, want = req._p['formData'], [('x', tx)] * 2
        elif place == 'items':
            got, want = req.query, [('x', tx + ',' + tx)]
        elif place == 'items of items':
            got, want = req.query, [('x', '%s|%s,%s' % (tx, tx, tx))]
        else:
            got, want = json.loads(req.data), shape(value(tag, t, f, v, False))
        c.check(same(got, want), '%s: got %r, expected %r' % (what, got, want), 'request')
    if shape or place == 'response header':
        w = shape(v) if shape else None
        if place == 'property default':
            w = {}
        try:
            if shape:
                resp.apply_with(status=200, raw=json.dumps(w), header={'Content-Type': 'application/json'})
            else:
                resp.apply_with(status=200, header={'x-h': str(v)})
        except Exception as e:      # noqa
            c.check(tag is None, '%s: response: %s: %s' % (what, type(e).__name__, e), 'response refused')
            return
        c.check(tag is not None, what + ': response accepted', 'accepted')
        got = plain(resp.data if shape else resp.header['X-H'])
        want = shape(value(tag, t, f, v, True)) if shape else [value(tag, t, f, v, True)]
        c.check(same(got, want), '%s: response %r, expected %r' % (what, got, want), 'response')


def places(c):
    """histories of registrations on one factory; every place; a second factory and a later one stay as they were"""
    depth = 3 if engine.TIER == 'thorough' else 2
    t, f, v = c.free('declared', DECL)
    place = c.free('place', PLACES)
    late = c.free('registered', ['before', 'after'])
    if place == 'allOf part' and f == 'date':
        raise Skip()
    calls = []
    factory = Primitive()
    d, kw, shape = build(place, t, f, v)
    app = mem_app(d, prim=factory) if late == 'after' else None
    related = [(t, f)] + [x for x in [(t, None), ('custom', 'f')] * (t == 'custom') + [(t, None), ('string', 'special'), ('integer', 'enc'), ('integer', None), ('string', None), ('string', 'enc'), ('custom', None), ('string', 'date')] if x != (t, f)]
    related = list(dict.fromkeys(related))
    if engine.TIER != 'thorough':
        related = related[:5]
    reg = {}
    for i in range(depth):
        x = c.free('registration %d' % i, [None] + related)
        if x is None:
            break
        tag = 'ABC'[i]
        factory.register(x[0], x[1], creator(tag, calls), validator(tag, calls) if c.pick('validator', [True, False]) else None)
        reg[x] = tag
    # keys of objects and the other property stay what they are
    if app is None:
        app = mem_app(d, prim=factory)
    observe(c, app, place, t, f, v, resolve(reg, t, f), kw, shape, 'registered')
    del calls[:]
    other = mem_app(d, prim=Primitive())
    third = mem_app(d)
    for who, a in (('other factory', other), ('default factory', third)):
        observe(c, a, place, t, f, v, resolve({}, t, f), kw, shape, who)
    c.eq(calls, [], 'handlers called for another factory')
    for ty in ('integer', 'custom', 'string', 'nope'):
        c.eq(factory.is_primitive(ty), ty in BUILTIN or any(k[0] == ty for k in reg), 'is_primitive(%s)' % ty)
    c.state(sorted(reg.items(), key=str), place, t, f)


def handlers(c):
    """what creators and validators are given, how often they are called, and that a validator can reject"""
    place = c.free('place', [p for p in PLACES])
    t, f = c.free('declared', [('integer', 'enc'), ('string', 'special'), ('custom', None), ('string', 'date'), ('number', None)])
    v = c.free('value', {'integer': [0, 5, 13], 'number': [0, 1.5, 13]}.get(t, ['', 'v', 'bad']))
    val = c.free('validator', [True, False])
    again = c.pick('again', ['once', 'replaced', 'twice'])
    if place == 'allOf part':
        raise Skip()
    calls = []
    factory = Primitive()
    d, kw, shape = build(place, t, f, v)
    if again == 'replaced':
        factory.register(t, f, creator('Z', calls), validator('Z', calls))
    factory.register(t, f, creator('A', calls), validator('A', calls) if val else None)
    if again == 'twice':
        factory.register(t, f, creator('A', calls), validator('A', calls) if val else None)
    app = mem_app(d, prim=factory)
    bad = val and v in ('bad', 13)
    n = {'items': 2, 'items of items': 3, 'body items': 2, 'response items': 2, 'multi form': 2}.get(place, 1)
    del calls[:]
    pair = None
    if not place.startswith('response'):
        try:
            pair = app.op['op'](**kw)
        except ValueError as e:
            c.check(bad and 'rejected by A' in str(e), 'refused: %s' % e)
            c.state('rejected')
            return
        c.check(not bad, 'accepted')
        judge_calls(c, calls, n, v, t, f, val, None)
        del calls[:]
    else:
        pair = app.op['op'](**kw)
        c.eq(calls, [], 'handlers called without a value')
    if shape or place == 'response header':
        w = shape(v) if shape and place != 'property default' else {}
        try:
            if shape:
                pair[1].apply_with(status=200, raw=json.dumps(w))
            else:
                pair[1].apply_with(status=200, header={'X-H': v})
        except ValueError as e:
            c.check(bad and 'rejected by A' in str(e), 'refused: %s' % e)
            c.state('rejected')
            return
        c.check(not bad, 'accepted')
        judge_calls(c, calls, n, v, t, f, val, None)
    c.state(place, t, f, v)


def judge_calls(c, calls, n, v, t, f, val, read):
    cr = [x for x in calls if x[0] == 'create']
    ck = [x for x in calls if x[0] == 'check']
    c.eq([x[1:5] for x in cr], [('A', v, t, f)] * n, 'creator called with')
    c.eq([x[1:] for x in ck], [('A', 'A<%s>' % v, v, t, f)] * n if val else [], 'validator called with')


def contexts(c):
    """creators know whether the value goes out or comes in (top level)"""
    place = c.free('place', ['query', 'path', 'header', 'form', 'body', 'response', 'response header'])
    calls = []
    factory = Primitive()
    factory.register('string', 'special', creator('A', calls))
    d, kw, shape = build(place, 'string', 'special', 'v')
    app = mem_app(d, prim=factory)
    pair = app.op['op'](**kw)
    c.eq([x[5] for x in calls], [] if place.startswith('response') else [False], 'read of a request')
    del calls[:]
    if place.startswith('response'):
        pair[1].apply_with(status=200, **(dict(raw='"v"') if shape else dict(header=[('X-H', 'v')])))
        c.eq([x[5] for x in calls], [True], 'read of a response')
    c.state(place)


SCENARIOS = [
    dict(name='places', fn=places, bound=dict(quick=0, thorough=1), space='12 declared types x 22 places x all registration histories up to 2 (3) before or after loading; two other factories as control'),
    dict(name='handlers', fn=handlers, bound=1, space='arguments and number of handler calls per place, type and value; rejection by the validator'),
    dict(name='contexts', fn=contexts, bound=0, space='direction known to the creator'),
]
