import copy
import datetime
import itertools
import json
import uuid

from mc import engine
from mc.engine import Skip
from mc.lib import P, one_op, mem_app, doc, op as mkop, same, plain

ASSUMPTIONS = ['byte strings are compared on the wire only (they are not decoded when read, pinned by the test suite)',
               'schemas have a type, properties or allOf; free-form parts hold JSON values']
U = '12345678-1234-5678-1234-567812345678'
D, DT = datetime.date(2001, 2, 3), datetime.datetime(2001, 2, 3, 4, 5, 6, 700)
# schema, [(argument, JSON value, typed value)]
LEAVES = {
    'string': (dict(type='string'), [(u'\u00e9\n"\\', u'\u00e9\n"\\', u'\u00e9\n"\\'), ('', '', ''), (5, '5', '5')]),
    'integer': (dict(type='integer'), [(0, 0, 0), (-2 ** 60, -2 ** 60, -2 ** 60), ('12', 12, 12)]),
    'int64': (dict(type='integer', format='int64'), [(2 ** 40, 2 ** 40, 2 ** 40), (0, 0, 0)]),
    'number': (dict(type='number'), [(1.5, 1.5, 1.5), (0, 0.0, 0.0), ('2.5', 2.5, 2.5), (1e300, 1e300, 1e300)]),
    'number int32': (dict(type='number', format='int32'), [(7, 7, 7), (0, 0, 0)]),
    'boolean': (dict(type='boolean'), [(True, True, True), (False, False, False)]),
    'date': (dict(type='string', format='date'), [(D, '2001-02-03', ('Date', '2001-02-03')), ('1999-12-31', '1999-12-31', ('Date', '1999-12-31'))]),
    'date-time': (dict(type='string', format='date-time'), [(DT, '2001-02-03T04:05:06.000700', ('Datetime', '2001-02-03 04:05:06.000700')),
                                                          ('2001-02-03T04:05:06.7-03:30', '2001-02-03T04:05:06.700000-03:30', ('Datetime', '2001-02-03 04:05:06.700000-03:30'))]),
    'uuid': (dict(type='string', format='uuid'), [(uuid.UUID(U), U, ('UUID', U)), (U.upper(), U, ('UUID', U))]),
    'byte': (dict(type='string', format='byte'), [(b'\xff\xfe\xfd', '__79', None), ('ab', 'YWI=', None), (b'', '', None)]),
    'binary': (dict(type='string', format='binary'), [(b'ab', 'YWI=', None)]),
    'password': (dict(type='string', format='password'), [('p', 'p', 'p')]),
    'email': (dict(type='string', format='email'), [('a@b.co', 'a@b.co', 'a@b.co')]),
    'unknown format': (dict(type='string', format='odd'), [('x', 'x', 'x')]),
    'object': (dict(type='object'), [({}, {}, {}), ({'k': [1, None, {'z': 'y'}], 'l': 0}, {'k': [1, None, {'z': 'y'}], 'l': 0}, {'k': [1, None, {'z': 'y'}], 'l': 0})]),
}
CONT = ['array', 'object', 'map', 'untyped map', 'allOf', 'ref', 'untyped object', 'nested allOf']


class Ctx(object):
    def __init__(self):
        self.defs = {}


def wrap(kind, ctx, inner, leaf2):
    """(schema, values) of a container around `inner`; leaf2 is a second type beside it"""
    (s, vals), (s2, vals2) = inner, leaf2
    lim = vals[:4]
    if kind == 'array':
        out = [([], [], [])]
        for n in (1, 2):
            for els in itertools.product(lim, repeat=n):
                out.append(tuple([e[i] for e in els] for i in range(3)))
        return dict(type='array', items=s), out
    if kind in ('map', 'untyped map'):
        out = [({}, {}, {})]
        for e in lim:
            out.append(tuple({'k': e[i]} for i in range(3)))
            for e2 in lim:
                out.append(tuple({u'k\u00e9': e[i], 'a b': e2[i]} for i in range(3)))
        return dict({'type': 'object'} if kind == 'map' else {}, additionalProperties=s), out
    if kind == 'ref':
        n = 'R%d' % len(ctx.defs)
        ctx.defs[n] = s
        return {'$ref': '#/definitions/' + n}, vals
    props = []
    for e in lim + [None]:
        for f in vals2[:2] + [None]:
            d = [{}, {}, {}]
            for i in range(3):
                if e is not None:
                    d[i]['a'] = e[i]
                if f is not None:
                    d[i]['b'] = f[i]
            props.append(tuple(d))
    props.append(tuple({'a': None, 'x': [1, {'y': None}]} for i in range(3)))
    if kind == 'object':
        return dict(type='object', properties={'a': s, 'b': s2}), props
    if kind == 'untyped object':
        return dict(properties={'a': s, 'b': s2}), props
    if kind == 'allOf':
        n = 'A%d' % len(ctx.defs)
        ctx.defs[n] = dict(type='object', properties={'a': s})
        return dict(type='object', allOf=[{'$ref': '#/definitions/' + n}, dict(properties={'b': s2})]), props
    if kind == 'nested allOf':
        n = 'B%d' % len(ctx.defs)
        ctx.defs[n] = dict(type='object', allOf=[dict(properties={'b': s2})])
        return dict(type='object', properties={'zz': {'type': 'integer'}}, allOf=[dict(properties={'cc': {'type': 'string'}}), dict(allOf=[{'$ref': '#/definitions/' + n}, dict(properties={'a': s})])]), props
    raise AssertionError(kind)


def has_byte(v):
    return isinstance(v, dict) and any(has_byte(x) for x in v.values()) or isinstance(v, list) and any(has_byte(x) for x in v) or v is None


def judge(c, app, arg, want, typed, readable):
    keep = copy.deepcopy(arg)
    req, resp = app.op['op'](body=arg)
    req.prepare(scheme='http')
    c.step(2)
    c.eq(req.header.get('Content-Type'), 'application/json', 'content type')
    try:
        got = json.loads(req.data)
    except ValueError:
        c.fail('body is not JSON: %r' % req.data, 'json')
    c.check(same(got, want), '%r is sent as %r, expected %r' % (keep, got, want), 'sent')
    c.check(same(plain(arg), plain(keep)), 'the argument was modified')
    c.state(json.dumps(got, sort_keys=True))
    if not readable:
        return
    for text in (req.data, json.dumps(got, ensure_ascii=False).encode('utf-8')):
        _, resp = app.op['op'](body=arg)
        resp.apply_with(status=200, raw=text, header={'Content-Type': 'application/json'})
        c.check(same(plain(resp.data), typed), '%r read back as %r, expected %r' % (text, plain(resp.data), typed), 'read back')


def values(c):
    depth = c.free('depth', [2, 1, 0] + ([3] if engine.TIER == 'thorough' else []))
    kinds = [c.free('kind%d' % i, CONT) for i in range(depth)]
    leaf = c.free('leaf', sorted(LEAVES))
    beside = c.pick('beside', ['integer'] + [x for x in sorted(LEAVES) if x != 'integer'])
    ctx = Ctx()
    cur = LEAVES[leaf]
    for k in kinds:
        s, v = cur
        cur = wrap(k, ctx, (s, sorted(v, key=lambda x: -len(str(x[1])))[:6] if len(v) > 6 else v), LEAVES[beside])
    schema, vals = cur
    app = mem_app(doc(definitions=ctx.defs, paths={'/a': {'post': mkop([P('body', 'body', schema=schema)], {'200': {'description': '', 'schema': copy.deepcopy(schema)}}, operationId='op')}}))
    readable = not ({'byte', 'binary'} & {leaf, beside})
    for arg, want, typed in vals:
        judge(c, app, arg, want, typed, readable)


def recursive(c):
    """trees of a definition that refers to itself, in every shape up to 4 nodes"""
    how = c.free('children', ['array', 'map', 'property', 'allOf'])
    n = c.free('nodes', [1, 2, 3, 4])
    node = {'type': 'object', 'properties': {'v': {'type': 'string', 'format': 'date'}}}
    ref = {'$ref': '#/definitions/N'}
    node['properties']['c'] = {'array': {'type': 'array', 'items': ref}, 'map': {'type': 'object', 'additionalProperties': ref}, 'property': ref,
                               'allOf': {'type': 'object', 'allOf': [{'properties': {'n': ref, 'm': ref}}]}}[how]

    def build(k):
        """a tree of k nodes, shape chosen"""
        v = c.pick('value', [D, '2000-01-02'])
        t = [{'v': v}, {'v': str(v)}, {'v': ('Date', str(v))}]
        left = k - 1
        kids = []
        while left:
            take = c.free('child', list(range(left, 0, -1)) if how not in ('property', 'allOf') or (how == 'allOf' and not kids) else [left])
            kids.append(build(take))
            left -= take
        for i in range(3):
            if not kids:
                continue
            if how == 'array':
                t[i]['c'] = [x[i] for x in kids]
            elif how == 'property':
                t[i]['c'] = kids[0][i]
            else:
                t[i]['c'] = dict(zip('nm' if how == 'allOf' else 'pqrs', [x[i] for x in kids]))
        return t
    arg, want, typed = build(n)
    app = mem_app(doc(definitions={'N': node}, paths={'/a': {'post': mkop([P('body', 'body', schema=ref)], {'200': {'description': '', 'schema': ref}}, operationId='op')}}), strict=False)
    judge(c, app, arg, want, typed, True)


def names(c):
    """property names, and body parameters that are called like other things"""
    name = c.free('property', ['a', 'in', 'type', 'items', 'get', 'keys', 'update', 'cleanup', 'a.b', '$ref', u'\u00e9', 'A', '', 'allOf', 'apply_with'])
    pname = c.free('parameter', ['body', 'data', 'x', 'self_', 'name'])
    how = c.free('schema', ['object', 'ref', 'allOf'])
    sc = dict(type='object', properties={name: {'type': 'string', 'format': 'date'}, 'z': {'type': 'integer'}}, required=[name])
    defs = {}
    if how == 'ref':
        defs, sc = {'M': sc}, {'$ref': '#/definitions/M'}
    elif how == 'allOf':
        sc = {'type': 'object', 'allOf': [sc]}
    if name == '$ref':
        raise Skip()
    app = mem_app(doc(definitions=defs, paths={'/a': {'post': mkop([P(pname, 'body', schema=sc)], {'200': {'description': '', 'schema': sc}}, operationId='op')}}))
    for z in (0, 5):
        req, resp = app.op['op'](**{pname: {name: D, 'z': z}})
        req.prepare(scheme='http')
        c.check(same(json.loads(req.data), {name: '2001-02-03', 'z': z}), 'sent: %s' % req.data, 'sent')
        resp.apply_with(status=200, raw=req.data)
        c.check(same(plain(resp.data), {name: ('Date', '2001-02-03'), 'z': z}), 'read: %r' % plain(resp.data), 'read')
    c.state(name, pname, how)


SCENARIOS = [
    dict(name='values', fn=values, bound=dict(quick=0, thorough=1), space='15 leaf types x 8 containers nested up to depth 2 (3) x all bounded values'),
    dict(name='recursive', fn=recursive, bound=dict(quick=1, thorough=4), space='all trees up to 4 nodes over 4 kinds of recursion'),
    dict(name='names', fn=names, bound=0, space='adversarial property and parameter names'),
]
