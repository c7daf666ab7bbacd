import itertools
import json

from six.moves.urllib.parse import unquote, parse_qsl
from mc import engine
from mc.engine import Skip
from mc.lib import P, mem_app, doc, op as mkop, same, plain

ASSUMPTIONS = ['a part of allOf without type is not the first one (schemas without type are taken as objects)', 'multipleOf and values are exactly representable numbers',
               'enum constrains strings (pinned by the test suite)', 'the email format is written beside the type that is met first (not added by a later part of allOf)']


def valid(s, v):
    """direct evaluation of the constraints of schema `s` (allOf parts included)"""
    ok = True
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        if s.get('minimum') is not None:
            ok = ok and (v > s['minimum'] if s.get('exclusiveMinimum') else v >= s['minimum'])
        if s.get('maximum') is not None:
            ok = ok and (v < s['maximum'] if s.get('exclusiveMaximum') else v <= s['maximum'])
        if s.get('multipleOf'):
            ok = ok and v % s['multipleOf'] == 0
    elif isinstance(v, str):
        ok = ok and s.get('minLength', 0) <= len(v) <= s.get('maxLength', 10 ** 9)
        if s.get('enum'):
            ok = ok and v in s['enum']
        if s.get('format') == 'email':
            ok = ok and v in ('a@b.co', 'x.y+z@mail.example.org')
    elif isinstance(v, list):
        ok = ok and s.get('minItems', 0) <= len(v) <= s.get('maxItems', 10 ** 9)
    return ok


def combos(**kw):
    names = sorted(kw)
    out = []
    for vals in itertools.product(*[kw[n] for n in names]):
        out.append(dict((n, v) for n, v in zip(names, vals) if v is not None))
    return out


def numbers(c):
    s = {}
    lo = c.free('minimum', [None, 0, 2, -1])
    hi = c.free('maximum', [None, 0, 3, -1])
    s.update({k: v for k, v in (('minimum', lo), ('maximum', hi)) if v is not None})
    for k, on in (('exclusiveMinimum', lo is not None), ('exclusiveMaximum', hi is not None)):
        v = c.pick(k, [None, True])
        if v is not None:
            s[k] = v
    if on and c.flag('exclusiveMaximum written as false') and 'exclusiveMaximum' not in s:
        s['exclusiveMaximum'] = False
    m = c.pick('multipleOf', [None, 2, 3])
    if m:
        s['multipleOf'] = m
    return s


def constraint(c, more=()):
    """-> (schema, values)"""
    kind = c.free('type', ['integer', 'number', 'string', 'array', 'email'] + list(more))
    if kind == 'boolean':
        return {'type': 'boolean'}, [True, False]
    if kind in ('integer', 'number'):
        s = dict(numbers(c), type=kind)
        f = c.pick('format', [None] + (['int32', 'int64'] if kind == 'integer' else ['float', 'double', 'int32']))
        if f:
            s['format'] = f
        vals = [-2, -1, 0, 1, 2, 3, 4, 6]
        if kind == 'number' and f != 'int32':
            vals = [float(v) for v in vals] + [-0.5, 0.5, 2.5, 3.5, -1.5, 1e-9, 3.0000001]
            if c.flag('fractional bounds'):
                if 'minimum' not in s and 'maximum' not in s:
                    raise Skip()
                for k in ('minimum', 'maximum'):
                    if k in s:
                        s[k] += 0.5
                if 'multipleOf' in s:
                    s['multipleOf'] = 0.5
        return s, vals
    if kind == 'string':
        s = dict(c.free('limits', combos(minLength=[None, 0, 1, 2], maxLength=[None, 0, 1, 2])), type='string')
        e = c.pick('enum', [None, ['', 'a', 'abc'], ['ab'], ['x']])
        if e:
            s['enum'] = e
        f = c.pick('format', [None, 'password', 'odd'])
        if f:
            s['format'] = f
        return s, ['', 'a', 'ab', 'abc', u'\u00e9', u'\u00e9\u00e8', 'A']
    if kind == 'array':
        s = dict(c.free('limits', combos(minItems=[None, 0, 1, 2], maxItems=[None, 0, 1, 2])), type='array', items={'type': 'integer'})
        return s, [[], [0], [1, 1], [1, 2, 3]]
    s = dict(c.free('limits', combos(minLength=[None, 7], maxLength=[None, 6, 21])), type='string', format='email')
    e = c.pick('enum', [None, ['a@b.co', 'nope']])
    if e:
        s['enum'] = e
    return s, ['a@b.co', 'x.y+z@mail.example.org', 'nope', 'a@', '@b.co', '', 'a b@c.co']


def split(s, how, defs):
    """the same constraints written in another way"""
    keys = [k for k in sorted(s) if k not in ('type', 'format', 'items')]
    base = dict((k, s[k]) for k in s if k not in keys)
    rest = dict((k, s[k]) for k in keys)
    pair = lambda ks: [k for k in keys if any(x in k.lower() for x in ks)]
    if how == 'direct':
        return s
    if how == 'ref':
        defs['X'] = s
        return {'$ref': '#/definitions/X'}
    if how == 'ref chain':
        defs['X'] = s
        defs['Y'] = {'$ref': '#/definitions/X'}
        return {'$ref': '#/definitions/Y'}
    if how == 'allOf first':
        return {'allOf': [s]}
    if how == 'allOf second':
        return {'allOf': [base, rest]}
    if how == 'beside allOf':
        return dict(base, allOf=[rest])
    if how == 'allOf spread':
        lo = pair(['min'])
        return dict(base, allOf=[dict((k, s[k]) for k in lo), dict((k, s[k]) for k in keys if k not in lo)])
    if how == 'own and allOf':
        lo = pair(['max', 'enum'])
        return dict(base, allOf=[dict((k, s[k]) for k in keys if k not in lo)], **dict((k, s[k]) for k in lo))
    if how == 'nested allOf':
        return dict(base, allOf=[dict(description='d'), dict(allOf=[dict(allOf=[rest])])])
    if how == 'allOf ref':
        defs['X'] = rest
        return dict(base, allOf=[{'$ref': '#/definitions/X'}])
    if how == 'type in ref':
        defs['X'] = base
        return {'allOf': [{'$ref': '#/definitions/X'}, rest]}
    raise AssertionError(how)


HOW = ['direct', 'ref', 'ref chain', 'allOf first', 'allOf second', 'beside allOf', 'allOf spread', 'own and allOf', 'nested allOf', 'allOf ref', 'type in ref']
WRAPS = {
    'itself': (lambda s: s, lambda v: v),
    'property': (lambda s: {'type': 'object', 'properties': {'p': s}}, lambda v: {'p': v}),
    'items': (lambda s: {'type': 'array', 'items': s}, lambda v: [v]),
    'second item': (lambda s: {'type': 'array', 'items': s}, None),
    'map': (lambda s: {'type': 'object', 'additionalProperties': s}, lambda v: {'k': v}),
    'property of item': (lambda s: {'type': 'array', 'items': {'properties': {'p': s}}}, lambda v: [{'p': v}]),
    'property of allOf': (lambda s: {'type': 'object', 'allOf': [{'properties': {'q': {'type': 'string'}}}, {'properties': {'p': s}}]}, lambda v: {'p': v}),
    'deep': (lambda s: {'type': 'object', 'properties': {'o': {'type': 'object', 'properties': {'l': {'type': 'array', 'items': {'type': 'object', 'additionalProperties': s}}}}}}, lambda v: {'o': {'l': [{'k': v}]}}),
}


def schemas(c):
    s, vals = constraint(c, ['boolean'])
    first = c.free('how', HOW)
    wrap = c.pick('where', ['itself', 'property', 'items', 'second item', 'map', 'property of item', 'property of allOf', 'deep'])
    way = c.free('direction', ['body', 'response'])
    defs = {}
    ws, wv = WRAPS[wrap]
    schema = ws(split(s, first, defs))
    if way == 'body':
        app = mem_app(doc(definitions=defs, paths={'/a': {'post': mkop([P('b', 'body', schema=schema)], operationId='op')}}))
    else:
        app = mem_app(doc(definitions=defs, paths={'/a': {'post': mkop([], {'200': {'description': '', 'schema': schema}}, operationId='op')}}))
    good = [v for v in vals if valid(s, v)]
    for v in vals:
        if wv is None:
            if not good:
                continue
            arg = [good[0], v]
        else:
            arg = wv(v)
        c.step()
        try:
            if way == 'body':
                req, _ = app.op['op'](b=arg)
                req.prepare(scheme='http')
                got = json.loads(req.data)
            else:
                _, resp = app.op['op']()
                resp.apply_with(status=200, raw=json.dumps(arg))
                got = plain(resp.data)
        except Exception as e:      # noqa
            c.check(not valid(s, v), '%r (%s, %s) refused by %r: %r' % (v, first, wrap, s, e), 'refused:%s' % s['type'])
            c.state(wrap, first, 'refused', repr(s), v)
            continue
        c.check(valid(s, v), '%r (%s, %s, %s) accepted by %r' % (v, way, first, wrap, s), 'accepted:%s' % s['type'])
        c.check(same(got, arg), '%r became %r' % (arg, got), 'changed')
        c.state(wrap, first, 'ok', repr(s), v)


def text(v, s):
    if isinstance(v, list):
        return ','.join(text(x, s['items']) for x in v)
    return str(float(v)) if s['type'] == 'number' and s.get('format') != 'int32' else str(v)


PLACES = ['query', 'path', 'header', 'formData', 'ref query', 'items', 'path items', 'second item', 'multi items', 'nested items', 'response header', 'response header items', 'response header nested', 'as text']


def params(c):
    s, vals = constraint(c)
    place = c.free('place', PLACES)
    p = dict(s)
    wrap = lambda v: v
    sep = None
    kw = {}
    loc = place
    if place in ('items', 'path items', 'second item', 'multi items', 'nested items'):
        if s['type'] == 'array':
            s = dict(s, collectionFormat='pipes')
        p = dict(type='array', items=s)
        wrap = lambda v: [v]
        loc = 'path' if place == 'path items' else 'query'
        if place == 'multi items':
            p['collectionFormat'] = 'multi'
        if place == 'nested items':
            p = dict(type='array', items=dict(p, collectionFormat='tsv'))
            wrap = lambda v: [[v]]
    elif place in ('ref query', 'as text'):
        loc = 'query'
    elif place.startswith('response header'):
        h = s
        if place != 'response header':
            if s['type'] == 'array':
                s = dict(s, collectionFormat='pipes')
            h = dict(type='array', items=s)
            if place.endswith('nested'):
                h = dict(type='array', items=dict(h, collectionFormat='tsv'))
        app = mem_app(doc(paths={'/a': {'get': mkop([], {'200': {'description': '', 'headers': {'X-H': h}}}, operationId='op')}}))
        for v in vals:
            c.step()
            t = ('|' if place != 'response header' else ',').join(str(x) for x in v) if isinstance(v, list) else str(v)
            if v == []:
                continue
            _, resp = app.op['op']()
            try:
                resp.apply_with(status=200, header={'x-h': t})
            except Exception as e:      # noqa
                c.check(not valid(s, v), 'header %r refused by %r: %r' % (t, s, e), 'refused')
                continue
            c.check(valid(s, v), 'header %r accepted by %r' % (t, h), 'accepted')
            want = v if place == 'response header' else [v] if not place.endswith('nested') else [[v]]
            c.check(same(plain(resp.header['x-h'][0]), want), 'header %r became %r' % (t, resp.header['x-h']), 'changed')
            c.state(place, repr(s), t)
        return
    par = P('x', loc, p.pop('type'), **p)
    if place == 'ref query':
        kw['parameters'] = {'X': par}
        par = {'$ref': '#/parameters/X'}
    app = mem_app(doc(paths={'/a/{x}' if loc == 'path' else '/a': {'post': mkop([par], operationId='op')}}, **kw))
    good = [v for v in vals if valid(s, v)]
    for v in vals:
        arg = wrap(v)
        if place == 'second item':
            if not good:
                continue
            arg = [good[-1], v]
        if place == 'as text':
            arg = text(v, s)
            if arg == '' and s['type'] == 'array' or s.get('format') == 'int32' and s['type'] == 'number':
                continue
        c.step()
        try:
            req, _ = app.op['op'](x=arg)
            req.prepare(scheme='http')
        except Exception as e:      # noqa
            c.check(not valid(s, v), '%r (%s) refused by %r: %r' % (v, place, s, e), 'refused')
            c.state(place, 'refused', repr(s), v)
            continue
        c.check(valid(s, v), '%r (%s) accepted by %r' % (v, place, s), 'accepted')
        got = {'query': dict(req.query).get('x'), 'header': req.header.get('x'), 'path': unquote(req.path[3:]) if loc == 'path' else None,
               'formData': dict(parse_qsl(req.data or '', keep_blank_values=True)).get('x')}[loc]
        sep = '|' if s.get('collectionFormat') == 'pipes' else ','
        one = (lambda x: sep.join(str(y) for y in x) if isinstance(x, list) else text(x, s))
        want = one(v) if place != 'second item' else one(good[-1]) + ',' + one(v)
        c.eq(got, want, '%r at %s' % (v, place), 'changed')
        c.state(place, 'ok', repr(s), v)


def both(c):
    """two constrained siblings: each is judged by its own declaration"""
    s1, vals1 = constraint(c)
    s2 = c.free('sibling', [dict(type='integer', minimum=1, maximum=1), dict(type='string', maxLength=1), dict(type='number', exclusiveMaximum=True, maximum=0), dict(type='array', items={'type': 'integer', 'maximum': 1}, maxItems=1)])
    where = c.free('where', ['params', 'properties', 'allOf'])
    vals2 = {'integer': [0, 1, 2], 'string': ['a', 'ab', ''], 'number': [-1.0, 0.0, 1.0], 'array': [[1], [2], [1, 1]]}[s2['type']]
    v2ok = lambda v: valid(s2, v) and (not isinstance(v, list) or all(valid(s2['items'], x) for x in v))
    if where == 'params':
        q = dict(s2)
        r = dict(s1)
        ps = [P('x', 'query', r.pop('type'), **r), P('y', 'header', q.pop('type'), **q)]
    elif where == 'properties':
        ps = [P('b', 'body', schema={'type': 'object', 'properties': {'x': s1, 'y': s2}})]
    else:
        ps = [P('b', 'body', schema={'type': 'object', 'allOf': [{'properties': {'x': s1}}, {'properties': {'y': s2}}]})]
    app = mem_app(doc(paths={'/a': {'post': mkop(ps, operationId='op')}}))
    for v in vals1:
        for w in vals2:
            c.step()
            kw = dict(x=v, y=w)
            want = valid(s1, v) and v2ok(w)
            try:
                app.op['op'](**(kw if where == 'params' else dict(b=kw)))
                ok = True
            except Exception:   # noqa
                ok = False
            c.eq(ok, want, '%r by %r and %r (%s)' % (kw, s1, s2, where), 'siblings')
    c.state(repr(s1), repr(s2), where)


SCENARIOS = [
    dict(name='schemas', fn=schemas, bound=dict(quick=1, thorough=3), space='all limit settings per type x 11 ways to write them (ref, allOf) x body/response; up to `bound` of place in the schema (8), format, multipleOf, enum; all boundary values each'),
    dict(name='params', fn=params, bound=dict(quick=1, thorough=3), space='the same settings in 14 places of parameters and response headers'),
    dict(name='both', fn=both, bound=dict(quick=0, thorough=2), space='pairs of constrained siblings'),
]
