import json

from mc import engine
from mc.engine import Skip
from mc.lib import P, mem_app, doc, op as mkop, same, plain
from pyswagger.primitives import MimeCodec

ASSUMPTIONS = ['the choice of the caller has to be spelled as in the document', 'codecs are registered for a media type without parameters']
J, T, X, F, M = 'application/json', 'text/plain', 'application/x-custom', 'application/x-www-form-urlencoded', 'multipart/form-data'


class Codec(object):
    def __init__(self, tag):
        self.tag = tag
        self.seen = []

    def marshal(self, value, **kw):
        self.seen.append(('marshal', kw.get('name'), kw.get('_type'), kw.get('_format')))
        return '%s(%s)' % (self.tag, json.dumps(plain(value), sort_keys=True))

    def unmarshal(self, data, **kw):
        self.seen.append(('unmarshal', kw.get('name'), kw.get('_type'), kw.get('_format')))
        assert data.startswith(self.tag + '(') and data.endswith(')'), data
        return json.loads(data[len(self.tag) + 1:-1])


LISTS = [None, [J], [X], [J, X], [X, J], [T, J], ['application/unknown'], [J, 'application/unknown'], [J, J + '; v=1'], [], ['text/json']]


def effective(own, docl):
    return own if own else docl or []


def negotiate(c):
    what = c.free('sends', ['body', 'nothing', 'form'])
    kind = c.free('list', ['consumes', 'produces', 'both'])
    some = LISTS if kind != 'both' else LISTS[:4]
    own_c = c.free('operation consumes', some) if kind != 'produces' else None
    doc_c = c.free('document consumes', LISTS[:4]) if kind == 'consumes' else c.pick('document consumes', LISTS[:4]) if kind == 'both' else None
    own_p = c.free('operation produces', LISTS) if kind == 'produces' else c.pick('operation produces', LISTS) if kind == 'both' else None
    doc_p = c.free('document produces', LISTS[:4]) if kind == 'produces' else c.pick('document produces', LISTS[:4]) if kind == 'both' else None
    choice = c.pick('caller consumes', [None, J, X, T, 'application/unknown', J + '; v=1', J.upper(), '']) if what == 'form' or kind == 'produces' else c.free('caller consumes', [None, J, X, T, 'application/unknown', J + '; v=1', J.upper()])
    want = c.free('caller produces', [None, J, X, 'image/png', J.upper()]) if kind != 'consumes' else None
    chain = c.pick('chosen', ['separately', 'chained', 'twice'])
    sch = c.pick('schema', ['object', 'ref', 'array', 'string', 'date'])
    arg = {'object': {'a': 0}, 'ref': {'a': 1}, 'array': [1], 'string': 'txt', 'date': '2001-02-03'}[sch]
    schema = {'object': {'type': 'object', 'properties': {'a': {'type': 'integer'}}}, 'ref': {'$ref': '#/definitions/M'}, 'array': {'type': 'array', 'items': {'type': 'integer'}},
              'string': {'type': 'string'}, 'date': {'type': 'string', 'format': 'date'}}[sch]
    ps = [P('b', 'body', schema=schema)] if what == 'body' else [P('f', 'formData')] if what == 'form' else []
    codec = MimeCodec()
    mine = Codec('X')
    codec.register(X, mine)
    kw = {}
    for k, v in (('consumes', own_c), ('produces', own_p)):
        if v is not None:
            kw[k] = v
    dk = {}
    for k, v in (('consumes', doc_c), ('produces', doc_p)):
        if v is not None:
            dk[k] = v
    app = mem_app(doc(definitions={'M': {'type': 'object', 'properties': {'a': {'type': 'integer'}}}}, paths={'/a': {'post': mkop(ps, operationId='op', **kw)}}, **dk), mime_codec=codec)
    cons, prods = effective(own_c, doc_c), effective(own_p, doc_p)
    req, _ = app.op['op'](**(dict(b=arg) if what == 'body' else dict(f='v') if what == 'form' else {}))
    if chain == 'chained':
        req.consume(choice).produce(want)
    else:
        if chain == 'twice':
            req.consume('x/y')
            req.produce('x/y')
        if choice is not None or chain == 'twice':
            req.consume(choice)
        if want is not None or chain == 'twice':
            req.produce(want)
    bad = False
    ct, data = None, None
    if what == 'body':
        ct = choice or (cons[0] if cons else J)
        if cons and ct not in cons:
            bad = True
        base = ct.split(';')[0].strip().lower()
        if base not in (J, T, X, 'text/json'):
            bad = True
        js = {'object': {'a': 0}, 'ref': {'a': 1}, 'array': [1], 'string': 'txt', 'date': '2001-02-03'}[sch]
        data = (base, js)
    elif what == 'form':
        ct = F
        bad = bool(cons) and F not in cons
    accept = want or (prods[0] if prods else None)
    if accept and prods and accept not in prods:
        bad = True
    c.step()
    try:
        req.prepare(scheme='http')
    except Exception as e:      # noqa
        c.check(bad, 'refused: %s: %s' % (type(e).__name__, e), 'refused')
        c.state('refused')
        return
    c.check(not bad, 'accepted: content type %r of %r, accept %r of %r' % (ct, cons, accept, prods), 'accepted')
    c.eq(req.header.get('Content-Type'), ct, 'content type')
    c.eq(req.header.get('Accept'), accept, 'accept')
    c.eq(sorted(k.lower() for k in req.header), sorted((['content-type'] if ct else []) + (['accept'] if accept else [])), 'headers')
    if data:
        base, js = data
        if base == X:
            typed = ['Date', '2001-02-03'] if sch == 'date' else js
            c.eq(req.data, 'X(%s)' % json.dumps(typed), 'encoded by the custom codec')
            s = mine.seen[-1]
            c.eq(s[2:], (schema.get('type') or 'object', schema.get('format')), 'type and format given to the codec')
            if sch == 'ref':
                c.eq(s[1], 'M', 'name given to the codec')
        elif base == T:
            c.check(same(plain(req.data), plain(arg) if sch != 'date' else ('Date', '2001-02-03')), 'plain body %r' % (req.data,))
        else:
            c.check(same(json.loads(req.data), js), 'json body %r' % (req.data,))
        c.eq(len(mine.seen), 1 if base == X else 0, 'uses of the custom codec')
    c.state(ct, accept, what)


MIMES = [X, 'text/xml', J, T]
SPELL = [lambda m: m, lambda m: m.upper() + ';charset=utf-8', lambda m: ' ' + m.title() + ' ; q=1;x=2']


def registry(c):
    """all histories of register/unregister; the codec in force serves every spelling, through requests and responses"""
    depth = engine.TIER == 'thorough' and 4 or 3
    codec, other = MimeCodec(), MimeCodec()
    a, b = Codec('A'), Codec('B')
    model = {}
    schema = {'type': 'object', 'properties': {'a': {'type': 'integer'}}}
    # mounted on an App, the registry may still change
    app = mem_app(doc(consumes=MIMES, produces=MIMES, paths={'/a': {'post': mkop([P('b', 'body', schema=schema)], {'200': {'description': '', 'schema': schema}}, operationId='op')}}), mime_codec=codec)
    app2 = mem_app(doc(consumes=MIMES, produces=MIMES, paths={'/a': {'post': mkop([P('b', 'body', schema=schema)], {'200': {'description': '', 'schema': schema}}, operationId='op')}}))
    acts = [None] + [('register', m, x) for m in MIMES for x in 'AB'] + [('register upper', m, 'A') for m in MIMES[:1]] + [('unregister', m) for m in MIMES] + [('unregister upper', MIMES[0])]
    for i in range(depth):
        act = c.free('action %d' % i, acts)
        if act is None:
            break
        m = act[1]
        sp = m.upper() if 'upper' in act[0] else m
        if act[0].startswith('register'):
            codec.register(sp, {'A': a, 'B': b}[act[2]])
            model[m] = act[2]
        else:
            known = m in model or m in (J, T) and m not in model
            if m in model and model[m] is None:
                known = False
            try:
                codec.unregister(sp)
            except KeyError:
                c.check(not known, 'unregister refused')
                return
            c.check(known, 'unregistered what was not there')
            model[m] = None
        c.step()
    for who, mod in ((app, model), (app2, {})):
        for m in MIMES:
            eff = mod.get(m, {J: 'json', T: 'plain'}.get(m))
            # request
            req, resp = who.op['op'](b={'a': 5})
            req.consume(m)
            try:
                req.prepare(scheme='http')
                got = req.data
            except Exception:   # noqa
                got = None
            want = {'A': 'A({"a": 5})', 'B': 'B({"a": 5})', 'json': '{"a": 5}', 'plain': {'a': 5}, None: None}[eff]
            c.eq(got, want, 'request with %s served by %s' % (m, eff), 'request')
            for s in SPELL:
                raw = {'A': 'A({"a": 7})', 'B': 'B({"a": 7})', 'json': '{"a": 7}', 'plain': {'a': 7}, None: '{"a": 7}'}[eff]
                _, resp = who.op['op'](b={'a': 5})
                try:
                    resp.apply_with(status=200, header=[('Content-Type', s(m))], raw=raw)
                    d = plain(resp.data)
                except Exception as e:  # noqa
                    d = None
                c.eq(d, None if eff is None else {'a': 7}, 'response with %r served by %s' % (s(m), eff), 'response')
            cd = codec if who is app else other
            try:
                v = cd.marshal(SPELL[1](m), {'z': 1})
            except Exception:   # noqa
                v = None
            c.eq(v, {'A': 'A({"z": 1})', 'B': 'B({"z": 1})', 'json': '{"z": 1}', 'plain': {'z': 1}, None: None}[eff], 'marshal by any spelling')
    c.state(sorted(model.items(), key=str))


SCENARIOS = [
    dict(name='negotiate', fn=negotiate, bound=dict(quick=1, thorough=2), space='10x4 consumes lists x caller choices, 10x4 produces lists x choices; up to `bound` of schema, way of choosing'),
    dict(name='registry', fn=registry, bound=0, space='all histories of register/unregister up to depth 3 (4) over 4 media types and 2 codecs; a second App as control'),
]
