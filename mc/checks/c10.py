import datetime
import itertools
import uuid

from six.moves.urllib.parse import unquote, parse_qsl
from mc import engine
from mc.engine import Skip
from mc.lib import P, one_op, outcome

ASSUMPTIONS = ['multi only in query and form at the outermost level, with lists (not strings)', 'strings given in place of a list are not empty']
SEP = {None: ',', 'csv': ',', 'ssv': ' ', 'tsv': '\t', 'pipes': '|'}
U = '12345678-1234-5678-1234-567812345678'
# declaration of items -> [(element, text)]
ITEMS = {
    'string': (dict(type='string'), [('a', 'a'), ('', ''), ('m,n', 'm,n'), ('x|y', 'x|y'), ('b c', 'b c'), ('t\tu', 't\tu'), (u'\u00e9"&=', u'\u00e9"&='), (0, '0')]),
    'integer': (dict(type='integer'), [(0, '0'), (-7, '-7'), ('12', '12'), (2 ** 40, str(2 ** 40))]),
    'number': (dict(type='number'), [(1.5, '1.5'), (0, '0.0'), (-2.0, '-2.0')]),
    'boolean': (dict(type='boolean'), [(True, 'true'), (False, 'false')]),
    'date': (dict(type='string', format='date'), [('2001-02-03', '2001-02-03'), (datetime.date(1999, 12, 31), '1999-12-31')]),
    'date-time': (dict(type='string', format='date-time'), [('2001-02-03T04:05:06Z', '2001-02-03T04:05:06+00:00')]),
    'uuid': (dict(type='string', format='uuid'), [(U, U), (uuid.UUID(U), U)]),
    'byte': (dict(type='string', format='byte'), [('x', 'x'), (b'y', 'y')]),
}


def build(where, items, fmt, required=False, **kw):
    decl = dict(type_='array', items=items, required=required, **kw)
    if fmt:
        decl['collectionFormat'] = fmt
    if where == 'path':
        return one_op([P('x', 'path', **dict(decl, required=True))], path='/a/{x}', method='post')
    return one_op([P('x', where, **decl)], method='post')


def sent(c, app, where, arg):
    """list of texts in which x is sent at its place"""
    req, _ = app.op['op'](x=arg)
    req.prepare(scheme='http')
    c.step()
    places = dict(query=[v for k, v in req.query if k == 'x'],
                  header=[v for k, v in req.header.items() if k == 'x'],
                  path=[unquote(req.path[len('/a/'):])] if where == 'path' else [],
                  formData=[v for k, v in parse_qsl(req.data or '', keep_blank_values=True)])
    for k, v in places.items():
        c.check(k == where or not v, 'found in %s: %r' % (k, v), 'place')
    return places[where]


def flat(c):
    where = c.free('in', ['query', 'formData', 'header', 'path'])
    fmt = c.free('format', [None, 'csv', 'ssv', 'tsv', 'pipes', 'multi'])
    if fmt == 'multi' and where in ('header', 'path'):
        raise Skip()
    decl, vals = ITEMS[c.free('items', sorted(ITEMS))]
    n = c.free('length', [0, 1, 2] + ([3] if engine.TIER == 'thorough' else []))
    uniq = c.pick('uniqueItems', [None, True, False])
    form = c.pick('given as', ['list', 'tuple', 'string'])
    kw = {} if uniq is None else dict(uniqueItems=uniq)
    app = build(where, decl, fmt, **kw)
    for els in itertools.product(vals, repeat=n):
        arg = [e for e, t in els]
        texts = [t for e, t in els]
        if uniq:
            keep = [i for i, e in enumerate(arg) if e not in arg[:i]]
            texts = [texts[i] for i in keep]
        if form == 'tuple':
            arg = tuple(arg)
        elif form == 'string':
            if fmt == 'multi':
                raise Skip()
            if not n or any(SEP[fmt] in t for t in texts):
                continue
            arg = SEP[fmt].join(t for e, t in els)
            if uniq:
                parts = arg.split(SEP[fmt])
                texts = [x for i, x in enumerate(parts) if x not in parts[:i]]
            if not arg:
                continue
        before = repr(arg)
        want = texts if fmt == 'multi' else [SEP[fmt].join(texts)]
        got = sent(c, app, where, arg)
        c.eq(got, want, '%s %s %r' % (where, fmt, arg), 'flat:%s:%s' % (where, fmt))
        c.eq(repr(arg), before, 'argument afterwards')
        c.state(where, fmt, tuple(got))


def nested(c):
    where = c.free('in', ['query', 'formData', 'header', 'path'])
    fmts = [c.free('outer', [None, 'ssv', 'tsv', 'pipes', 'multi']), c.free('middle', [None, 'ssv', 'pipes', 'tsv'])]
    depth = c.pick('depth', [2, 3])
    if depth == 3:
        fmts.append(c.free('inner', [None, 'tsv', 'pipes']))
    if fmts[0] == 'multi' and where in ('header', 'path'):
        raise Skip()
    decl, vals = ITEMS[c.pick('items', ['integer', 'boolean', 'date', 'string'])]
    stringy = c.pick('inner values as', ['list', 'string'])
    items = dict(decl)
    for f in reversed(fmts[1:]):
        items = dict(type='array', items=items, **(dict(collectionFormat=f) if f else {}))
    app = build(where, items, fmts[0])

    def values(level):
        """[(value, text)] for a list at `level`"""
        if level == len(fmts):
            return vals[:2]
        out = []
        sep = SEP.get(fmts[level])
        inner = values(level + 1)
        for n in (1, 2):
            for els in itertools.product(inner, repeat=n):
                v = [e for e, t in els]
                texts = [t for e, t in els]
                if level == 0:
                    out.append((v, texts if sep is None else [sep.join(texts)]))
                    continue
                text = sep.join(texts)
                if stringy == 'string' and text:
                    seps = [SEP[f] for f in fmts[level:]]
                    if level == len(fmts) - 1 and all(sep not in t for t in texts):
                        v = text
                out.append((v, text))
        if level and len(out) > 6:
            out = out[:6]
        return out
    for v, want in values(0):
        c.eq(sent(c, app, where, v), want, '%s %s %r' % (where, fmts, v), 'nested:%s' % (where,))
        c.state(where, tuple(want))


LIMITS = [dict(), dict(minItems=0), dict(minItems=1), dict(minItems=2), dict(maxItems=0), dict(maxItems=1), dict(maxItems=2), dict(minItems=2, maxItems=2), dict(minItems=1, maxItems=2)]


def limits(c):
    where = c.free('in', ['query', 'formData', 'header', 'path'])
    fmt = c.free('format', [None, 'pipes', 'multi'])
    if fmt == 'multi' and where in ('header', 'path'):
        raise Skip()
    lim = c.free('limits', LIMITS)
    uniq = c.free('uniqueItems', [False, True])
    level = c.free('level', ['outer', 'inner'])
    inner_uniq = uniq and level == 'inner'
    kw = dict(lim, uniqueItems=uniq)
    if level == 'inner':
        app = build(where, dict(type='array', collectionFormat='tsv', items={'type': 'string'}, **kw), fmt)
    else:
        app = build(where, {'type': 'string'}, fmt, **kw)
    for n in range(5):
        for els in itertools.product('ab', repeat=n):
            els = list(els)
            eff = [e for i, e in enumerate(els) if not uniq or e not in els[:i]]
            ok = lim.get('minItems', 0) <= len(eff) <= lim.get('maxItems', 99)
            inner = els if level == 'outer' else [els]
            for arg in ([inner] if fmt == 'multi' or not n or level == 'inner' else [inner, SEP[fmt].join(els)]):
                try:
                    got = sent(c, app, where, arg)
                except Exception as e:      # noqa
                    c.check(not ok, '%r refused by %r: %r' % (arg, kw, e), 'refused')
                    continue
                c.check(ok, '%r accepted by %r' % (arg, kw), 'accepted')
                text = '\t'.join(eff) if level == 'inner' else None
                if level == 'inner':
                    want = [text]
                else:
                    want = eff if fmt == 'multi' else [SEP[fmt].join(eff)]
                c.eq(got, want, '%s %r %r' % (where, kw, arg), 'limits')
                c.state(tuple(got))


def response(c):
    """header values of an answer are split by the same rules"""
    fmt = c.free('format', [None, 'csv', 'ssv', 'tsv', 'pipes'])
    kind = c.free('items', ['string', 'integer', 'boolean', 'nested'])
    uniq = c.flag('uniqueItems', free=True)
    lim = c.free('limits', LIMITS)
    inner = None
    if kind == 'nested':
        inner = 'tsv' if fmt != 'tsv' else 'pipes'
        items = dict(type='array', items={'type': 'integer'}, collectionFormat=inner)
        vals = [('1', [1]), ('1%s2' % SEP[inner], [1, 2])]
    else:
        items = dict(type=kind)
        vals = dict(string=[('a', 'a'), ('b;', 'b;')], integer=[('0', 0), ('-3', -3)], boolean=[('true', True), ('false', False)])[kind]
    h = dict(type='array', items=items, uniqueItems=uniq, **lim)
    if fmt:
        h['collectionFormat'] = fmt
    app = one_op(responses={'200': {'description': '', 'headers': {'X-A': h}}})
    for n in (1, 2, 3):
        for els in itertools.product(vals, repeat=n):
            text = SEP[fmt].join(t for t, v in els)
            want = [v for t, v in els]
            if uniq:
                want = [v for i, v in enumerate(want) if v not in want[:i]]
            ok = lim.get('minItems', 0) <= len(want) <= lim.get('maxItems', 99)
            _, resp = app.op['op']()
            c.step()
            try:
                resp.apply_with(status=200, header={'X-A': text}, raw='')
            except Exception as e:      # noqa
                c.check(not ok, '%r refused: %r' % (text, e), 'refused')
                continue
            c.check(ok, '%r accepted by %r' % (text, lim), 'accepted')
            c.eq([[list(x) if isinstance(x, list) else x for x in v] for v in resp.header['X-A']], [want], 'header %r' % text, 'header')
            c.eq(str(resp.header['X-A'][0]), SEP[fmt].join(t for i, (t, v) in enumerate(els) if not uniq or v not in [y for _, y in els[:i]]), 'text of the value')
            c.state(repr(want))


SCENARIOS = [
    dict(name='flat', fn=flat, bound=dict(quick=1, thorough=2), space='4 places x 6 formats x 8 item types x all lists up to length 2 (3) over the alphabets; up to `bound` of uniqueItems, tuple/string form'),
    dict(name='nested', fn=nested, bound=dict(quick=1, thorough=3), space='formats of 2 and 3 levels in 4 places'),
    dict(name='limits', fn=limits, bound=0, space='all lists up to length 4 over 2 elements x 9 limit settings x uniqueItems, outer and inner level'),
    dict(name='response', fn=response, bound=0, space='array headers of answers: formats x item types x limits x lists up to length 3'),
]
