import copy
import itertools
import json

from mc import engine
from mc.engine import Skip
from mc.lib import P, mem_app, doc, op as mkop, same, plain, ROOT

ASSUMPTIONS = ['all schemas of a hierarchy agree about additional properties', 'a property is declared by one schema of a hierarchy', 'discriminators belong to definitions of the root document',
               'readOnly is enforced at the top level of a body (pinned by the test suite)', 'properties are not given as null']
EXT = 'http://h.io/other/defs.json'
# property i: schema, [(argument, JSON, typed)], default (written, typed)
PROPS = [
    (dict(type='integer'), [(5, 5, 5), (0, 0, 0)], (0, 0)),
    (dict(type='string', format='date'), [('2001-02-03', '2001-02-03', ('Date', '2001-02-03'))], ('2000-01-01', ('Date', '2000-01-01'))),
    (dict(type='string'), [('', '', ''), (7, '7', '7')], ('', '')),
    (dict(type='array', items={'type': 'number'}), [([0, 1], [0.0, 1.0], [0.0, 1.0]), ([], [], [])], ([2], [2.0])),
    (dict(type='boolean'), [(False, False, False)], (False, False)),
    (dict(type='object', properties={'z': {'type': 'integer', 'default': 4}}), [({}, {'z': 4}, {'z': 4}), ({'z': 0}, {'z': 0}, {'z': 0})], ({'z': 9}, {'z': 9})),
]
EXTRA = [('x', [1, {'k': None}], dict(raw=[1, {'k': None}])), ('y', '3', dict(raw='3', conv=3)), (u'\u00e9', 0, dict(raw=0, conv=0))]


def settings(c, i):
    return c.pick('property %d is' % i, ['plain', 'required', 'default', 'required with default', 'readOnly', 'readOnly with default', 'required by another'])


def hierarchy(c):
    n = c.free('schemas', [3, 2, 1, 4])
    parents = []
    for i in range(n):
        parents.append([j for j in range(i) if c.free('allOf %d<%d' % (j, i), [False, True])])
    reach, todo = [], [n - 1]
    while todo:
        x = todo.pop(0)
        if x not in reach:
            reach.append(x)
            todo += parents[x]
    if len(reach) < n:
        raise Skip()
    if c.flag('order of allOf reversed'):
        parents = [p[::-1] for p in parents]
    way = c.free('direction', ['body', 'response'])
    place = c.pick('place', ['itself', 'property', 'items', 'map', 'twice'])
    addp = c.pick('additionalProperties', [None, True, False, {'type': 'integer'}, {'$ref': '#/definitions/Int'}])
    spell = c.pick('parts are', ['refs', 'inline', 'external refs', 'refs to refs'])
    own = c.pick('own properties', ['beside allOf', 'in a part', 'in the last part'])
    typed = c.pick('type written', ['all', 'none', 'parents only'])
    disc = c.pick('discriminator in', [None] + list(range(n)))
    if disc is not None and (spell in ('external refs', 'inline') or place in ('map',)):
        raise Skip()
    kinds = [c.pick('type %d' % i, PROPS[i:i + 1] + PROPS[:i] + PROPS[i + 1:]) for i in range(n)]
    sets = [settings(c, i) for i in range(n)]
    defs, ext = {'Int': {'type': 'integer'}}, {}

    def ref(j):
        if spell == 'inline':
            return copy.deepcopy(schemas[j])
        if spell == 'external refs':
            return {'$ref': EXT + '#/defs/S%d' % j}
        if spell == 'refs to refs':
            defs['L%d' % j] = {'$ref': '#/definitions/S%d' % j}
            return {'$ref': '#/definitions/L%d' % j}
        return {'$ref': '#/definitions/S%d' % j}
    schemas = []
    for i in range(n):
        s = {}
        decl = copy.deepcopy(kinds[i][0])
        body = {'properties': {'p%d' % i: decl}}
        st = sets[i]
        if 'default' in st:
            decl['default'] = copy.deepcopy(kinds[i][2][0])
        if st.startswith('readOnly'):
            decl['readOnly'] = True
        if st in ('required', 'required with default'):
            body['required'] = ['p%d' % i]
        if disc == i:
            body['properties']['kind'] = {'type': 'string'}
            body['discriminator'] = 'kind'
            body['required'] = body.get('required', []) + ['kind']
        parts = [ref(j) for j in parents[i]]
        if addp is not None:
            body['additionalProperties'] = addp
        if own == 'beside allOf' or not parts:
            s.update(body)
        else:
            part = body
            parts = [part] + parts if own == 'in a part' else parts + [part]
            if addp is not None:
                s['additionalProperties'] = addp
        if parts:
            s['allOf'] = parts
        if typed == 'all' or typed == 'parents only' and i < n - 1:
            s['type'] = 'object'
        schemas.append(s)
        defs['S%d' % i] = s
        ext['S%d' % i] = s
    # a schema demands the property of another one of the hierarchy
    byother = [i for i in range(n) if sets[i] == 'required by another']
    for i in byother:
        other = schemas[n - 1 if i < n - 1 else 0]
        if 'allOf' in other and 'properties' not in other:
            raise Skip()
        other['required'] = other.get('required', []) + ['p%d' % i]
    if spell in ('inline', 'external refs') and byother:
        raise Skip()
    top = {'$ref': '#/definitions/S%d' % (n - 1)}
    schema, wrap = {
        'itself': (top, lambda v: v), 'property': ({'type': 'object', 'properties': {'o': top}}, lambda v: {'o': v}),
        'items': ({'type': 'array', 'items': top}, lambda v: [v]), 'map': ({'type': 'object', 'additionalProperties': top}, lambda v: {'k': v}),
        'twice': ({'type': 'object', 'properties': {'o': top, 'q': top}}, lambda v: {'o': v, 'q': v})}[place]
    o = mkop([P('b', 'body', schema=schema)] if way == 'body' else [], {'200': {'description': '', 'schema': schema}}, operationId='op')
    app = mem_app({ROOT: doc(definitions=defs, paths={'/a': {'post': o}}), EXT: {'defs': ext, 'definitions': {'Int': {'type': 'integer'}}}})
    # every subset of the properties (each value of each alphabet), with or without extras
    choices = [[None] + [v for v in kinds[i][1]] for i in range(n)]
    if n == 4:
        choices = [[None, ch[1 + k % (len(ch) - 1)]] for k, ch in enumerate(choices)]
    for vals in itertools.product(*choices):
        for extra in (None, 'x', 'many') if vals.count(None) in (0, n) else ('x' if vals.count(None) % 2 else None,):
            arg, js, ty, bad = {}, {}, {}, None
            for i, v in enumerate(vals):
                nm = 'p%d' % i
                if v is not None:
                    arg[nm], js[nm], ty[nm] = copy.deepcopy(v)
                    if sets[i].startswith('readOnly') and way == 'body' and place == 'itself':
                        bad = 'read-only'
                    elif sets[i].startswith('readOnly') and way == 'body':
                        pass
                elif 'default' in sets[i]:
                    ty[nm] = kinds[i][2][1]
                    js[nm] = ty[nm][1] if isinstance(ty[nm], tuple) else ty[nm]
                elif sets[i].startswith('required'):
                    bad = 'missing'
            if extra:
                for k, v, r in (EXTRA[:1] if extra == 'x' else EXTRA[1:]):
                    if isinstance(addp, dict) and 'conv' not in r:
                        continue
                    arg[k] = copy.deepcopy(v)
                    if addp is not False:
                        js[k] = ty[k] = r['conv'] if isinstance(addp, dict) else r['raw']
            if disc is not None:
                name = 'S%d' % (n - 1)
                if vals[0] is None:
                    arg['kind'] = 'other'
                js['kind'] = ty['kind'] = name
            c.step()
            source = wrap(arg)
            before = copy.deepcopy(source)
            try:
                if way == 'body':
                    req, _ = app.op['op'](b=source)
                    req.prepare(scheme='http')
                    got = json.loads(req.data)
                else:
                    _, resp = app.op['op']()
                    resp.apply_with(status=200, raw=json.dumps(source))
                    got = plain(resp.data)
            except Exception as e:      # noqa
                c.check(bad, '%r refused: %s: %s' % (source, type(e).__name__, e), 'refused')
                c.state('refused', bad)
                continue
            c.check(not bad, '%r accepted although %s' % (source, bad), 'accepted')
            want = wrap(js if way == 'body' else ty)
            c.check(same(got, want), '%r gives %r, expected %r' % (before, got, want), 'model')
            c.check(same(plain(source), plain(before)), 'the argument was modified', 'modified')
            c.state(json.dumps(got, sort_keys=True, default=str))
            if way == 'response' and place == 'itself':
                for k in ty:
                    c.check(same(plain(getattr(resp.data, k)), ty[k]), 'attribute %s' % k, 'attribute')


SCENARIOS = [dict(name='hierarchy', fn=hierarchy, bound=dict(quick=1, thorough=3),
                  space='all allOf graphs up to 4 schemas (chains, diamonds) x body/response; up to `bound` of: order, place (5), additionalProperties (5), spelling of parts (4), own properties (3), type (3), discriminator, types (6) and settings (7) per property; all subsets of properties given')]
