"""C24: rendering, with every random draw decided by the explorer"""
import datetime
import re
import string
import uuid

import six

from mc.chance import Owned
from validate_email import validate_email

from mc import engine
from mc.lib import mem_app, doc, op as mkop, P, plain
from pyswagger.primitives import Renderer

ASSUMPTIONS = ['types and formats the renderer supports; schemas that can be satisfied, acyclic, with a type (of their own or from allOf)', 'multipleOf: integers, or dyadic numbers for number',
               'limits on the number of properties only where all declared properties are required', 'string limits only on plain strings; uniqueItems only by what the operation makes of it',
               'the ranges of a float are moderate when given at both ends; an unlucky random source may be asked again a bounded number of times']


class Chance(Owned):
    """owns the random module for one rendering"""
    CHARS = 4
    REPEAT = 3          # draws with the same arguments which branch: later ones of long arrays are symmetric

    def __init__(self, c):
        self.c, self.n, self.chars, self.made = c, 0, 0, {}

    def pick(self, label, options):
        n = self.made[label] = self.made.get(label, 0) + 1
        return self.c.pick(label, options) if n <= self.REPEAT else options[n % len(options)]

    def randint(self, a, b):
        if int(a) != a or int(b) != b or a > b:
            raise ValueError('empty range for randint() %r %r' % (a, b))
        a, b = int(a), int(b)
        out = []
        for v in (a, b, (a + b) // 2, a + 1, b - 1, 0, 1):
            if a <= v <= b and v not in out:
                out.append(v)
        return self.pick('randint(%d, %d)' % (a, b), out)

    def randrange(self, a, b=None, step=1):
        a, b = (0, a) if b is None else (a, b)
        return a + step * self.randint(0, (b - a - 1) // step)

    def random(self):
        return self.pick('random()', [0.5, 0.0, 1 - 2.0 ** -53, 0.125])

    def uniform(self, a, b):
        return self.pick('uniform(%r, %r)' % (a, b), [(a + b) / 2, a, b])

    def choice(self, seq):
        n = len(seq)
        if not n:
            raise IndexError('Cannot choose from an empty sequence')
        if n <= 8:
            return self.pick('choice of %r' % (seq,), list(seq))
        self.n += 1
        i = (self.n - 1) % n
        if self.chars < self.CHARS and n > 50:
            self.chars += 1
            opts = [i] + [j for j in (25, n - 1, n - 11, n - 12) if 0 <= j < n and j != i]
            return seq[self.pick('one of %d' % n, opts)]
        return seq[i]

    def choices(self, seq, weights=None, cum_weights=None, k=1):
        return [self.choice(seq) for _ in range(k)]

    def sample(self, seq, k):
        left, out = list(seq), []
        for _ in range(k):
            v = self.choice(left)
            left.remove(v)
            out.append(v)
        return out

    def shuffle(self, x, *a):
        x[:] = self.sample(x, len(x))

    def getrandbits(self, k):
        return self.randint(0, (1 << k) - 1)

    def triangular(self, a=0.0, b=1.0, mode=None):
        return self.uniform(a, b)

    def gauss(self, mu=0.0, sigma=1.0):
        return self.uniform(mu - sigma, mu + sigma)

    def seed(self, *a, **k):
        pass


# ---- what a declaration accepts ---------------------------------------------
def flat(s, defs):
    """schema with $ref followed and allOf merged"""
    s = dict(s)
    if s.get('required') in (True, False):
        s.pop('required')
    while '$ref' in s:
        s = defs[s['$ref'].rsplit('/', 1)[-1]]
    out = dict((k, v) for k, v in s.items() if k != 'allOf')
    props, req = dict(out.get('properties', {})), list(out.get('required', []))
    for a in s.get('allOf', []):
        f = flat(a, defs)
        for k, v in f.get('properties', {}).items():
            props.setdefault(k, v)
        req += f.get('required', [])
        for k, v in f.items():
            if k not in ('properties', 'required'):
                out.setdefault(k, v)
    if props:
        out['properties'] = props
    out['required'] = req
    return out


def problem(s, v, defs, opt):
    """why v is not acceptable; None when it is"""
    s = flat(s, defs)
    t, f = s.get('type'), s.get('format')
    if t == 'integer' or t == 'number':
        if isinstance(v, bool) or not isinstance(v, six.integer_types + ((float,) if t == 'number' else ())):
            return 'type of %r' % (v,)
        if v != v or v in (float('inf'), float('-inf')):
            return 'not a number: %r' % v
        if 'enum' in s:
            return None if v in s['enum'] else '%r is not in the enum' % v
        lo, hi = s.get('minimum'), s.get('maximum')
        if lo is not None and (v < lo or (s.get('exclusiveMinimum') and v == lo)):
            return '%r below the minimum' % v
        if hi is not None and (v > hi or (s.get('exclusiveMaximum') and v == hi)):
            return '%r above the maximum' % v
        if s.get('multipleOf') and v % s['multipleOf']:
            return '%r is no multiple' % v
        if t == 'integer' and f in ('int32', 'int64') and not -(1 << (31 if f == 'int32' else 63)) <= v < 1 << (31 if f == 'int32' else 63):
            return '%r is no %s' % (v, f)
    elif t == 'boolean':
        if v is not True and v is not False:
            return 'type of %r' % (v,)
        if 'enum' in s and v not in s['enum']:
            return 'not in the enum'
    elif t == 'string':
        if 'enum' in s:
            vs = v.isoformat() if isinstance(v, (datetime.date, datetime.datetime)) else v.decode() if isinstance(v, bytes) else str(v)
            return None if vs in s['enum'] else '%r is not in the enum' % v
        if f in (None, 'password'):
            if not isinstance(v, six.string_types):
                return 'type of %r' % (v,)
            if len(v) < s.get('minLength', 0) or ('maxLength' in s and len(v) > s['maxLength']) or (len(v) > max(opt['max_str_length'], s.get('minLength', 0)) and 'maxLength' not in s):
                return 'length of %r' % v
        elif f == 'date':
            if not isinstance(v, datetime.date) or isinstance(v, datetime.datetime):
                return 'type of %r' % (v,)
        elif f == 'date-time':
            if not isinstance(v, datetime.datetime):
                return 'type of %r' % (v,)
        elif f == 'uuid':
            if not isinstance(v, uuid.UUID):
                return 'type of %r' % (v,)
        elif f == 'byte':
            if not isinstance(v, (bytes, six.text_type)):
                return 'type of %r' % (v,)
            if len(v) > 4 * ((opt['max_byte_length'] + 2) // 3):
                return 'length of %r' % v
        elif f == 'email':
            if not isinstance(v, six.string_types) or not validate_email(v):
                return 'no email %r' % v
    elif t == 'array':
        if not isinstance(v, list):
            return 'type of %r' % (v,)
        if len(v) < s.get('minItems', 0) or ('maxItems' in s and len(v) > s['maxItems']) or ('maxItems' not in s and len(v) > max(opt['max_array_length'], s.get('minItems', 0))):
            return '%d items' % len(v)
        for x in v:
            p = problem(s['items'], x, defs, opt)
            if p:
                return 'item: ' + p
    elif t == 'object':
        if not isinstance(v, dict):
            return 'type of %r' % (v,)
        ps = s.get('properties', {})
        ad = s.get('additionalProperties', False)
        for k in s['required']:
            if k not in v:
                return 'required %s is missing in %r' % (k, v)
        for k, x in v.items():
            if k in opt['object_template'] and x == opt['object_template'][k]:
                continue
            if k in ps:
                p = problem(ps[k], x, defs, opt)
                if opt['minimal_property'] and not opt['max_property'] and k not in s['required']:
                    return 'not minimal: %s' % k
            elif isinstance(ad, dict):
                p = problem(ad, x, defs, opt)
                if len(k) > opt['max_name_length']:
                    return 'long name %r' % k
            else:
                return 'undeclared property %r' % k
            if p:
                return '%s: %s' % (k, p)
        for k in ps:
            if k in opt['object_template'] and v.get(k) != opt['object_template'][k]:
                return 'template for %s not used' % k
            if opt['max_property'] and k not in v and not flat(ps[k], defs).get('readOnly'):
                return 'not maximal: %s' % k
        if len(v) < s.get('minProperties', 0):
            return 'only %d properties' % len(v)
        if isinstance(ad, dict) and len(v) > max(s.get('maxProperties', opt['max_prop_count']), s.get('minProperties', 0), len(ps)):
            return '%d properties' % len(v)
    elif t == 'file':
        if not isinstance(v, dict) or 'data' not in v or not hasattr(v['data'], 'read'):
            return 'no file %r' % (v,)
        at = v['data'].tell()
        n = len(v['data'].read())
        v['data'].seek(at)
        if n > opt['max_file_length']:
            return 'size of the file'
    else:
        return 'harness: %r' % s
    return None


def options(c, **kw):
    o = Renderer.default()
    o.update(max_array_length=c.pick('max_array_length', [3, 100, 0]), max_str_length=c.pick('max_str_length', [100, 0, 3]), max_byte_length=3, max_file_length=4, max_name_length=2, max_prop_count=4)
    o.update(kw)
    return o


def judge(c, app, defs, schema, opt, obj=None, as_body='S'):
    """render the schema, and pass the result to the operation"""
    with Chance(c):
        v = Renderer().render(obj if obj is not None else app.resolve('#/definitions/' + as_body), opt)
    p = problem(schema, v, defs, opt)
    if p:
        c.fail('%s rendered for %s: %s' % (plain(v), schema, p), 'rendered')
    return v


def accept(c, app, oid, kw, schema):
    try:
        q, _ = app.op[oid](**kw)
        q.prepare()
    except Exception as e:      # noqa
        c.fail('the operation refuses %s rendered for %s: %s %s' % (plain(kw), schema, type(e).__name__, e), 'refused')


BIG = 3000000000
NUM = dict(minimum=[None, 0, -3, 5, BIG, 1], maximum=[None, 0, 7, -2, -BIG, 5], multipleOf=[None, 1, 4, 10])
INTS = [('integer', None), ('integer', 'int32'), ('integer', 'int64'), ('number', None), ('number', 'double')]


def satisfiable(s):
    lo, hi, m = s.get('minimum'), s.get('maximum'), s.get('multipleOf')
    lim = 1 << 31 if s.get('format') == 'int32' else 1 << 62
    lo = -lim if lo is None else lo
    hi = lim - 1 if hi is None else hi
    if s['type'] == 'integer' or m:
        m = m or 1
        k = -(-lo // m) * m
        if k == lo and s.get('exclusiveMinimum') and s.get('minimum') is not None:
            k += m
        if k > hi or (k == hi and s.get('exclusiveMaximum') and s.get('maximum') is not None):
            return False
        return True
    return lo < hi or (lo == hi and not s.get('exclusiveMinimum') and not s.get('exclusiveMaximum'))


def numbers(c):
    t, f = c.free('type', INTS)
    s = {'type': t}
    if f:
        s['format'] = f
    if c.flag('enum'):
        s['enum'] = c.free('values', [[0], [0, 3], [5, -1, 0], [7]])
        if t == 'number':
            s['enum'] = [x + 0.5 * c.free('half', [0, 1]) for x in s['enum']]
    for k in ('minimum', 'maximum', 'multipleOf'):
        v = c.free(k, NUM[k])
        if v is not None and 'enum' not in s:
            s[k] = v if t == 'integer' or k == 'multipleOf' or not c.flag('fraction ' + k) else v + 0.5
    if t == 'number' and s.get('multipleOf') == 4 and c.flag('dyadic'):
        s['multipleOf'] = 0.25
    for k, b in (('exclusiveMinimum', 'minimum'), ('exclusiveMaximum', 'maximum')):
        if b in s and c.free(k, [False, True]):
            s[k] = True
    if 'enum' not in s and not satisfiable(s):
        raise engine.Skip()
    where = c.pick('where', ['body', 'query', 'items', 'property', 'allOf'])
    both(c, s, where)


def both(c, s, where, extra=None):
    opt = options(c, **(extra or {}))
    body = {'items': {'type': 'array', 'items': s, 'minItems': 1, 'maxItems': 1}, 'property': {'type': 'object', 'required': ['p'], 'properties': {'p': s}}, 'allOf': {'allOf': [{'$ref': '#/definitions/B'}]}}.get(where, s)
    defs = {'S': body, 'B': s}
    scalar = body is s and s['type'] != 'object'
    q = dict(s, **{'name': 'q', 'in': 'query'}) if scalar and s['type'] != 'file' else None
    app = mem_app(doc(definitions=defs, paths={'/a': {'post': mkop([P('b', 'body', schema={'$ref': '#/definitions/S'})], operationId='body'), 'get': mkop([q] if q else None, operationId='query')}}))
    if where == 'query' and q:
        v = judge(c, app, defs, s, opt, obj=app.op['query'].parameters[0])
        accept(c, app, 'query', dict(q=v), s)
    else:
        v = judge(c, app, defs, body, opt)
        accept(c, app, 'body', dict(b=v), body)
    c.state(s, where, plain(v))


def strings(c):
    f = c.free('format', [None, 'password', 'date', 'date-time', 'uuid', 'byte', 'email', 'boolean'])
    s = {'type': 'string'}
    if f == 'boolean':
        s = {'type': 'boolean'}
        if c.free('enum', [False, True]):
            s['enum'] = c.free('values', [[False], [True], [False, True]])
    else:
        if f:
            s['format'] = f
        if c.free('enum', [False, True]):
            s['enum'] = {None: ['', 'a'], 'password': ['x', ''], 'date': ['2001-02-03', '1999-12-31'], 'date-time': ['2001-02-03T04:05:06', '1999-12-31T23:59:59.500000+05:30'], 'uuid': ['12345678-1234-1234-1234-123456789012', '00000000-0000-0000-0000-000000000000'],
                         'byte': ['YQ==', ''], 'email': ['a@b.cd', 'x.y@z-1.org']}[f]
        elif f in (None, 'password'):
            for k in ('minLength', 'maxLength'):
                v = c.free(k, [None, 0, 1, 3, 150])
                if v is not None:
                    s[k] = v
            if s.get('minLength', 0) > s.get('maxLength', 10 ** 9):
                raise engine.Skip()
    both(c, s, c.pick('where', ['body', 'query', 'items', 'property', 'allOf']))


ITEMS = [{'type': 'integer', 'minimum': 0}, {'type': 'string', 'enum': ['', 'x']}, {'type': 'string', 'format': 'uuid'}, {'type': 'array', 'items': {'type': 'integer', 'maximum': -1}, 'maxItems': 1}, {'$ref': '#/definitions/B2'}, {'type': 'boolean'}]
B2 = {'type': 'object', 'required': ['n'], 'properties': {'n': {'type': 'number', 'maximum': 0}, 'o': {'type': 'string', 'maxLength': 2}}}


def arrays(c):
    s = {'type': 'array', 'items': c.free('items', ITEMS)}
    for k in ('minItems', 'maxItems'):
        v = c.free(k, [None, 0, 1, 2, 101])
        if v is not None:
            s[k] = v
    if s.get('minItems', 0) > s.get('maxItems', 10 ** 9):
        raise engine.Skip()
    if s.get('minItems', 0) < 2 and c.flag('uniqueItems'):
        s['uniqueItems'] = True
    opt = options(c)
    defs = {'S': s, 'B2': B2}
    query = s['items'].get('type') in ('integer', 'boolean') or 'enum' in s['items']
    app = mem_app(doc(definitions=defs, paths={'/a': {'post': mkop([P('b', 'body', schema={'$ref': '#/definitions/S'})], operationId='body'), 'get': mkop([dict(s, name='q', **{'in': 'query'})] if query else None, operationId='query')}}))
    if query and c.flag('in query'):
        v = judge(c, app, defs, s, opt, obj=app.op['query'].parameters[0])
        accept(c, app, 'query', dict(q=v), s)
    else:
        v = judge(c, app, defs, s, opt)
        accept(c, app, 'body', dict(b=v), s)
    c.state(s, plain(v))


PROPS = {'a': [{'type': 'integer', 'minimum': 1}, {'type': 'string', 'format': 'date'}, {'$ref': '#/definitions/B2'}, {'type': 'integer', 'readOnly': True}, {'type': 'array', 'items': {'$ref': '#/definitions/B2'}, 'maxItems': 1}, {'$ref': '#/definitions/RO'}],
         'b': [{'type': 'string', 'minLength': 1}, {'type': 'number', 'maximum': -1}, {'type': 'boolean', 'enum': [False]}],
         'Z': [{'type': 'integer', 'enum': [0]}, {'type': 'string', 'format': 'uuid'}]}

RO = {'type': 'string', 'readOnly': True}


def objects(c):
    where = c.free('written', ['here', 'parent', 'both', 'nested parts'])
    s, parent = {'type': 'object', 'properties': {}}, {'type': 'object', 'properties': {}}
    ro = False
    for n in sorted(PROPS):
        k = c.pick('property ' + n, [0] + list(range(1, len(PROPS[n]))) + [None])
        if k is None:
            continue
        p = PROPS[n][k]
        t = parent if where in ('parent', 'nested parts') or (where == 'both' and n == 'b') else s
        t['properties'][n] = p
        if not p.get('readOnly') and p.get('$ref') != '#/definitions/RO' and c.pick('required ' + n, [False, True]):
            t.setdefault('required', []).append(n)
    defs = {'S': s, 'B2': B2, 'Parent': parent, 'RO': RO}
    if where == 'nested parts':
        defs['Mid'] = {'allOf': [{'$ref': '#/definitions/Parent'}]}
        defs['S'] = {'allOf': [{'$ref': '#/definitions/Mid'}, s]}
    elif where != 'here':
        defs['S'] = {'allOf': [{'$ref': '#/definitions/Parent'}, s]}
    elif c.flag('additionalProperties'):
        s['additionalProperties'] = c.free('of', [{'type': 'string', 'maxLength': 1}, {'type': 'integer', 'minimum': 0}, {'$ref': '#/definitions/B2'}])
        if sorted(s.get('required', [])) == sorted(s['properties']):
            lo, hi = c.free('count', [(None, None), (1, None), (None, 3), (2, 4), (5, None), (3, 3)])
            if lo is not None:
                s['minProperties'] = lo
            if hi is not None:
                s['maxProperties'] = hi
    defs = dict((k, v) for k, v in defs.items())
    opt = options(c, minimal_property=c.flag('minimal'), max_property=c.flag('maximal'))
    if c.flag('template'):
        opt['object_template'] = {'a': 5, 'q': 'unused', 'n': -1.5}
        if 'a' not in flat(defs['S'], defs).get('properties', {}) or PROPS['a'].index(flat(defs['S'], defs)['properties']['a']) != 0:
            opt['object_template'].pop('a')
    before = repr(opt)
    app = mem_app(doc(definitions=defs, paths={'/a': {'post': mkop([P('b', 'body', schema={'$ref': '#/definitions/S'})], operationId='body')}}))
    v = judge(c, app, defs, {'$ref': '#/definitions/S'}, opt)
    c.eq(repr(opt), before, 'options')
    accept(c, app, 'body', dict(b=v), defs['S'])
    c.state(where, defs['S'], plain(v))


def operations(c):
    """render_all: which parameters, with which values"""
    cand = {'p': P('p', 'path'), 'q': P('q', type_='integer', minimum=0, maximum=0), 'h': P('h', 'header', 'array', items={'type': 'integer'}), 'r': P('r', type_='string', enum=['', 'x']),
            'pl': P('pl', type_='integer', maximum=-1), 'f': P('f', 'formData', 'file'), 'g': P('g', 'formData', minLength=2)}
    body = c.free('kind', ['plain', 'body', 'form'])
    names = ['p', 'q', 'h', 'r', 'pl'] + (['f', 'g'] if body == 'form' else [])
    params, plist, shared = [], [], {}
    decl = {}
    for n in names:
        d = dict(cand[n])
        how = c.pick('declared ' + n, ['at the operation', 'by reference', 'at the path', 'at the path by reference', 'not'])
        if how == 'not':
            if n == 'p':
                continue
            continue
        if n != 'p' and c.pick('required ' + n, [False, True]):
            d['required'] = True
        decl[n] = d
        dst = plist if 'path' in how else params
        if 'reference' in how:
            shared['X' + n] = d
            dst.append({'$ref': '#/parameters/X' + n})
        else:
            dst.append(d)
    if body == 'body':
        d = P('b', 'body', schema={'$ref': '#/definitions/B2'})
        if c.flag('body required'):
            d['required'] = True
        decl['b'] = d
        if c.flag('body by reference'):
            shared['Xb'] = d
            params.append({'$ref': '#/parameters/Xb'})
        else:
            params.append(d)
    path = '/a/{p}' if 'p' in decl else '/a'
    o = mkop(params, operationId='op')
    if body == 'form':
        o['consumes'] = ['multipart/form-data', 'application/x-www-form-urlencoded']
    app = mem_app(doc(definitions={'B2': B2}, parameters=shared, paths={path: {'post': o, 'parameters': plist}}))
    opt = options(c, minimal_parameter=c.flag('minimal'), max_parameter=c.flag('maximal'))
    exclude = c.pick('exclude', [[], ['q'], ['r', 'h'], ['nothing']])
    template = c.pick('template', [{}, {'q': 0, 'zz': 1}, {'r': 'x', 'pl': -9}])
    opt['parameter_template'] = dict(template)
    with Chance(c):
        out = Renderer().render_all(app.op['op'], exclude=exclude, opt=opt)
    for k in out:
        c.check(k in decl, 'rendered a parameter %r that is not declared' % (k,))
        c.check(k not in exclude, 'rendered %r which is excluded' % k)
        if k in template:
            c.eq(out[k], template[k], 'template')
            continue
        if opt['minimal_parameter'] and not opt['max_parameter']:
            c.check(decl[k].get('required'), 'not minimal: %r' % k)
        p = problem(decl[k].get('schema', decl[k]), out[k], {'B2': B2}, opt)
        c.check(not p, 'rendered %r: %s' % (k, p))
    for k, d in decl.items():
        if k in exclude:
            continue
        c.check(k in out or not (d.get('required') or opt['max_parameter'] or k in template), 'parameter %r is missing in %s' % (k, sorted(map(str, out))))
    if not any(decl[k].get('required') for k in exclude if k in decl) and not (body == 'form' and 'f' in decl and 'f' not in out):
        accept(c, app, 'op', out, decl)
    c.state(sorted(decl.items()), sorted(out))


def defaults(c):
    """with the options of the renderer itself"""
    d = {'type': 'object', 'required': ['s', 'i', 'n', 'e', 'u', 'd', 'b', 't'], 'properties': {'s': {'type': 'string'}, 'i': {'type': 'integer'}, 'n': {'type': 'number'}, 'e': {'type': 'string', 'format': 'email'}, 'u': {'type': 'string', 'format': 'uuid'},
         'd': {'type': 'string', 'format': 'date'}, 't': {'type': 'string', 'format': 'date-time'}, 'b': {'type': 'string', 'format': 'byte'}}, 'additionalProperties': {'type': 'integer'}}
    defs = {'S': d}
    app = mem_app(doc(definitions=defs, paths={'/a': {'post': mkop([P('b', 'body', schema={'$ref': '#/definitions/S'})], operationId='body')}}))
    opt = Renderer.default()
    with Chance(c):
        r = Renderer()
        v = r.render(app.resolve('#/definitions/S'), opt if c.free('options', [0, 1]) else None)
    p = problem(d, v, defs, opt)
    c.check(not p, '%s: %s' % (plain(v), p), 'rendered')
    accept(c, app, 'body', dict(b=v), d)
    c.state(plain(v['s']), v['i'], v['n'], plain(v['e']), str(v['d']), str(v['t']))
    for bad in (app.root, 5, None, 'x', app.resolve('#/paths/~1a/post')):
        try:
            r.render(bad)
        except ValueError:
            continue
        c.fail('rendered %r' % bad)
    for f in (lambda: r.render(app.resolve('#/definitions/S'), opt=5), lambda: r.render_all(app.resolve('#/definitions/S')), lambda: r.render_all(app.op['body'], opt=[])):
        try:
            f()
        except ValueError:
            continue
        c.fail('wrong arguments accepted')


SCENARIOS = [
    dict(name='numbers', fn=numbers, bound=dict(quick=1, thorough=2), space='integers and numbers: minimum x maximum x multipleOf x exclusive ends x enum, every draw'),
    dict(name='strings', fn=strings, bound=dict(quick=2, thorough=3), space='strings of every format and booleans: length limits or enum, every draw'),
    dict(name='arrays', fn=arrays, bound=dict(quick=2, thorough=3), space='arrays: item kinds x limits, every draw'),
    dict(name='objects', fn=objects, bound=dict(quick=3, thorough=4), space='objects: properties x required x additionalProperties x allOf x options, every draw'),
    dict(name='operations', fn=operations, bound=dict(quick=2, thorough=3), space='operations: parameters (own, of the path, by reference) x options, every draw'),
    dict(name='defaults', fn=defaults, bound=dict(quick=2, thorough=2), space='default options, every draw; refused arguments'),
]
