"""C31: the 2.0 document a 1.2 API is converted to stands on its own"""
import json

import yaml

from mc.lib import getter_for, same
from mc.checks import c25
from mc.checks.c02 import mend
from pyswagger import App
from pyswagger.resolve import Resolver

ASSUMPTIONS = c25.ASSUMPTIONS
PLACES = ['http://other.io/x/swagger.json', 'https://other.io:81/swagger', c25.ROOT12]
WHERE = [None]


def names_of(v, out):
    if isinstance(v, dict):
        for k, x in v.items():
            if k == '$ref' and isinstance(x, str):
                out.append(x)
            else:
                names_of(x, out)
    elif isinstance(v, list):
        for x in v:
            names_of(x, out)
    return out


def rules(c, d):
    """what Swagger 2.0 asks of a document"""
    def need(ok, where, what):
        c.check(ok, 'converted document: %s at %s' % (what, where), 'rules')

    def schema(s, w):
        need(isinstance(s, dict), w, 'schema is not an object')
        if '$ref' in s:
            return
        need(s.get('type') in (None, 'string', 'number', 'integer', 'boolean', 'array', 'object', 'file'), w, 'type %r' % s.get('type'))
        if s.get('type') == 'array':
            need('items' in s, w, 'array without items')
        for k, x in s.get('properties', {}).items():
            schema(x, w + '/' + k)
        for x in s.get('allOf', []):
            schema(x, w + '/allOf')
        if 'items' in s:
            schema(s['items'], w + '/items')

    need(d.get('swagger') == '2.0', '', 'version %r' % d.get('swagger'))
    for n, s in (d.get('definitions') or {}).items():
        schema(s, 'definitions/' + n)
    for r in names_of(d, []):
        need(r.startswith('#/'), r, 'reference to another document')
        o = d
        for t in r[2:].split('/'):
            o = o.get(t.replace('~1', '/').replace('~0', '~')) if isinstance(o, dict) else None
        need(isinstance(o, dict), r, 'reference to nothing')
    for p, item in (d.get('paths') or {}).items():
        need(p.startswith('/'), p, 'path')
        for m, o in item.items():
            need(m in ('get', 'put', 'post', 'delete', 'options', 'head', 'patch'), p, 'method %r' % m)
            need(isinstance(o.get('responses'), dict) and o['responses'], p, 'operation without responses')
            for st, r in o['responses'].items():
                need(st == 'default' or st.isdigit(), p, 'status %r' % st)
                if isinstance(r, dict) and 'schema' in r:
                    schema(r['schema'], p)
            seen = []
            for q in o.get('parameters', []):
                w = '%s %s %s' % (m, p, q.get('name'))
                need((q.get('name'), q.get('in')) not in seen and q.get('name') and q.get('in') in ('query', 'path', 'header', 'formData', 'body'), w, 'parameter')
                seen.append((q['name'], q['in']))
                if q['in'] == 'body':
                    need('schema' in q and 'type' not in q, w, 'body without schema')
                    schema(q['schema'], w)
                else:
                    need('schema' not in q, w, 'schema outside of body')
                    need(q.get('type') in ('string', 'number', 'integer', 'boolean', 'array') or q.get('type') == 'file' and q['in'] == 'formData', w, 'type %r' % q.get('type'))
                    need(q.get('type') != 'array' or 'items' in q, w, 'array without items')
                if q['in'] == 'path':
                    need(q.get('required') is True and '{%s}' % q['name'] in p, w, 'path parameter')
            for s in o.get('security', []):
                need(set(s) <= set(d.get('securityDefinitions') or {}), p, 'unknown security %r' % s)
    for k, s in (d.get('securityDefinitions') or {}).items():
        need(s.get('type') in ('basic', 'apiKey', 'oauth2'), k, 'security type')
        if s['type'] == 'apiKey':
            need(s.get('in') in ('query', 'header') and s.get('name'), k, 'place of key')
        elif s['type'] == 'oauth2' and s.get('flow') not in ('implicit', 'accessCode'):
            c.finding('flow', 'flow %r of %s' % (s.get('flow'), k))


def apps(self, strict=True):
    c = WHERE[0]
    docs = {c25.ROOT12: self.listing}
    for n in self.names:
        docs['http://h.io/api/' + n] = self.res[n]
    a = App.load(c25.ROOT12, resolver=Resolver(default_getter=getter_for(docs)))
    a.prepare(strict=strict)
    d = a.dump()
    c.check(same(a.dump(), d), 'dumping twice gives different documents', 'dump')
    d = mend(c, d)
    rules(c, d)
    form = c.pick('saved as', ['json', 'yaml'])
    text = json.dumps(d) if form == 'json' else yaml.safe_dump(d)
    place = c.pick('place', PLACES)
    b = App.load(place, resolver=Resolver(default_getter=getter_for({place: text})))
    b.prepare(strict=strict)
    d2 = mend(c, b.dump())
    c.check(same(d2, d), 'dump of the converted document: %r, first %r' % (d2, d), 'stable')
    return a, b


def converted(f):
    def scenario(c):
        WHERE[0] = c
        old = c25.Pair.apps
        c25.Pair.apps = apps
        try:
            f(c)
        finally:
            c25.Pair.apps = old
    scenario.__doc__ = f.__doc__
    return scenario


SCENARIOS = [dict(s, fn=converted(s['fn'])) for s in c25.SCENARIOS if s['name'] != 'separator']
