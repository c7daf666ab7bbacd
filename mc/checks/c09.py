import datetime
import json
import re

from six.moves.urllib.parse import unquote, urlsplit
from pyswagger import App
from pyswagger.getter import SimpleGetter
from pyswagger.core import BaseClient
from mc import engine
from mc.lib import mem_app, P, doc as mkdoc, op as mkop

ASSUMPTIONS = ['template variables without dots, brackets or being numbers; basePath without braces']
CHARS = ['a', '/', '?', '#', '%', '&', '=', '+', ' ', ';', ':', '@', '{', '}', u'\u00e9', u'\u6f22', '.', '~', '"', '\\', '0', '\n', '2', ',', '|', '[', '<', "'", '*', u'\U0001f600']
TEMPLATES = ['/a/{x}', '/{x}', '/{x}/b', '/{x}-{y}/c', '/{x}/{y}', '/a/{x}.json', '/{x}/c/{x}', '/p%20q/{x}', u'/{x}{y}']
URLSAFE = re.compile(r"^[A-Za-z0-9._~!$&'()*+,;=:@%-]*$")
PCT = re.compile('%(?![0-9A-Fa-f]{2})')


def check_path(c, where, got, template, values):
    segs, tsegs = got.split('/'), template.split('/')
    c.check(len(segs) == len(tsegs), '%s: %s has not the segments of %s' % (where, got, template), 'segments')
    for s, t in zip(segs, tsegs):
        c.check(URLSAFE.match(s) and not PCT.search(s), '%s: %r is not a path segment' % (where, s), 'unsafe')
        want = unquote(t)
        for k, v in values.items():
            want = want.replace('{%s}' % k, '\x00%s\x01' % k)
        for k, v in values.items():
            want = want.replace('\x00%s\x01' % k, v)
        c.check(unquote(s) == want, '%s: segment %r decodes to %r, the argument gives %r' % (where, s, unquote(s), want), 'decoded')
        if '+' not in want:
            c.check('+' not in s, '%s: %r' % (where, s))


def values(c):
    t = c.free('template', TEMPLATES)
    first = c.free('first', CHARS)
    longer = c.pick('length', [2, 3]) if engine.TIER == 'thorough' else 2
    names = sorted(set(re.findall(r'{(\w+)}', t)))
    app = mem_app(mkdoc(paths={t: {'get': mkop([P(n, 'path') for n in names], operationId='op')}}))
    tails = [''] + CHARS
    if longer == 3:
        tails = [a + b for a in CHARS for b in CHARS]
    for tail in tails:
        s = first + tail
        for other in (['plain'] if len(names) == 1 else ['plain', s, tail or '/']):
            vals = dict(zip(names, [s, other]))
            req, _ = app.op['op'](**vals)
            req.prepare(scheme='https')
            c.step()
            check_path(c, 'path', req.path, t, vals)
            want = 'https://h.io/v1'
            c.check(req.url.startswith(want), 'url is %s' % req.url)
            c.eq(req.url[len(want):], req.path, 'path of the url')
            c.state(req.url)


TYPED = [
    (dict(type_='integer'), [(0, '0'), (-5, '-5'), ('12', '12')]), (dict(type_='number'), [(1.5, '1.5'), (1e30, '1e+30')]),
    (dict(type_='string', format='date'), [(datetime.date(2001, 2, 3), '2001-02-03')]),
    (dict(type_='string', format='date-time'), [('2001-02-03T04:05:06+01:30', '2001-02-03T04:05:06+01:30')]),
    (dict(type_='array', items={'type': 'string'}), [(['a/b', 'c d'], 'a/b,c d')]), (dict(type_='array', items={'type': 'string'}, collectionFormat='pipes'), [(['a', '', '%'], 'a||%')]),
    (dict(type_='array', items={'type': 'integer'}, collectionFormat='ssv'), [([1, 2], '1 2')]), (dict(type_='array', items={'type': 'integer'}, collectionFormat='tsv'), [([1, 2], '1\t2')]),
    (dict(type_='string', format='byte'), [('a/b', 'a/b')]), (dict(type_='string', default='d/f'), [(None, 'd/f')]),
]


def typed(c):
    decl, vals = c.free('type', TYPED)
    v, text = c.free('value', vals)
    t = c.free('template', TEMPLATES[:3])
    app = mem_app(mkdoc(paths={t: {'put': mkop([P('x', 'path', **decl)], operationId='op')}}))
    kw = {} if v is None else dict(x=v)
    req, _ = app.op['op'](**kw)
    req.prepare(scheme='http')
    check_path(c, 'path', req.path, t, dict(x=text))
    c.eq(req.url, 'http://h.io/v1' + req.path, 'url')
    c.state(req.url)


class Probe(BaseClient):
    """the client of the documentation, which sends nothing"""
    __schemes__ = set(['http', 'https'])

    def request(self, req_and_resp, opt=None, headers=None):
        opt = dict(opt or {})
        req, resp = super(Probe, self).request(req_and_resp, opt)
        req.reset()
        req.prepare(scheme=self.prepare_schemes(req))
        req._patch(opt)
        return req


def parts(c):
    host = c.free('host', ['h.io', None, 'h.io:8080', '[::1]:81'])
    base = c.free('basePath', ['/v1', None, '/', '/v1/', '/a/b', ''])
    url = c.free('document', ['http://srv.io/d/swagger.json', 'https://srv.io:444/swagger.json', 'file:///d/swagger.json'])
    schemes = c.free('schemes', [['http'], ['https'], ['http', 'https'], ['ws', 'https'], None, ['ws']])
    own = c.pick('operation schemes', [None, ['https'], ['http'], ['ftp']])
    prefer = c.pick('preferred scheme', [None, 'http', 'https', 'ws'])
    netloc = c.pick('netloc option', [None, 'other:90', 'x'])
    sopt = c.pick('scheme option', [None, 'https', 'http'])
    t = c.pick('template', ['/a/{x}', '/', '/{x}/'])
    val = c.pick('value', ['v', 'a/b?c#d', ':@', '//x'])
    d = mkdoc(host=host, basePath=base, schemes=schemes, paths={t: {'get': mkop([P('x', 'path')] if '{x}' in t else None, operationId='op', **(dict(schemes=own) if own else {}))}})

    class G(SimpleGetter):
        def load(self, path):
            return json.dumps(d)
    app = App.load(url, getter=G)
    app.prepare()
    o = app.op['op']
    kw = dict(x=val) if '{x}' in t else {}
    eff = own or schemes or [url.split(':')[0]]
    usable = [s for s in ('http', 'https') if s in eff]
    opt = {}
    if netloc:
        opt['url_netloc'] = netloc
    if sopt:
        opt['url_scheme'] = sopt
    pair = o(**kw)
    if prefer:
        pair[0].scheme = prefer
    try:
        req = Probe().request(pair, opt)
    except Exception as e:          # noqa
        c.check(not usable or prefer and prefer not in usable, 'refused: %s' % e, 'refused')
        c.state('refused')
        return
    c.check(usable and (not prefer or prefer in usable), 'schemes %r, preferred %r: accepted' % (eff, prefer), 'scheme accepted')
    sp = urlsplit(req.url)
    want_host = netloc or host or urlsplit(url).netloc or 'localhost'
    c.eq(sp.netloc, want_host, 'host')
    c.eq(sp.query + sp.fragment, '', 'query and fragment')
    if sopt:
        c.eq(sp.scheme, sopt, 'scheme')
    elif prefer:
        c.eq(sp.scheme, prefer, 'scheme')
    else:
        c.check(sp.scheme in usable, 'scheme %s of %r' % (sp.scheme, usable))
    full = (base or '').rstrip('/') + t
    check_path(c, 'url', sp.path, full, kw)
    check_path(c, 'path', req.path, t, kw)
    c.state(req.url)


SCENARIOS = [
    dict(name='values', fn=values, bound=dict(quick=0, thorough=1), space='9 templates x all strings up to length 2 (3) over 30 characters in each variable'),
    dict(name='typed', fn=typed, bound=0, space='typed and array path arguments'),
    dict(name='parts', fn=parts, bound=dict(quick=1, thorough=3), space='host x basePath x document URL x schemes, and up to `bound` of: schemes of the operation, preferred scheme, netloc and scheme options, templates, values'),
]
