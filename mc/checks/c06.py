import copy
import io
import json
import os
import shutil
import tempfile

import six
import yaml
from six.moves.urllib.parse import quote
from pyswagger import App
from pyswagger.getter import SimpleGetter, DictGetter, LocalGetter, UrlGetter
from pyswagger.resolve import Resolver
from mc.engine import Skip
from mc.lib import plain, request_view, outcome, doc as mkdoc, op as mkop

ASSUMPTIONS = ['HTTP is a stand-in for urllib.request.urlopen', 'a folder or a name without extension is not the base of relative references']

EXT = {'definitions': {'X': {'type': 'object', 'properties': {'d': {'type': 'string', 'format': 'date', 'default': '2001-02-03'}, 'up': {'$ref': '%(up)s#/definitions/U'}, 'own': {'$ref': '#/definitions/Y'}}},
                       'Y': {'type': 'integer', 'minimum': 0}}}
UP = {'definitions': {'U': {'type': 'array', 'items': {'type': 'number', 'maximum': 1.5}}}}
WHOLE = {'name': 'w', 'in': 'query', 'type': 'string', 'enum': ['yes', 'no', '1', u'\u00e9']}


def main_doc(rel):
    return mkdoc(host='api.io', info={'title': u'T\u00eftle: "#x', 'version': '1.0'}, paths={
        '/a/{id}': {'get': mkop([{'name': 'id', 'in': 'path', 'required': True, 'type': 'string'},
                                 {'name': 'q', 'in': 'query', 'type': 'number', 'minimum': 0, 'default': 0.5}] + ([{'$ref': '%(whole)s'}] if rel else []),
                                operationId='get',
                                responses={'200': {'description': 'ok', 'schema': {'$ref': '%(ext)s#/definitions/X'} if rel else {'$ref': '#/definitions/L'}},
                                           '404': {'description': '', 'schema': {'type': 'string', 'format': 'date'}}, 'default': {'description': 'yes'}})}},
        definitions={'L': {'type': 'object', 'properties': {'on': {'type': 'boolean', 'default': False}, 'n': {'type': 'integer', 'enum': None} if False else {'type': 'integer'}}}})


def subst(o, names):
    if isinstance(o, dict):
        return dict((k, subst(v, names)) for k, v in o.items())
    if isinstance(o, list):
        return [subst(v, names) for v in o]
    if isinstance(o, six.string_types) and '%(' in o:
        return o % names
    return o


def int_codes(o):
    """YAML authors write response codes as numbers"""
    if isinstance(o, dict):
        return dict((int(k) if isinstance(k, str) and k.isdigit() else k, int_codes(v)) for k, v in o.items())
    return [int_codes(x) for x in o] if isinstance(o, list) else o


SERIAL = {
    'json': lambda d: json.dumps(d),
    'json-utf8': lambda d: json.dumps(d, ensure_ascii=False, indent=2, sort_keys=True),
    'json-newline': lambda d: '\n  ' + json.dumps(d, indent=1),
    'yaml': lambda d: yaml.safe_dump(int_codes(d), allow_unicode=True),
    'yaml-block': lambda d: '# comment\n---\n' + yaml.safe_dump(d, default_flow_style=False, allow_unicode=False),
    'yaml-flow': lambda d: '\n' + yaml.safe_dump(d, default_flow_style=True, width=10 ** 6),
}
VALUES = [{}, {'d': '2020-01-01'}, {'up': [1.5]}, {'up': [2]}, {'own': -1}, {'own': 0}, {'on': True, 'n': 1}]


def behaviour(app):
    out = {'ops': sorted(app.op), 'title': app.root.info.title, 'version': app.root.info.version}
    for i, kw in enumerate([dict(id='x'), dict(id='1', q=2, w='yes'), dict(id='1', w=u'\u00e9'), dict(id='1', q=-1), dict(id='1', w='maybe'), {}]):
        out['call %d' % i] = outcome(lambda: request_view(app.op['get'](**kw)[0]))
    for st, vals in ((200, VALUES), (404, ['2001-02-03', 'x']), (500, [1])):
        for v in vals:
            def f():
                _, r = app.op['get'](id='x')
                r.apply_with(status=st, raw=json.dumps(v))
                return plain(r.data)
            out['%d %r' % (st, v)] = outcome(f)
    return out


class Web(object):
    """stand-in for the network"""
    def __init__(self):
        self.files = {}
        self.log = []

    def urlopen(self, url, *a, **k):
        self.log.append(url)
        if url not in self.files:
            raise IOError('404 %s' % url)
        return io.BytesIO(self.files[url])

    def __enter__(self):
        self.saved = six.moves.urllib.request.urlopen
        six.moves.urllib.request.urlopen = self.urlopen
        return self

    def __exit__(self, *a):
        six.moves.urllib.request.urlopen = self.saved


FORMS = ['path', 'relative path', 'dot path', 'file url', 'http', 'folder', 'no extension', 'hook to file', 'hook to http', 'getter class', 'getter instance',
         'resolver getter class', 'dict getter', 'dict resolver', 'http folder-like', 'app.create', 'local getter', 'local getter with url']
BASE = {}


def baseline(rel):
    if rel not in BASE:
        names = dict(ext='http://b/e.json', up='http://b/u.json', whole='http://b/w.json')
        files = {'http://b/m.json': main_doc(rel), 'http://b/e.json': EXT, 'http://b/u.json': UP, 'http://b/w.json': WHOLE}

        class G(SimpleGetter):
            def load(self, path):
                return json.dumps(subst(files[path], names))
        app = App.load('http://b/m.json', resolver=Resolver(default_getter=G))
        app.prepare()
        BASE[rel] = behaviour(app)
        assert BASE[rel]['call 0'][0] == 'ok'
    return BASE[rel]


def storage(c):
    form = c.free('location', FORMS)
    ser = c.free('written as', list(SERIAL))
    folder = c.pick('folder', ['plain', 'sp ace', u'\u00fcn\u00ef', 'per%20cent', 'a#b', 'dot.d', 'q?x', 'swagger.json.d'])
    # references are possible where the location has a base
    rel = c.free('references', [True, False]) if form not in ('folder', 'no extension', 'http folder-like', 'dict getter', 'dict resolver') else False
    layout = c.pick('layout', [('sub/ext', '../up', 'whole'), ('ext', 'up', 'sub/whole'), ('../ext', 'd/up', '../sub/whole'), ('./sub/ext', '../../up', './whole')]) if rel else None
    eser = c.pick('references written as', list(SERIAL)) if rel else 'json'
    isyaml = ser.startswith('yaml')
    ext = c.pick('extension', ['.yaml', '.yml'] if isyaml else ['.json', '.yaml'])
    eext = c.pick('extension of references', ['.yaml', '.yml'] if eser.startswith('yaml') else ['.json', '.yml']) if rel else ''
    stem = c.pick('file name', ['swagger', 'api', 'my-swagger', 'resource_list2'])
    if form in ('folder',) and (stem != 'swagger'):
        c.check(True, '')
        stem = 'swagger'
    c.step(2)
    top = os.path.realpath(tempfile.mkdtemp(prefix='c06.'))
    cwd = os.getcwd()
    try:
        if layout:
            names = dict(ext=layout[0] + eext, up=layout[1] + eext, whole=layout[2] + eext)
        else:
            names = {}
        d = os.path.join(top, 'x', 'y', folder)
        os.makedirs(d)
        main = os.path.join(d, stem + ext)
        files = {main: (subst(main_doc(rel), names), ser)}
        if rel:
            e = os.path.normpath(os.path.join(d, names['ext']))
            files[e] = (subst(EXT, names), eser)
            files[os.path.normpath(os.path.join(os.path.dirname(e), names['up']))] = (UP, eser)
            files[os.path.normpath(os.path.join(d, names['whole']))] = (WHOLE, eser)
        # decoys that must not be picked up
        files[os.path.join(top, 'swagger.json')] = ({'swagger': '2.0', 'info': {'title': 'wrong', 'version': '0'}, 'paths': {}}, 'json')
        text = dict((p, SERIAL[s](o).encode('utf-8')) for p, (o, s) in files.items())
        ondisk = form in ('path', 'relative path', 'dot path', 'file url', 'folder', 'no extension', 'hook to file', 'app.create', 'local getter', 'local getter with url')
        web = Web()

        def url_of(p, host='http://h.io'):
            return host + quote(p[len(top):])
        if ondisk:
            for p, b in text.items():
                if not os.path.isdir(os.path.dirname(p)):
                    os.makedirs(os.path.dirname(p))
                with open(p, 'wb') as f:
                    f.write(b)
        else:
            web.files = dict((url_of(p), b) for p, b in text.items())
        murl = url_of(main)
        with web:
            if form in ('path', 'app.create'):
                load = lambda: App.load(main)
            elif form == 'relative path':
                os.chdir(os.path.join(top, 'x'))
                load = lambda: App.load(os.path.join('y', folder, stem + ext))
            elif form == 'dot path':
                os.chdir(d)
                load = lambda: App.load('./' + stem + ext)
            elif form == 'file url':
                load = lambda: App.load('file://' + quote(main))
            elif form == 'local getter':
                load = lambda: App.load(main, getter=LocalGetter(main))
            elif form == 'local getter with url':
                load = lambda: App.load(main, getter=LocalGetter('file://' + quote(main)))
            elif form == 'folder':
                load = lambda: App.load(d)
            elif form == 'no extension':
                if '.' in folder:
                    pass
                load = lambda: App.load(os.path.join(d, stem))
            elif form == 'http':
                load = lambda: App.load(murl)
            elif form == 'http folder-like':
                web.files['http://h.io/docs/'] = text[main]
                web.files['http://h.io/docs'] = text[main]
                load = lambda: App.load('http://h.io/docs')
            elif form == 'hook to file':
                pass
                raise_ = None
                for p, b in text.items():
                    pass
                hook = lambda u: 'file://' + quote(top) + u[len('http://h.io'):] if u.startswith('http://h.io') else u
                load = lambda: App.load(murl, url_load_hook=hook)
            elif form == 'hook to http':
                web.files = dict((u.replace('http://h.io', 'https://mirror'), b) for u, b in web.files.items())
                load = lambda: App.load(murl, url_load_hook=lambda u: u.replace('http://h.io', 'https://mirror'))
            elif form in ('getter class', 'getter instance', 'resolver getter class'):
                served = dict(web.files)
                raw = c.free('getter returns', ['text', 'bytes', 'dict'])

                class G(SimpleGetter):
                    def load(self, path):
                        if path not in served:
                            raise IOError(path)
                        b = served[path]
                        if raw == 'dict':
                            return copy.deepcopy(dict((url_of(p), o) for p, (o, s) in files.items())[path])
                        return b.decode('utf-8') if raw == 'text' else b
                if form == 'resolver getter class':
                    load = lambda: App.load(murl, resolver=Resolver(default_getter=G))
                elif form == 'getter class':
                    load = lambda: App.load(murl, getter=G)
                else:
                    load = lambda: App.load(murl, getter=G(murl))
            else:
                obj = copy.deepcopy(files[main][0])
                if form == 'dict getter':
                    load = lambda: App.load(murl, getter=DictGetter([murl], {murl: obj}))
                else:
                    load = lambda: App.load('', resolver=Resolver(default_getter=DictGetter([''], {'': obj})))
            if form == 'app.create':
                app = App.create(main)
            else:
                app = load()
                app.prepare()
            c.check(type(app.root).__name__ == 'Swagger', 'root is %r' % app.root)
            got = behaviour(app)
        want = baseline(rel)
        for k in want:
            c.eq(got[k], want[k], k, 'behaviour')
        c.state(form, ser, rel, folder, layout, eser, ext, eext)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


def nothing_there(c):
    """no document or rubbish at the location, at the root or behind a reference"""
    form = c.free('location', ['path', 'folder', 'file url', 'http', 'getter', 'dict', 'hook'])
    what = c.free('content', ['absent', 'empty', 'not a mapping', 'broken json', 'broken yaml', 'no version', 'other version', 'empty mapping'])
    where = c.free('where', ['root', 'reference'])
    body = {'empty': b'', 'not a mapping': b'just text', 'broken json': b'{"swagger": "2.0", ', 'broken yaml': b'a: [1, 2\nb: "', 'no version': b'{"info": {}}',
            'other version': b'{"swagger": "3.7", "paths": {}}', 'empty mapping': b'{}'}.get(what)
    if where == 'reference' and what in ('no version', 'other version'):
        pass        # any mapping will do for a fragment, but it is not in there
    good = json.dumps(mkdoc(paths={'/a': {'get': mkop(operationId='op', responses={'200': {'description': '', 'schema': {'$ref': 'ext.json#/definitions/X'}}})}})).encode()
    files = {'swagger.json': body if where == 'root' else good}
    if where == 'reference':
        files['ext.json'] = body
    top = os.path.realpath(tempfile.mkdtemp(prefix='c06.'))
    c.step()
    try:
        with Web() as web:
            base = 'http://h.io/x/'
            if form in ('path', 'folder', 'file url', 'hook'):
                for n, b in files.items():
                    if b is not None:
                        with open(os.path.join(top, n), 'wb') as f:
                            f.write(b)
            else:
                web.files = dict((base + n, b) for n, b in files.items() if b is not None)
            G = type('G', (UrlGetter,), {})
            p = os.path.join(top, 'swagger.json')
            load = {'path': lambda: App.load(p), 'folder': lambda: App.load(top), 'file url': lambda: App.load('file://' + p), 'http': lambda: App.load(base + 'swagger.json'),
                    'getter': lambda: App.load(base + 'swagger.json', getter=G), 'hook': lambda: App.load(base + 'swagger.json', url_load_hook=lambda u: u.replace(base, 'file://' + top + '/')),
                    'dict': lambda: App.load(base + 'swagger.json', getter=DictGetter([base + 'swagger.json'], {base + 'swagger.json': json.loads(good.decode())} if where == 'reference' else {}))}[form]
            try:
                app = load()
                app.prepare()
            except Exception as e:      # noqa: any error
                c.state(form, what, where, type(e).__name__)
                return
            c.fail('%s with %s at the %s was accepted: %r' % (form, what, where, app.root), 'accepted')
    finally:
        shutil.rmtree(top)


# ---- Swagger 1.2: a listing and its resources ------------------------------------------------
LISTING = {'swaggerVersion': '1.2', 'apiVersion': '1', 'info': {'title': u'T\u00eftle', 'description': 'd'}, 'apis': [{'path': '/pet'}, {'path': '/my-user'}]}
FORMS12 = ['path', 'relative path', 'dot path', 'file url', 'folder', 'http file', 'http', 'http query', 'hook to file', 'hook to http', 'getter class', 'resolver getter class', 'dict getter', 'local getter', 'app.create']
BASE12 = []


def resource12(n):
    return {'swaggerVersion': '1.2', 'basePath': 'http://api.io/v1', 'resourcePath': '/' + n,
            'models': {'M': {'id': 'M', 'properties': {'d': {'type': 'string', 'format': 'date'}, 'n': {'type': 'integer'}}}},
            'apis': [{'path': '/%s/{id}' % n, 'operations': [{'method': 'GET', 'nickname': 'get', 'type': 'M', 'responseMessages': [{'code': 404, 'message': 'no', 'responseModel': 'M'}], 'parameters': [
                {'name': 'id', 'paramType': 'path', 'type': 'string', 'required': True}, {'name': n, 'paramType': 'query', 'type': 'number', 'defaultValue': 0.5}]}]}]}


def behaviour12(app):
    out = {'ops': sorted(app.op), 'models': sorted(app.m), 'title': app.root.info.title}
    for n in ('pet', 'my-user'):
        out[n] = outcome(lambda: request_view(app.op[n, 'get'](id='x')[0]))
        for st in (200, 404):
            def f():
                _, r = app.op[n, 'get'](id='x')
                r.apply_with(status=st, raw='{"d": "2001-02-03", "n": 0}')
                return plain(r.data)
            out[n, st] = outcome(f)
    return out


def listing12(c):
    form = c.free('location', FORMS12)
    ser = c.free('written as', list(SERIAL))
    rser = c.free('resources written as', list(SERIAL))
    yam = lambda s: s.startswith('yaml')
    stem = c.pick('file name', ['resource_list', 'swagger', 'api', 'list.v1', 'apis-json'])
    ext = c.pick('extension', ['.yaml', '.yml', '.json'] if yam(ser) else ['.json', '.yaml', '.yml'])
    rext = c.pick('extension of resources', ['.yaml', '.yml'] if yam(rser) else ['.json', '.yml'])
    folder = c.pick('folder', ['plain', 'sp ace', u'\u00fcn\u00ef', 'per%20cent', 'a#b', 'my-json', 'yaml', 'q?x'])
    if form == 'folder' and stem + ext not in ('resource_list.json', 'swagger.json', 'swagger.yaml', 'swagger.yml'):
        if stem != 'resource_list':
            raise Skip()
        stem = 'swagger'
    c.step(2)
    top = os.path.realpath(tempfile.mkdtemp(prefix='c06.'))
    cwd = os.getcwd()
    docs = {'main': LISTING, 'pet': resource12('pet'), 'my-user': resource12('my-user')}
    try:
        d = os.path.join(top, 'x', folder)
        os.makedirs(d)
        main = os.path.join(d, stem + ext)
        text = dict((n, SERIAL[ser if n == 'main' else rser](o).encode('utf-8')) for n, o in docs.items())
        if form in ('path', 'relative path', 'dot path', 'file url', 'folder', 'hook to file', 'local getter', 'app.create'):
            for n, b in text.items():
                with open(main if n == 'main' else os.path.join(d, n + rext), 'wb') as f:
                    f.write(b)
        with Web() as web:
            base = 'http://h.io/' + quote(folder)
            murl = base + '/' + stem + ext
            web.files = {murl: text['main'], base + '/pet': text['pet'], base + '/my-user': text['my-user']}
            served = dict(web.files)
            if form == 'http':
                # without an extension, resources are below the listing
                murl = 'http://h.io/%s/%s' % (quote(folder), stem if stem != 'list.v1' else 'api-docs')
                web.files = {murl: text['main'], murl + '/pet': text['pet'], murl + '/my-user': text['my-user']}
            if form == 'http query':
                murl += '?key=a/b.c&v=1'
                web.files = dict((u + '?key=a/b.c&v=1', b) for u, b in served.items())

            class G(SimpleGetter):
                def load(self, path):
                    return served[path]
            if form in ('hook to file', 'getter class', 'resolver getter class', 'dict getter'):
                web.files = {}
            if form == 'hook to http':
                web.files = dict((u.replace('http://h.io', 'https://mirror'), b) for u, b in served.items())
            if form == 'relative path':
                os.chdir(top)
            elif form == 'dot path':
                os.chdir(d)
            load = {'path': lambda: App.load(main), 'relative path': lambda: App.load(os.path.join('x', folder, stem + ext)), 'dot path': lambda: App.load('./' + stem + ext),
                    'file url': lambda: App.load('file://' + quote(main)), 'folder': lambda: App.load(d), 'http file': lambda: App.load(murl), 'http': lambda: App.load(murl), 'http query': lambda: App.load(murl),
                    'hook to file': lambda: App.load(murl, url_load_hook=lambda u: 'file://' + quote(d) + u[len(base):]),
                    'hook to http': lambda: App.load(murl, url_load_hook=lambda u: u.replace('http://h.io', 'https://mirror')),
                    'getter class': lambda: App.load(murl, getter=G), 'resolver getter class': lambda: App.load(murl, resolver=Resolver(default_getter=G)),
                    'dict getter': lambda: App.load(murl, getter=DictGetter([murl, base + '/pet', base + '/my-user'], dict(zip([murl, base + '/pet', base + '/my-user'], copy.deepcopy([docs['main'], docs['pet'], docs['my-user']]))))),
                    'local getter': lambda: App.load(main, resolver=Resolver(default_getter=LocalGetter)), 'app.create': lambda: App.create(main)}[form]
            app = load()
            if form != 'app.create':
                app.prepare()
            got = behaviour12(app)
        if not BASE12:
            a = App.load('http://h.io/a.json', getter=DictGetter(['http://h.io/a.json', 'http://h.io/pet', 'http://h.io/my-user'], {'http://h.io/a.json': copy.deepcopy(docs['main']), 'http://h.io/pet': docs['pet'], 'http://h.io/my-user': docs['my-user']}))
            a.prepare()
            BASE12.append(behaviour12(a))
            assert BASE12[0]['pet'][0] == 'ok' and len(BASE12[0]['ops']) == 2
        for k in BASE12[0]:
            c.eq(got[k], BASE12[0][k], str(k), 'behaviour')
        c.state(form, ser, rser, stem, ext, rext, folder)
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


SCENARIOS = [
    dict(name='listing 1.2', fn=listing12, bound=dict(quick=1, thorough=2), space='Swagger 1.2: 15 location forms x 6 serialisations of the listing x 6 of the resources, and up to `bound` departures in file name, extensions, folder'),
    dict(name='storage', fn=storage, bound=dict(quick=1, thorough=2), space='18 location forms x 6 serialisations x with/without relative references, and up to `bound` departures in folder name, layout, extension, file name, serialisation of referred files'),
    dict(name='nothing there', fn=nothing_there, bound=0, space='7 location forms x 8 kinds of missing or unusable content x root or referred document'),
]
