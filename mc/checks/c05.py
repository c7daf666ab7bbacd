import copy
import json

from pyswagger.resolve import Resolver
from pyswagger.spec.v2_0.parser import SchemaContext, ParameterContext, ResponseContext, PathItemContext
from mc import engine
from mc.lib import getter_for, load_app, ROOT, plain, doc as mkdoc, op as mkop

ASSUMPTIONS = ['one reference is always resolved as the same kind of object']

A = 'http://h.io/x/a.json'
B = 'http://h.io/x/b.json'
F = 'http://h.io/x/file.json'
# other documents than A, the urls being alike
A2 = 'http://h.io/x/A.json'
A3 = 'http://h.io/x/a.json?v=2'
DOCS = {
    A: {'definitions': {'P': {'type': 'object', 'properties': {'n': {'type': 'integer'}, 'Px': {'type': 'string', 'format': 'date'}}},
                        'Px': {'type': 'string', 'enum': ['px']}, 'P/n': {'type': 'boolean'},
                        'R': {'type': 'object', 'properties': {'q': {'$ref': 'b.json#/definitions/Q'}, 'p': {'$ref': '#/definitions/P'}}},
                        'L': {'type': 'object', 'properties': {'next': {'$ref': '#/definitions/L'}, 'd': {'$ref': 'b.json#/definitions/Q'}}}},
        'parameters': {'P': {'name': 'pp', 'in': 'query', 'type': 'integer'}}, 'responses': {'P': {'description': 'rr', 'schema': {'$ref': '#/definitions/R'}}}},
    B: {'definitions': {'Q': {'type': 'array', 'items': {'$ref': 'a.json#/definitions/Px'}}, 'Q2': {'type': 'integer', 'minimum': 3}}},
    F: {'type': 'object', 'properties': {'a': {'type': 'integer'}, 'b': {'$ref': '#/definitions/P'}}, 'definitions': {'P': {'type': 'string', 'format': 'date'}}},
    A2: {'definitions': {'P': {'type': 'integer'}}},
    A3: {'definitions': {'P': {'type': 'array', 'items': {'$ref': '#/definitions/I'}}, 'I': {'type': 'string', 'maxLength': 2}}},
    ROOT: mkdoc(paths={'/a': {'get': mkop([{'$ref': '#/parameters/P'}], operationId='op')}}, definitions={'P': {'type': 'object', 'properties': {'x': {'type': 'integer'}}}, 'Px': {'type': 'string'}},
                parameters={'P': {'name': 'own', 'in': 'query', 'type': 'string'}}),
}
S, PA, RE = SchemaContext, ParameterContext, ResponseContext
REFS = [
    (A + '#/definitions/P', S), (A + '#/definitions/P/properties/n', S), (A + '#/definitions/Px', S), (A + '#/definitions/P~1n', S), (A + '#/definitions/R', S),
    (A + '#/definitions/R/properties/q', S), (A + '#/definitions/L', S), (B + '#/definitions/Q', S), (B + '#/definitions/Q2', S), (B + '#/definitions/Q/items', S),
    (F, S), (F + '#/properties/a', S), (F + '#/definitions/P', S), (A + '#/parameters/P', PA), (A + '#/responses/P', RE), (A + '#/responses/P/schema', S),
    (ROOT + '#/definitions/P', S), ('#/definitions/P', S), (ROOT + '#/definitions/Px', S), ('#/parameters/P', PA),
    (A + '#/definitions/Nope', S), ('#/definitions/Nope', S), ('http://h.io/none.json#/x', S), (F + '#/properties/zz', S), (A + '#/definitions/P/properties/zz', S),
    (A2 + '#/definitions/P', S), (A3 + '#/definitions/P', S),
]
QUICK = [0, 1, 2, 3, 4, 6, 7, 9, 10, 11, 12, 13, 14, 15, 17, 20, 25, 26]
PROBES = [5, '2001-02-03', {'n': 1, 'Px': '2001-02-03'}, {'q': ['px'], 'p': {'n': 1}}, {'next': {'next': {'d': ['px']}}}, ['px'], ['no'], 'px', 'no', {'a': 1, 'b': '2001-02-03'}, {'x': 1}, True, 1]


def observe(app, o):
    out = [type(o.dump).__name__, o.__class__.__name__, json.dumps(o.dump(), sort_keys=True)]
    if o.__class__.__name__ == 'Schema':
        for v in PROBES:
            try:
                out.append(plain(o._prim_(copy.deepcopy(v), app.prim_factory)))
            except Exception as e:      # noqa
                out.append(type(e).__name__)
    elif o.__class__.__name__ == 'Response':
        try:
            out.append(plain(o.schema._prim_({'q': ['px'], 'p': {'n': 1}}, app.prim_factory)))
        except Exception as e:          # noqa
            out.append(type(e).__name__)
    return out


class Down(Exception):
    pass


class World(object):
    def __init__(self, c=None):
        self.log = []
        self.ok = {}
        self.c = c
        self.down = False
        self.failed = False

    def faults(self, url):
        if self.c is not None and self.down:
            how = self.c.pick('fetch %s' % url.rsplit('/', 1)[-1], ['ok', 'fails', 'garbage'])
            if how != 'ok':
                self.failed = True
                if how == 'fails':
                    raise Down(url)
                raise ValueError('garbage')     # what parsing rubbish gives
        if url in DOCS:
            self.ok[url] = self.ok.get(url, 0) + 1

    def app(self):
        a = load_app(copy.deepcopy(DOCS), faults=self.faults)
        a.prepare()
        return a


FRESH = {}


def fresh(i):
    if i not in FRESH:
        w = World()
        a = w.app()
        try:
            FRESH[i] = ('ok', observe(a, a.resolve(REFS[i][0], parser=REFS[i][1])))
        except Exception as e:      # noqa
            FRESH[i] = ('err',)
    return FRESH[i]


def app_history(c):
    depth = 3 if engine.TIER == 'quick' else 4
    w = World(c)
    app = w.app()
    w.down = True
    done = []
    for i in range(depth):
        k = c.free('resolve %d' % i, QUICK if engine.TIER == 'quick' else list(range(len(REFS))))
        w.failed = False
        c.step()
        before = dict(w.ok)
        try:
            got = ('ok', observe(app, app.resolve(REFS[k][0], parser=REFS[k][1])))
        except Exception as e:      # noqa
            got = ('err',)
        if w.failed:
            c.check(got == ('err',), 'a fetch failed while resolving %s, but it gave %r' % (REFS[k][0], got), 'failure hidden')
        else:
            c.check(got == fresh(k), '%s after %r gives %r, on a fresh App %r' % (REFS[k][0], done, got, fresh(k)), 'history')
        done.append((REFS[k][0].rsplit('/', 1)[-1], w.failed))
        c.check(all(v == 1 for v in w.ok.values()), 'fetched more than once: %r' % w.ok, 'refetch')
        if k in (16, 17, 18, 19):
            c.check(w.ok == before, 'fetched again: %r' % w.ok, 'refetch')
    # the App itself is as before
    w.down = False
    req, _ = app.op['op'](own='x')
    c.eq(req.query, [('own', 'x')], 'operation after the history')
    c.state(tuple(done), tuple(sorted(w.ok)))


def resolver_history(c):
    depth = 3 if engine.TIER == 'quick' else 5
    refs = [A, A + '#/definitions/P', A + '#/definitions/P/properties/n', A + '#/definitions/P~1n', A + '#/definitions/Nope', B + '#/definitions/Q/items', B, 'http://h.io/none.json', F + '#/properties/a/type', A + '#/definitions/P/type/x', A2 + '#/definitions/P', A3 + '#/definitions/P']
    w = World(c)
    w.down = True
    hook = c.free('hook', [None, lambda u: u.replace('/x/', '/y/')])
    docs = dict(DOCS)
    if hook:
        docs.update((hook(k), v) for k, v in DOCS.items())
        for k in list(DOCS):
            w.ok.pop(k, None)
    how = c.free('getter', ['default', 'argument'])
    own = dict(docs)
    G = getter_for(own, faults=w.faults)
    r = Resolver(url_load_hook=hook, default_getter=G if how == 'default' else None)
    done = []
    for i in range(depth):
        ref = c.free('resolve %d' % i, refs)
        c.visit((tuple(done), hook is None, how), depth - i)
        w.failed = False
        try:
            got = ('ok', r.resolve(ref) if how == 'default' else r.resolve(ref, G))
        except Exception:   # noqa
            got = ('err', None)
        url, _, ptr = ref.partition('#')
        want = own.get(url)
        try:
            for t in ptr.split('/')[1:]:
                want = want[t.replace('~1', '/')]
            want = ('ok', want) if want is not None else ('err', None)
        except (KeyError, TypeError):
            want = ('err', None)
        if w.failed:
            want = ('err', None)
        c.check(got == want, '%s after %r gives %r, expected %r' % (ref, done, got, want), 'resolver')
        done.append((ref, w.failed))
        c.check(all(v == 1 for v in w.ok.values()), 'fetched more than once: %r' % w.ok, 'refetch')
    c.state(tuple(done))


SCENARIOS = [
    dict(name='resolver', fn=resolver_history, bound=dict(quick=2, thorough=3), space='all sequences of 3 (5) resolutions out of 12 references on a Resolver, each fetch succeeding, failing or giving garbage (bounded), with and without url hook'),
    dict(name='app', fn=app_history, bound=dict(quick=1, thorough=2), space='all sequences of 3 (4) resolutions out of 18 (27) references on a prepared App, with up to `bound` failing fetches; compared with a fresh App'),
]
