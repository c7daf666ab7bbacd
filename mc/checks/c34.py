"""C34: scanning documents with handlers of the caller"""
import copy

from mc import engine
from mc.lib import getter_for, load_app, mem_app, outcome
from mc.checks.c01 import feature_docs, esc
from mc.checks.c26 import listing, resource, ROOT12, RES
from pyswagger import App
from pyswagger.resolve import Resolver
from pyswagger.scan import Dispatcher, Scanner
from pyswagger.spec.v2_0 import objects as v2
from pyswagger.spec.v1_2 import objects as v1

ASSUMPTIONS = ['handlers do not modify the document they scan', 'the order is free as long as an object comes before what it contains']

# what an object contains: field -> class, [class] or {class}
G2 = {
    'Swagger': {'info': 'Info', 'tags': ['Tag'], 'externalDocs': 'ExternalDocumentation', 'paths': {'PathItem'}, 'definitions': {'Schema'}, 'parameters': {'Parameter'}, 'responses': {'Response'},
                'securityDefinitions': {'SecurityScheme'}},
    'Info': {'contact': 'Contact', 'license': 'License'},
    'Tag': {'externalDocs': 'ExternalDocumentation'},
    'PathItem': dict([(m, 'Operation') for m in ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')] + [('parameters', ['Parameter'])]),
    'Operation': {'parameters': ['Parameter'], 'responses': {'Response'}},
    'Parameter': {'schema': 'Schema', 'items': 'Items'},
    'Response': {'schema': 'Schema', 'headers': {'Header'}},
    'Header': {'items': 'Items'},
    'Items': {'items': 'Items'},
    'Schema': {'items': 'Schema', 'properties': {'Schema'}, 'allOf': ['Schema'], 'additionalProperties': 'Schema', 'xml': 'XMLObject', 'externalDocs': 'ExternalDocumentation'},
}
G1 = {
    'ResourceList': {'info': 'Info', 'authorizations': {'Authorization'}, 'apis': {'Resource'}},
    'Authorization': {'scopes': ['Scope'], 'grantTypes': 'GrantType'},
    'GrantType': {'implicit': 'Implicit', 'authorization_code': 'AuthorizationCode'},
    'Implicit': {'loginEndpoint': 'LoginEndpoint'},
    'AuthorizationCode': {'tokenRequestEndpoint': 'TokenRequestEndpoint', 'tokenEndpoint': 'TokenEndpoint'},
    'Resource': {'apis': {'Operation'}, 'models': {'Model'}},
    'Operation': {'parameters': ['Parameter'], 'responseMessages': ['ResponseMessage'], 'authorizations': {('Authorizations',)}, 'items': 'Items'},
    'Parameter': {'items': 'Items'},
    'Model': {'properties': {'Property'}},
    'Property': {'items': 'Items'},
}
BASES = {2: ('BaseSchema', ['Schema', 'Items', 'Parameter', 'Header']), 1: ('DataTypeObj', ['Parameter', 'Operation', 'Property'])}


def objects_of(o, cls, grammar, path='#'):
    """every object in the plain document: (pointer, class)"""
    yield path, cls
    for f, what in grammar.get(cls, {}).items():
        v = o.get(f)
        if v is None or isinstance(v, bool):
            continue
        p = path + '/' + esc(f)
        if isinstance(what, str):
            todo = [(p, v, what)]
        elif isinstance(what, list):
            todo = [('%s/%d' % (p, i), x, what[0]) for i, x in enumerate(v)]
        else:
            w = list(what)[0]
            todo = [('%s/%s' % (p, esc(k)), x, w) for k, x in v.items()] if isinstance(w, str) else [('%s/%s/%d' % (p, esc(k), i), y, w[0]) for k, x in v.items() for i, y in enumerate(x)]
        for q, x, w in todo:
            for r in objects_of(x, w, grammar, q):
                yield r


def below(p, q):
    return p.startswith(q + '/')


def route(classes, log, label, results=None, twice=False, seen_app=None):
    """a fresh scanner of our own"""
    class Disp(Dispatcher):
        pass

    def handler(self, path, obj, app):
        log.append((label, path, obj))
        if seen_app is not None:
            seen_app.append(app)
        return (label, path) if len(path) % 2 else None
    Disp.register(classes)(handler)
    if twice:
        def second(self, path, obj, app):
            log.append((label + ' 2', path, obj))
            return (label + ' 2', path)
        Disp.register(classes[:1])(second)
    if results is not None:
        def result(self, r):
            results.append(r)
        Disp.result(result)
    return type('Route', (object,), {'Disp': Disp})()


def version2(c):
    d = feature_docs(c)
    want = list(objects_of(copy.deepcopy(d), 'Swagger', G2))
    app = load_app(d)
    if c.flag('prepared'):
        app.prepare(strict=False)
    return app, app.raw if app.root is None else app.root, want, v2


def version1(c):
    r = resource('pet')
    extra = c.pick('operation has', [None, 'no authorizations', 'no parameters', 'no responseMessages', 'two scopes'])
    o = r['apis'][0]['operations'][0]
    if extra == 'two scopes':
        o['authorizations'] = {'o': [{'scope': 'r'}, {'scope': 'w'}], 'k': []}
    elif extra:
        o.pop(extra[3:])
    docs = {ROOT12: listing(), RES[0]: r, RES[1]: resource('us er')}
    plain = copy.deepcopy(docs)
    for u in RES:
        plain[u]['apis'] = dict((o['nickname'], o) for a in plain[u]['apis'] for o in a['operations'])
    plain[ROOT12]['apis'] = {'pet': plain[RES[0]], 'us er': plain[RES[1]]}
    app = App.load(ROOT12, resolver=Resolver(default_getter=getter_for(docs)))
    return app, app.raw, list(objects_of(plain[ROOT12], 'ResourceList', G1)), v1


def visits(c):
    ver = c.free('version', [2, 1])
    app, root, want, mod = version2(c) if ver == 2 else version1(c)
    kinds = sorted(set(k for _, k in want))
    leaves = c.pick('leaves', [[], ['Operation'], ['Schema'], ['Parameter', 'Model'], ['Swagger', 'ResourceList'], ['PathItem', 'Resource'], ['Items', 'Response']])
    expect = [(p, k) for p, k in want if not any(below(p, q) and l in leaves for q, l in want)]
    log, results, apps = [], [], []
    how = c.free('handlers', ['one for all', 'one each', 'two for a class', 'with results', 'base class'])
    cls = dict((k, getattr(mod, k)) for k in kinds)
    start = root
    if ver == 2:
        at = c.pick('from', ['#', '#/paths/~1a', '#/paths/~1a/post', '#/info', '#/paths/~1a/post/parameters/0/schema'])
        if at != '#':
            start = root.resolve([t.replace('~1', '/') for t in at.split('/')[1:]])
            inner = [('#' + p[len(at):], k) for p, k in want if p == at or below(p, at)]
            expect = [(p, k) for p, k in inner if not any(below(p, q) and l in leaves for q, l in inner)]
    sc = Scanner(app)
    lv = [getattr(mod, l) for l in leaves if hasattr(mod, l)]
    wanted = []
    if how == 'one for all':
        routes = [route(list(cls.values()), log, 'h', seen_app=apps)]
        wanted = [('h', p, k) for p, k in expect]
    elif how == 'one each':
        routes = [route([v], log, k) for k, v in sorted(cls.items())]
        wanted = [(k, p, k) for p, k in expect]
    elif how == 'two for a class':
        two = c.pick('class', kinds)
        routes = [route([cls[two]], log, 'h', twice=True), route(list(cls.values()), log, 'other')]
        wanted = [(l, p, k) for p, k in expect for l in ((['h', 'h 2'] if k == two else []) + ['other'])]
    elif how == 'with results':
        a, b = c.pick('classes', [(kinds[0], kinds[-1]), (kinds[-1], kinds[1])])
        routes = [route([cls[a]], log, 'h', results=results), route([cls[b]], log, 'other')]
        wanted = [({a: 'h', b: 'other'}[k], p, k) for p, k in expect if k in (a, b)]
    else:
        base, subs = BASES[ver]
        own = c.pick('beside', [None] + subs)
        routes = [route([getattr(mod, base)] + ([cls[own]] if own else []), log, 'h')]
        wanted = [('h', p, k) for p, k in expect for _ in range(1 + (k == own)) if k in subs]
    before = root.dump()
    r = outcome(lambda: sc.scan(route=routes, root=start, leaves=lv) if lv or c.flag('leaves given') else sc.scan(root=start, route=routes))
    c.eq(r, ('ok', None), 'the scan')
    c.step(len(log))
    got = [(l, p, o.__class__.__name__) for l, p, o in log]
    more = [x for x in got if x not in wanted]
    less = [x for x in wanted if x not in got]
    c.check(not more and not less, 'visited %s, missed %s' % (more[:4], less[:4]), 'visited')
    c.eq(sorted(got), sorted(wanted), 'visits', 'more than once')
    place = {}
    for i, (l, p, o) in enumerate(log):
        place.setdefault(p, i)
    for p in place:
        up = p.rsplit('/', 1)[0]
        while up.startswith('#/'):
            c.check(up not in place or place[up] < place[p], '%s comes before %s' % (p, up), 'order')
            up = up.rsplit('/', 1)[0]
    for l, p, o in log:
        # the pointer leads to the object
        there = start
        toks = [t.replace('~1', '/').replace('~0', '~') for t in p.split('/')[1:]]
        there = start.resolve(toks) if toks else start
        c.check(there.__repr__() == o.__repr__(), '%s is another object' % p, 'pointer')
    if how == 'with results':
        c.eq(sorted(map(repr, results)), sorted(repr(('h', p) if len(p) % 2 else None) for l, p, o in log if l == 'h'), 'results')
    for a in apps:
        c.check(a is app, 'handlers are given %r' % a)
    c.eq(root.dump(), before, 'the document', 'modified')
    c.state(ver, how, tuple(leaves), sorted(p for _, p, _ in got))


class Stop(Exception):
    pass


def misuse(c):
    """errors of handlers are not swallowed, classes share nothing"""
    app = mem_app({'swagger': '2.0', 'info': {'title': 't', 'version': '1', 'contact': {'name': 'n'}}, 'paths': {'/a': {'get': {'responses': {'200': {'description': ''}}}}}})
    what = c.free('what', ['handler raises', 'result raises', 'no root', 'no such class', 'two dispatchers', 'inherited', 'own traversal', 'no handlers'])
    log, other = [], []
    sc = Scanner(app)
    if what in ('handler raises', 'result raises'):
        class R(object):
            class Disp(Dispatcher):
                pass

            @Disp.register([v2.Info])
            def f(self, path, obj, app):
                if what == 'handler raises':
                    raise Stop()

            @Disp.result
            def g(self, r):
                raise Stop()
        c.eq(outcome(lambda: sc.scan(route=[R()], root=app.root)), ('err', 'Stop'), what)
    elif what == 'no root':
        c.eq(outcome(lambda: sc.scan(route=[route([v2.Info], log, 'h')], root=None)), ('err', 'ValueError'), what)
    elif what == 'no such class':
        for bad in (int, str, App):
            c.eq(outcome(lambda: route([bad], log, 'h')), ('err', 'ValueError'), what)
    elif what == 'two dispatchers':
        class R(object):
            class A(Dispatcher):
                pass

            class B(Dispatcher):
                pass

            @A.register([v2.Info])
            def f(self, path, obj, app):
                log.append(path)
                return 'a'

            @B.register([v2.Info, v2.Contact])
            def g(self, path, obj, app):
                other.append(path)
                return 'b'

            @A.result
            def r(self, r):
                log.append(r)
        sc.scan(route=[R()], root=app.root)
        c.eq((log, sorted(other)), (['#/info', 'a'], ['#/info', '#/info/contact']), what)
    elif what == 'inherited':
        r1, r2 = route([v2.Info], log, 'one'), route([v2.Contact], log, 'two')
        sc.scan(route=[r1], root=app.root)
        c.eq([x[:2] for x in log], [('one', '#/info')], 'only its own handlers')
        del log[:]
        sc.scan(route=[r2], root=app.root)
        sc.scan(route=[r2], root=app.root)
        c.eq([x[:2] for x in log], [('two', '#/info/contact')] * 2, 'only its own handlers')
    elif what == 'own traversal':
        def nexter(root, leaves):
            yield '#x', root.info.contact
            yield '#y', root.info
            yield '#x', root.info.contact
        sc.scan(route=[route([v2.Info, v2.Contact, v2.Swagger], log, 'h')], root=app.root, nexter=nexter)
        c.eq([x[1] for x in log], ['#x', '#y', '#x'], what)
    else:
        sc.scan(route=[], root=app.root)
        sc.scan(route=[type('E', (object,), {})()], root=app.root)
    c.state(what)


SCENARIOS = [
    dict(name='visits', fn=visits, bound=dict(quick=1, thorough=2), space='documents of both versions with every kind of object and adversarial names x ways to register handlers; up to `bound` of leaves, start, preparation, classes'),
    dict(name='misuse', fn=misuse, bound=0, space='errors in handlers, wrong registrations, several dispatchers, traversal of the caller'),
]
