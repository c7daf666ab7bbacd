"""C29: composition of request headers and custom headers"""
from mc import engine
from mc.lib import mem_app, doc, op as mkop, P, probe

ASSUMPTIONS = ['names are joined when spelled identically', 'values are text', 'requests and flask send only the last of repeated entries (their header maps cannot repeat)']
NAMES = ['X-A', 'x-a', 'X-B', 'Accept', 'Content-Type', 'New']
VALS = ['1', '2', '', 'a,b']


def entries(c, n):
    if n and c.short:
        return [(c.free('name %d' % i, c.short), c.free('value %d' % i, ['1', '', 'a,b'])) for i in range(n)]
    return [(c.free('name %d' % i, NAMES), c.pick('value %d' % i, VALS[i:] + VALS[:i])) for i in range(n)]


def joined(items):
    out = {}
    for k, v in items:
        out[k] = out[k] + ',' + v if k in out else v
    return list(out.items())


def compose(c, short=None):
    c.short = short
    own = c.subset('own', ['X-A'] if short else ['X-A', 'X-B', 'body', 'produces'])
    form = c.free('given as', ['None', 'list', 'dict'])
    n = c.free('entries', range(5 if engine.TIER == 'thorough' else 4)) if form != 'None' else 0
    given = entries(c, n)
    join = c.free('join', [False, True, None])
    ps = [P(x, 'header') for x in own if x.startswith('X')]
    kw = dict((p['name'], 'own') for p in ps)
    if 'body' in own:
        ps.append(P('b', 'body', schema={'type': 'string'}))
        kw['b'] = 'x'
    app = mem_app(doc(paths={'/a': {'post': mkop(ps, operationId='op', **(dict(produces=['p/1']) if 'produces' in own else {}))}}))
    cl = probe()
    req, _ = pair = app.op['op'](**kw)
    cl.request(pair)
    R = list(req.header.items())
    c.eq(sorted(R), sorted([(k, 'own') for k in kw if k != 'b'] + ([('Content-Type', 'application/json')] if 'body' in own else []) + ([('Accept', 'p/1')] if 'produces' in own else [])), 'headers of the request')
    headers = None if form == 'None' else given if form == 'list' else dict(given)
    L = [] if headers is None else list(headers) if form == 'list' else list(headers.items())
    before = repr(headers)
    for as_dict in (False, True):
        for rep in (1, 2):
            opt = {} if join is None else {'join_headers': join}
            opt['other'] = 1
            got = cl.compose_headers(req, headers, opt, as_dict=as_dict)
            c.step()
            c.eq(repr(headers), before, 'headers of the caller')
            c.eq(opt.get('other'), 1, 'option of somebody else')
            items = list(got.items()) if as_dict else list(got)
            what = 'dict' if as_dict else 'list'
            if join and headers is not None:
                c.eq(items if not as_dict else sorted(items), joined(R + L) if not as_dict else sorted(joined(R + L)), '%s, joined' % what)
            elif not as_dict:
                c.eq(items, R + L, 'list')
            else:
                want = dict(L)
                want.update(R)
                rl = set(k.lower() for k, v in R)
                c.eq(sorted(x for x in items if x[0] in dict(R) or x[0].lower() not in rl), sorted((k, v) for k, v in want.items() if k in dict(R) or k.lower() not in rl), 'dict')
                # a map compared without case must end with the header of the request
                final = {}
                for k, v in items:
                    final[k.lower()] = v
                for k, v in R:
                    if len(set(x for x, _ in L if x.lower() == k.lower())) > 1:
                        continue        # the caller spells one name in two ways
                    c.eq(final[k.lower()], v, 'header %s of the request' % k)
            c.eq(sorted(req.header.items()), sorted(R), 'headers of the request afterwards')
    # through the client of the documentation: options of the caller, repeated sends
    opt = {} if join is None else {'join_headers': join}
    for rep in (1, 2):
        o = dict(opt)
        cl.request(pair, o, headers)
        c.eq(o, opt, 'options of the caller')
        c.eq(cl.headers, joined(R + L) if join and headers is not None else R + L, 'send %d' % rep)
        c.eq(repr(headers), before, 'headers of the caller')
    c.state(R, L, join)


def values(c):
    compose(c, ['X-A', 'New'])


def wrong(c):
    """something that is neither list nor dict is refused in list form"""
    h = c.free('headers', [5, 'text', ('X', 'y'), object()])
    app = mem_app(doc(paths={'/a': {'post': mkop(operationId='op')}}))
    cl = probe()
    pair = app.op['op']()
    try:
        cl.request(pair, None, h)
    except Exception:       # noqa
        c.state('refused')
        return
    c.fail('accepted %r' % (h,))


SCENARIOS = [
    dict(name='compose', fn=compose, bound=dict(quick=0, thorough=1), space='subsets of 4 request headers x all lists/dicts up to 3 (4) entries over 6 colliding names x join x result form; values up to `bound`'),
    dict(name='values', fn=values, bound=0, space='two names, with all values (empty, with commas) of up to 3 (4) entries'),
    dict(name='wrong', fn=wrong, bound=0, space='wrong types'),
]
