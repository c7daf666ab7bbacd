"""C35: comparison of documents: parsed ones (BaseObj.compare) and plain ones (utils._diff_)"""
import copy

from mc import engine
from mc.engine import Skip
from mc.lib import load_app, same
from mc.checks.c01 import feature_docs, esc
from pyswagger.utils import _diff_

ASSUMPTIONS = ['1, 1.0 and True are not told apart', 'plain lists hold things of one type', 'a field that is not written has its default value']

DEL = object()
NEW = object()


def walk(o, toks=()):
    yield toks, o
    if isinstance(o, dict):
        for k, v in o.items():
            for r in walk(v, toks + (k,)):
                yield r
    elif isinstance(o, list):
        for i, v in enumerate(o):
            for r in walk(v, toks + (i,)):
                yield r


def get(o, toks):
    for t in toks:
        o = o[t]
    return o


def pointer(toks):
    return '/'.join(esc(str(t)) for t in toks)


def edits_of(o):
    """all single edits of a plain value: (tokens of the place, kind)"""
    for toks, v in walk(o):
        if toks:
            yield toks, 'remove' if not isinstance(get(o, toks[:-1]), list) else 'shorten'
        if isinstance(v, dict):
            yield toks, 'add'
        elif isinstance(v, list):
            yield toks, 'lengthen'
            if len(v) > 1 and v[0] != v[1]:
                yield toks, 'reverse'
        else:
            yield toks, 'change'
            yield toks, 'empty'
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                yield toks, 'as text'
        if toks:
            yield toks, 'another type'


def edit(o, toks, kind):
    """apply; -> pointers that differ now, as [(tokens, old, new)] (None when nothing changes)"""
    v = get(o, toks)
    up = get(o, toks[:-1]) if toks else None
    if kind == 'remove':
        del up[toks[-1]]
        return [(toks, None, None)]
    if kind == 'shorten':
        n = len(up)
        del up[toks[-1]]
        return [(toks[:-1], n, n - 1)]
    if kind == 'add':
        v['new~/'] = 'x'
        return [(toks + ('new~/',), None, None)]
    if kind == 'lengthen':
        v.append(copy.deepcopy(v[-1]) if v else 'x')
        return [(toks, len(v) - 1, len(v))]
    if kind == 'reverse':
        if any(isinstance(x, (dict, list)) for x in v):
            return None
        old = list(v)
        v.reverse()
        return [(toks + (i,), a, b) for i, (a, b) in enumerate(zip(old, v)) if a != b]
    if kind == 'another type':
        new = ['x'] if isinstance(v, dict) else {'k': 'x'} if isinstance(v, list) else ['x']
    elif kind == 'empty':
        new = '' if isinstance(v, str) else 0
    elif kind == 'as text':
        new = str(v)
    else:
        new = v + 'x' if isinstance(v, str) else (not v) if isinstance(v, bool) else v + 1
    if new == v:
        return None
    if isinstance(up, list) and type(new) is not type(v) and len(up) > 1:
        return None
    up[toks[-1]] = new
    name = lambda x: type(x).__name__
    if isinstance(up, list) and type(new) is not type(v):
        return [(toks[:-1], str(type(v)), str(type(new)))]
    if isinstance(v, (dict, list)):
        return [(toks, name(v), name(new))]
    return [(toks, v, new)]


BASE = {'a': {'b/c': ['x', 'y', 'x'], 'n': 0, '~': {'': None if False else '', 'deep': [[1, 2], [3]]}}, 'b': [{'k': 'v', 'l': [0, 0]}, {'k': 'w'}, {}], u'\u00e9': 1.5, '0': [], 'e': {}, 'a/b': True}


def plain_values(c):
    es = list(edits_of(BASE))
    e1 = c.free('edit', [None] + es)
    dst = copy.deepcopy(BASE)
    want = []
    if e1:
        w = edit(dst, *e1)
        if w is None:
            raise Skip()
        want += w
        e2 = c.pick('second edit', [None] + [e for e in es if e[0] > e1[0]])
        if e2:
            # somewhere else altogether
            if e2[0][:len(e1[0])] == e1[0] or e1[0][:len(e2[0])] == e2[0] or (e1[1] in ('shorten', 'lengthen', 'another type', 'remove') and e2[0][:len(e1[0]) - 1] == e1[0][:-1] and isinstance(get(BASE, e1[0][:-1]), list)) \
                    or (e2[1] in ('shorten', 'lengthen', 'another type', 'remove') and e1[0][:len(e2[0]) - 1] == e2[0][:-1] and isinstance(get(BASE, e2[0][:-1]), list)):
                raise Skip()
            w = edit(dst, *e2)
            if w is None:
                raise Skip()
            want += w
    src = copy.deepcopy(BASE)
    way = c.free('direction', ['forward', 'backward'])
    a, b = (src, dst) if way == 'forward' else (dst, src)
    mode = c.pick('fields', ['all', 'exclude', 'include', 'both'])
    ex, inc = [], []
    keys = sorted(set(k for toks, v in walk(BASE) if isinstance(v, dict) for k in v))
    if mode != 'all':
        k = c.free('field', keys)
        if mode in ('exclude', 'both'):
            ex = [k]
        if mode == 'include':
            inc = [k] + c.free('and', [[], keys])
        elif mode == 'both':
            inc = keys

    def seen(toks):
        """whether the way there is compared"""
        o = BASE
        for i, t in enumerate(toks):
            if not isinstance(t, int):
                if inc and t not in inc or t in ex:
                    return False
        return True
    exp = []
    for t, o, n in want:
        if way == 'backward':
            o, n = n, o
            if isinstance(o, (list, dict)):     # names are given when the first one has parts
                o, n = type(o).__name__, type(n).__name__
        if seen(t):
            exp.append((pointer(t), o, n))
    keep = copy.deepcopy((a, b))
    kw = {}
    if ex:
        kw['exclude'] = ex
    if inc:
        kw['include'] = inc
    got = _diff_(a, b, **kw)
    c.step()
    key = lambda l: sorted(map(repr, l))
    c.eq(key(got), key(exp), 'differences')
    c.check(same((a, b), keep), 'the arguments were modified', 'modified')
    c.eq(key(_diff_(a, b, **kw)), key(exp), 'again')
    c.state(tuple(key(got)))


def parsed(c):
    """documents parsed by App, compared in both directions"""
    names = c.free('names', [('Pet', 'Pets'), ('a/b', '~'), ('0', u'\u00e9')])
    d = small(names)
    es = [e for e in edits_of(d) if applicable(d, *e)]
    e = c.free('edit', [None] + es)
    other = copy.deepcopy(d)
    w = []
    if e:
        w = edit(other, *e)
        if w is None:
            raise Skip()
    longer = e and (e[1] in ('shorten', 'lengthen') or e[1] == 'remove' and isinstance(get(d, e[0]), list))
    try:
        a, b = load_app(d).raw, load_app(other).raw
    except Exception:   # noqa: not a document any more
        raise Skip()
    c.step(2)
    try:
        one = a.compare(b)
        two = b.compare(a)
    except IndexError:
        if longer:
            c.finding('list length', '%s at %s: IndexError' % (e[1], pointer(e[0])))
            return
        raise
    c.eq(a.compare(a), (True, ''), 'an object and itself')
    if not e:
        c.eq((one, two), ((True, ''), (True, '')), 'equal documents')
        return
    if longer and (one[0] or two[0]):
        c.finding('list length', '%s at %s is not noticed' % (e[1], pointer(e[0])))
        return
    where = pointer(w[0][0])
    c.eq((one[0], two[0]), (False, False), 'different at %s' % where, 'not noticed')
    for r in (one, two):
        c.check(r[1] == where or e[1] in ('add', 'remove', 'shorten', 'lengthen') and (where.startswith(r[1] + '/') or r[1].startswith(where + '/')), 'difference at %s reported at %s' % (where, r[1]), 'place')
    c.state(one)


def small(names):
    k1, k2 = names
    return {'swagger': '2.0', 'info': {'title': 't', 'version': '1', 'contact': {'name': 'n'}}, 'host': 'h', 'schemes': ['http', 'https'], 'tags': [{'name': 'x', 'description': 'd'}],
            'definitions': {k1: {'type': 'object', 'required': [k1], 'properties': {k1: {'type': 'integer', 'minimum': 2}, k2: {'type': 'string', 'enum': ['a', 'b']}}, 'allOf': [{'title': 't'}, {'$ref': '#/definitions/' + esc(k2)}]}, k2: {'title': 'x'}},
            'paths': {'/' + k1: {'get': {'operationId': 'o', 'deprecated': True, 'tags': ['x'], 'parameters': [{'name': 'q', 'in': 'query', 'type': 'array', 'items': {'type': 'integer'}, 'default': [3, 4]}],
                                 'responses': {'200': {'description': 'd', 'headers': {k2: {'type': 'integer'}}}, 'default': {'$ref': '#/responses/R'}}, 'security': [{'k': ['s']}]}}},
            'responses': {'R': {'description': 'r', 'examples': {'a/b': 'x'}}}}


def applicable(d, toks, kind):
    """edits that leave a document, of which every bit is part of the object model"""
    v = get(d, toks)
    if kind in ('another type', 'as text'):
        # only where any value may stand
        return 'examples' in toks[:-1] or 'default' in toks[:-1]
    if kind == 'add':
        # a map of things, not an object with fields
        return toks and toks[-1] in ('examples',)
    if kind == 'empty':
        return not isinstance(v, bool)
    if kind == 'change' and toks[:1] == ('swagger',):
        return False
    return toks != ()


SCENARIOS = [
    dict(name='parsed', fn=parsed, bound=0, space='every single edit of a document with most kinds of objects, in both directions, 3 pairs of names'),
    dict(name='plain', fn=plain_values, bound=dict(quick=1, thorough=2), space='every single edit (thorough: pair of edits) of a nested value, in both directions, with every field included or excluded'),
]
