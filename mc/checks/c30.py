from mc.engine import TIER
from mc import engine
from pyswagger.utils import CaseInsensitiveDict

KEYS = ['Ab', 'aB', 'ab-C', 'AB-c']
ASSUMPTIONS = ['ASCII header names']


class Ref(object):
    """list of [lower, spelling, value] in insertion order"""
    def __init__(self):
        self.l = []

    def find(self, k):
        for e in self.l:
            if e[0] == k.lower():
                return e

    def set(self, k, v):
        e = self.find(k)
        if e:
            e[1], e[2] = k, v
        else:
            self.l.append([k.lower(), k, v])

    def delete(self, k):
        e = self.find(k)
        if e is None:
            return False
        self.l.remove(e)
        return True


def observe(c, d, r):
    c.eq(len(d), len(r.l), 'len')
    c.eq(list(d), [e[1] for e in r.l], 'iteration')
    c.eq(list(d.items()), [(e[1], e[2]) for e in r.l], 'items()')
    c.eq(list(d.values()), [e[2] for e in r.l], 'values()')
    c.eq(list(d.keys()), [e[1] for e in r.l], 'keys()')
    c.eq(list(d.iteritems()), [(e[1], e[2]) for e in r.l], 'iteritems()')
    c.eq(list(d.itervalues()), [e[2] for e in r.l], 'itervalues()')
    for k in KEYS + ['zz']:
        e = r.find(k)
        c.eq(k in d, e is not None, '%r in map' % k)
        c.eq(d.get(k, 'none'), e[2] if e else 'none', 'get(%r)' % k)
        try:
            got = d[k]
        except KeyError:
            got = KeyError
        c.eq(got, e[2] if e else KeyError, 'map[%r]' % k)
    c.eq(d == dict((e[1], e[2]) for e in r.l), True, 'equality with the plain dict')
    c.eq(bool(d), bool(r.l), 'truth')


def history(c):
    depth = 4 if engine.TIER == 'quick' else 6
    d, r = CaseInsensitiveDict(), Ref()
    n = [0]
    for i in range(depth):
        c.visit(tuple((e[0], e[1], e[2]) for e in r.l), depth - i)
        op = c.free('op%d' % i, ['set', 'del', 'update', 'pop', 'setdefault', 'clear', 'popitem'])
        k = c.free('key%d' % i, KEYS) if op not in ('clear', 'popitem') else None
        v = 'v%d' % (i % 2)
        c.step()
        if op == 'set':
            d[k] = v
            r.set(k, v)
        elif op == 'update':
            k2 = c.free('key2', KEYS[:3])
            form = c.free('form', ['dict', 'pairs', 'own'])
            if form == 'own':
                o = CaseInsensitiveDict()
                o[k] = v
                o[k2] = v + 'x'
                d.update(o)
                ro = Ref()
                ro.set(k, v)
                ro.set(k2, v + 'x')
                for e in ro.l:
                    r.set(e[1], e[2])
            else:
                pairs = [(k, v), (k2, v + 'x')]
                if form == 'dict':
                    pairs = list(dict(pairs).items())
                d.update(dict(pairs) if form == 'dict' else pairs)
                for a, b in pairs:
                    r.set(a, b)
        elif op == 'del':
            try:
                del d[k]
                ok = True
            except KeyError:
                ok = False
            c.eq(ok, r.delete(k), 'del %r succeeded' % k)
        elif op == 'pop':
            e = r.find(k)
            c.eq(d.pop(k, 'none'), e[2] if e else 'none', 'pop(%r)' % k)
            if e:
                r.delete(k)
        elif op == 'setdefault':
            e = r.find(k)
            c.eq(d.setdefault(k, v), e[2] if e else v, 'setdefault(%r)' % k)
            if not e:
                r.set(k, v)
        elif op == 'popitem':
            try:
                got = d.popitem()
            except KeyError:
                c.eq(len(r.l), 0, 'popitem refused on size')
            else:
                e = r.find(got[0])
                c.check(e is not None and (e[1], e[2]) == got, 'popitem gave %r' % (got,))
                r.delete(got[0])
        else:
            d.clear()
            r.l = []
        observe(c, d, r)


SCENARIOS = [dict(name='history', fn=history, dedup=True, bound=0,
                  space='all operation sequences, 4 spellings of 2 names, depth 4 (quick) / 6 (thorough), states deduplicated')]
