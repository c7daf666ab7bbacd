"""the random module, owned by somebody: its functions, its classes, and what the code under test holds of them"""
import random
import sys

NAMES = ['random', 'randint', 'choice', 'uniform', 'randrange', 'seed', 'shuffle', 'sample', 'choices', 'getrandbits', 'triangular', 'gauss']
_INST = random.random.__self__ if getattr(random.random, '__self__', None) is not None else None
_ORIG = dict((n, getattr(random, n)) for n in NAMES)
_CLASSES = (random.Random, random.SystemRandom)


class Owned(object):
    """base class: has methods of NAMES"""
    def _put(self, o, k, v):
        self._undo.append((o, k, getattr(o, k)))
        setattr(o, k, v)

    def __enter__(self):
        self._undo = []
        me = self
        make = lambda *a, **k: me       # noqa
        for n in NAMES:
            self._put(random, n, getattr(self, n))
        for k in ('Random', 'SystemRandom'):
            self._put(random, k, make)
        for n, m in list(sys.modules.items()):
            if m is not None and (n == 'pyswagger' or n.startswith('pyswagger.')):
                self._adopt(m, make)
                for v in list(vars(m).values()):
                    if isinstance(v, type) and (v.__module__ or '').startswith('pyswagger'):
                        self._adopt(v, make)
        return self

    def _adopt(self, o, make):
        for k, v in list(vars(o).items()):
            if isinstance(v, _CLASSES):
                self._put(o, k, self)
            elif isinstance(v, type) and v in _CLASSES:
                self._put(o, k, make)
            elif callable(v):
                for n in NAMES:
                    if v is _ORIG[n] or type(v) is type(_ORIG[n]) and v == _ORIG[n] or getattr(v, '__self__', None).__class__ in _CLASSES and getattr(v, '__name__', None) == n:
                        self._put(o, k, getattr(self, n))
                        break

    def __exit__(self, *a):
        for o, k, v in reversed(self._undo):
            setattr(o, k, v)
        self._undo = []
