"""Values stored by workloads, written in plans as small JSON lists."""
from persistent.mapping import PersistentMapping
from persistent.list import PersistentList

ABSENT = '<absent>'

EDGE = {
    'zero': 0, 'empty': '', 'list': [], 'dict': {}, 'false': False,
    'none': None, 'float0': 0.0, 'bytes0': b'', 'tuple0': (),
}


class Unstorable:
    """Cannot be pickled: makes the commit that contains it fail."""

    def __init__(self, n):
        self.n = n

    def __reduce__(self):
        raise TypeError('this object refuses to be stored')


def make(v):
    kind = v[0]
    if kind == 't':
        return f'v{v[1]}'
    if kind == 'e':
        x = EDGE[v[1]]
        return type(x)(x) if isinstance(x, (list, dict)) else x
    if kind == 'm':
        return PersistentMapping({'n': v[1]})
    if kind == 'p':
        return PersistentList([v[1]])
    if kind == 'l':
        return [v[1], f'x{v[1]}']
    if kind == 'big':
        return f'v{v[1]}:' + 'x' * v[2]
    if kind == 'i':
        return v[1]
    if kind == 'bad':
        return Unstorable(v[1])
    raise ValueError(v)


def obs(x):
    """Canonical, comparable form of an observed value."""
    if x is None or isinstance(x, (bool, int, float, bytes)):
        return repr(x)
    if isinstance(x, str):
        if len(x) > 60:
            return f'{x[:12]!r}..{len(x)}'
        return repr(x)
    if isinstance(x, PersistentMapping):
        return 'PM' + repr(sorted((k, obs(v)) for k, v in x.items()))
    if isinstance(x, PersistentList):
        return 'PL' + repr([obs(v) for v in x])
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + repr([obs(v) for v in x])
    if isinstance(x, dict):
        return 'dict' + repr(sorted((k, obs(v)) for k, v in x.items()))
    return f'<{type(x).__module__}.{type(x).__name__}>'


def want(v):
    return obs(make(v))
