"""Model of the parts of numpy the simulators and gates use: vectors and matrices of exact numbers."""
complex128 = complex
complex64 = complex
float64 = float
pi = 3.141592653589793


def native_matmul(a, b):
    pass


def native_kron(a, b):
    pass


def native_sqrt(x):
    pass


class ndarray(list):
    @property
    def shape(self):
        if self and isinstance(list(self)[0], ndarray):
            return (len(self), len(list(self)[0]))
        return (len(self),)

    def __getitem__(self, key):
        if isinstance(key, slice):
            return ndarray(list(self)[key])
        if isinstance(key, tuple):
            rows, cols = key
            if isinstance(rows, slice):
                return ndarray([row[cols] for row in list(self)[rows]])
            return list(self)[rows][cols]
        if isinstance(key, list):
            items = list(self)
            if key and isinstance(key[0], bool):
                return ndarray([x for x, k in zip(items, key) if k])
            return ndarray([items[i] for i in key])
        return super().__getitem__(key)

    def __setitem__(self, key, value):
        if isinstance(key, slice):
            for i, x in zip(list(range(len(self)))[key], value):
                super().__setitem__(i, x)
        elif isinstance(key, Grid):
            for i, row in zip(key.rows, value):
                for j, x in zip(key.cols, row):
                    self[i][j] = x
        elif isinstance(key, list):
            for i, x in zip(key, value):
                super().__setitem__(i, x)
        elif isinstance(key, tuple):
            self[key[0]][key[1]] = value
        else:
            super().__setitem__(key, value)

    def __eq__(self, other):
        if isinstance(other, list):
            if self and isinstance(list(self)[0], ndarray) and not isinstance(other[0], list):
                return ndarray([row == other for row in self])
            return ndarray([x == y for x, y in zip(self, other)])
        return ndarray([x == other for x in self])

    def astype(self, kind):
        return ndarray([x.astype(kind) if isinstance(x, ndarray) else kind(x) for x in self])

    def flatten(self):
        return self

    def __matmul__(self, other):
        return _array(native_matmul(self, other))

    def __rmatmul__(self, other):
        return _array(native_matmul(other, self))

    def dot(self, other):
        return _array(native_matmul(self, other))

    def __add__(self, other):
        if isinstance(other, list):
            return ndarray([x + y for x, y in zip(self, other)])
        return ndarray([x + other for x in self])

    def __radd__(self, other):
        return self + other

    def __sub__(self, other):
        if isinstance(other, list):
            return ndarray([x - y for x, y in zip(self, other)])
        return ndarray([x - other for x in self])

    def __mul__(self, other):
        return ndarray([x * other for x in self])

    def __rmul__(self, other):
        return ndarray([x * other for x in self])

    def __imul__(self, other):
        for i in range(len(self)):
            self[i] = self[i] * other
        return self

    def __iadd__(self, other):
        for i in range(len(self)):
            self[i] = self[i] + other[i]
        return self

    def __truediv__(self, other):
        return ndarray([x / other for x in self])

    def resize(self, size, refcheck=True):
        while len(self) < size:
            self.append(0)
        while len(self) > size:
            self.pop()

    def tolist(self):
        return [list(x) if isinstance(x, ndarray) else x for x in self]

    def copy(self):
        return ndarray([ndarray(x) if isinstance(x, ndarray) else x for x in self])

    def __deepcopy__(self, memo):
        return self.copy()

    def conjugate(self):
        return ndarray([x.conjugate() for x in self])


class Grid:
    def __init__(self, rows, cols):
        self.rows = rows
        self.cols = cols


def _array(obj):
    items = list(obj)
    if items and isinstance(items[0], (list, tuple)):
        return ndarray([ndarray(x) for x in items])
    return ndarray(items)


def array(obj, dtype=None, copy=True):
    return _array(obj)


def asarray(obj, dtype=None):
    return _array(obj)


class matrix(ndarray):
    """A matrix of rows: products are matrix products, getH is the adjoint."""

    def __init__(self, obj=(), dtype=None, copy=True):
        super().__init__([ndarray(x) for x in obj])

    def getH(self):
        rows = list(self)
        return matrix([[row[j].conjugate() for row in rows] for j in range(len(rows[0]))])

    @property
    def H(self):
        return self.getH()

    def conjugate(self):
        return matrix([[x.conjugate() for x in row] for row in self])

    def copy(self):
        return matrix(list(self))

    def __mul__(self, other):
        if isinstance(other, list):
            return matrix(native_matmul(self, other))
        return matrix([[x * other for x in row] for row in self])

    def __rmul__(self, other):
        return matrix([[x * other for x in row] for row in self])

    def __add__(self, other):
        return matrix([[x + y for x, y in zip(a, b)] for a, b in zip(self, other)])

    def __truediv__(self, other):
        return matrix([[x / other for x in row] for row in self])


def _close(x, y, rtol, atol):
    return abs(x - y) <= atol + rtol * abs(y)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not isinstance(a, list):
        return _close(a, b, rtol, atol)
    if len(a) != len(b):
        raise ValueError('shapes')
    for x, y in zip(a, b):
        if not allclose(x, y, rtol, atol):
            return False
    return True


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return _close(a, b, rtol, atol)


def identity(n, dtype=None):
    return ndarray([ndarray([1 if i == j else 0 for j in range(n)]) for i in range(n)])


def eye(n, dtype=None):
    return identity(n)


def zeros(shape, dtype=None):
    if isinstance(shape, tuple):
        if len(shape) == 1:
            return ndarray([0] * shape[0])
        return ndarray([ndarray([0] * shape[1]) for i in range(shape[0])])
    return ndarray([0] * shape)


def ones(n, dtype=None):
    return ndarray([1] * n)


def zeros_like(obj):
    return ndarray([0] * len(obj))


def copy(obj):
    return _array(obj)


def append(a, b):
    return ndarray(list(a) + list(b))


def concatenate(parts):
    res = []
    for part in parts:
        res = res + list(part)
    return ndarray(res)


def kron(a, b):
    return _array(native_kron(a, b))


def dot(a, b):
    return _array(native_matmul(a, b))


def matmul(a, b):
    return _array(native_matmul(a, b))


def ix_(rows, cols):
    return Grid(list(rows), list(cols))


def vdot(a, b):
    res = 0
    for x, y in zip(a, b):
        res = res + x.conjugate() * y
    return res


def sum(obj):
    res = 0
    for x in obj:
        res = res + x
    return res


def abs(x):
    if isinstance(x, list):
        return ndarray([native_sqrt(y.real ** 2 + y.imag ** 2) for y in x])
    return native_sqrt(x.real ** 2 + x.imag ** 2)


def sqrt(x):
    return native_sqrt(x)


def array_equal(a, b):
    return len(a) == len(b) and list(a) == list(b)


def all(obj, axis=None):
    if axis == 1:
        return ndarray([_all(row) for row in obj])
    return _all(obj)


def _all(obj):
    for x in obj:
        if not x:
            return False
    return True


def any(obj, axis=None):
    for x in obj:
        if x:
            return True
    return False


def delete(obj, ids):
    return ndarray([x for i, x in enumerate(obj) if i not in ids])


def arange(a, b=None, step=1):
    return ndarray(range(a) if b is None else range(a, b, step))


def intersect1d(a, b):
    if isinstance(a, tuple):
        a = a[0]
    if isinstance(b, tuple):
        b = b[0]
    return ndarray(sorted([x for x in a if x in b]))


def argsort(a):
    items = list(a)
    return ndarray([i for _, i in sorted([(x, i) for i, x in enumerate(items)])])


def where(cond):
    return (ndarray([i for i, x in enumerate(cond) if x]),)


class linalg:
    @staticmethod
    def inv(m):
        rows = [list(r) for r in m]
        n = len(rows)
        for i in range(n):
            rows[i] = rows[i] + [1 if i == j else 0 for j in range(n)]
        for i in range(n):
            p = i
            for j in range(i + 1, n):
                if abs(rows[j][i]) > abs(rows[p][i]):
                    p = j
            rows[i], rows[p] = rows[p], rows[i]
            d = rows[i][i]
            rows[i] = [x / d for x in rows[i]]
            for j in range(n):
                if j != i:
                    f = rows[j][i]
                    rows[j] = [x - f * y for x, y in zip(rows[j], rows[i])]
        return matrix([r[n:] for r in rows])
