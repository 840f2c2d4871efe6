"""Small dense matrices over the complex numbers: the reference meaning of gates and of device instructions."""
import cmath
import math

S2 = 1 / math.sqrt(2)
FIXED = {
    'x': [[0, 1], [1, 0]], 'y': [[0, -1j], [1j, 0]], 'z': [[1, 0], [0, -1]], 'h': [[S2, S2], [S2, -S2]],
    's': [[1, 0], [0, 1j]], 'si': [[1, 0], [0, -1j]],
    't': [[1, 0], [0, cmath.exp(0.25j * math.pi)]], 'ti': [[1, 0], [0, cmath.exp(-0.25j * math.pi)]],
    'v': [[0.5 + 0.5j, 0.5 - 0.5j], [0.5 - 0.5j, 0.5 + 0.5j]], 'vi': [[0.5 - 0.5j, 0.5 + 0.5j], [0.5 + 0.5j, 0.5 - 0.5j]],
    'swap': [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
    'sqrtswap': [[1, 0, 0, 0], [0, 0.5 + 0.5j, 0.5 - 0.5j, 0], [0, 0.5 - 0.5j, 0.5 + 0.5j, 0], [0, 0, 0, 1]],
    'id': [[1, 0], [0, 1]],
}


def rot(name, a):
    c, s = math.cos(a / 2), math.sin(a / 2)
    e = cmath.exp
    return {
        'rx': lambda: [[c, -1j * s], [-1j * s, c]], 'ry': lambda: [[c, -s], [s, c]], 'rz': lambda: [[e(-0.5j * a), 0], [0, e(0.5j * a)]],
        'rxx': lambda: [[c, 0, 0, -1j * s], [0, c, -1j * s, 0], [0, -1j * s, c, 0], [-1j * s, 0, 0, c]],
        'ryy': lambda: [[c, 0, 0, 1j * s], [0, c, -1j * s, 0], [0, -1j * s, c, 0], [1j * s, 0, 0, c]],
        'rzz': lambda: [[e(-0.5j * a), 0, 0, 0], [0, e(0.5j * a), 0, 0], [0, 0, e(0.5j * a), 0], [0, 0, 0, e(-0.5j * a)]],
        'r': lambda: [[1, 0], [0, e(1j * a)]], 'ph': lambda: [[e(1j * a), 0], [0, e(1j * a)]],
    }[name]()


def u3(t, p, lam):
    c, s = math.cos(t / 2), math.sin(t / 2)
    e = cmath.exp
    return [[c, -e(1j * lam) * s], [e(1j * p) * s, e(1j * (p + lam)) * c]]


GATES = {'XGate': 'x', 'YGate': 'y', 'ZGate': 'z', 'HGate': 'h', 'SGate': 's', 'TGate': 't', 'SqrtXGate': 'v', 'SwapGate': 'swap', 'SqrtSwapGate': 'sqrtswap'}
ROTS = {'Rx': 'rx', 'Ry': 'ry', 'Rz': 'rz', 'Rxx': 'rxx', 'Ryy': 'ryy', 'Rzz': 'rzz', 'R': 'r', 'Ph': 'ph'}


def dagger(m):
    return [[complex(m[j][i]).conjugate() for j in range(len(m))] for i in range(len(m))]


def embed(m, qubits, controls, order):
    """Matrix of the gate m on `qubits` (first one most significant), controlled by `controls` {qubit: bit}, on the space of `order`."""
    n = len(order)
    pos = {q: n - 1 - i for i, q in enumerate(order)}
    size = 1 << n
    out = [[0] * size for _ in range(size)]
    k = len(qubits)
    for col in range(size):
        if any((col >> pos[q]) & 1 != b for q, b in controls.items()):
            out[col][col] = 1
            continue
        sub = 0
        for q in qubits:
            sub = sub << 1 | (col >> pos[q]) & 1
        base = col
        for q in qubits:
            base &= ~(1 << pos[q])
        for row in range(1 << k):
            v = m[row][sub]
            if v:
                r = base
                for i, q in enumerate(qubits):
                    if row >> (k - 1 - i) & 1:
                        r |= 1 << pos[q]
                out[r][col] += v
    return out


def mul(a, b):
    n = len(b[0])
    out = []
    for r in a:
        row = [0] * n
        for k, x in enumerate(r):
            if x:
                bk = b[k]
                for j in range(n):
                    if bk[j]:
                        row[j] += x * bk[j]
        out.append(row)
    return out


def close(a, b, phase=False, tol=1e-7):
    """Equality of two matrices, up to a global phase when phase is set."""
    f = 1
    if phase:
        i, j = max(((i, j) for i in range(len(b)) for j in range(len(b))), key=lambda ij: abs(b[ij[0]][ij[1]]))
        if abs(a[i][j]) < tol:
            return False
        f = a[i][j] / b[i][j]
        if abs(abs(f) - 1) > tol:
            return False
    return all(abs(x - f * y) <= tol for r, q in zip(a, b) for x, y in zip(r, q))
