"""Reference state vectors: what a program means for its logical qubits, computed with Gaussian integers or floats."""
from .core import reim
from .values import polyval, to_poly

X, Y, Z = [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]
PAULI = {'X': X, 'Y': Y, 'Z': Z}
SWAP = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]


def number(v):
    """Value of a number of the analysed program as complex, else None."""
    try:
        re, im = reim(v)
    except Exception:
        return None
    if re is None:
        return None
    a, b = polyval(re), polyval(im)
    return None if a is None or b is None else complex(a, b)


def close(a, b, tol=1e-9):
    return abs(complex(a) - complex(b)) <= tol * max(1.0, abs(complex(b)))


class Vector:
    """Amplitudes of the qubits in `order` (first qubit = lowest bit)."""

    def __init__(self):
        self.order = []
        self.amp = [1]

    def copy(self):
        v = Vector()
        v.order, v.amp = list(self.order), list(self.amp)
        return v

    def allocate(self, q):
        self.order.append(q)
        self.amp = self.amp + [0] * len(self.amp)

    def bit(self, i, q):
        return i >> self.order.index(q) & 1

    def release(self, q):
        """Forget a qubit which is in state 0 or 1."""
        pos = self.order.index(q)
        val = {i >> pos & 1 for i, a in enumerate(self.amp) if a}
        assert len(val) <= 1
        val = val.pop() if val else 0
        self.amp = [a for i, a in enumerate(self.amp) if i >> pos & 1 == val]
        self.order.pop(pos)

    def release_collapsed(self, q, val):
        pos = self.order.index(q)
        self.amp = [a for i, a in enumerate(self.amp) if i >> pos & 1 == val]
        self.order.pop(pos)

    def apply(self, matrix, targets, controls=(), state=None):
        state = state or [1] * len(controls)
        pos = [self.order.index(t) for t in targets]
        out = [0] * len(self.amp)
        for i, a in enumerate(self.amp):
            if not a:
                continue
            if any(self.bit(i, c) != s for c, s in zip(controls, state)):
                out[i] += a
                continue
            col = sum((i >> p & 1) << k for k, p in enumerate(pos))
            base = i
            for p in pos:
                base &= ~(1 << p)
            for row in range(len(matrix)):
                m = matrix[row][col]
                if m:
                    out[base | sum((row >> k & 1) << p for k, p in enumerate(pos))] += m * a
        self.amp = out

    def math(self, fun, regs, controls=()):
        out = [0] * len(self.amp)
        for i, a in enumerate(self.amp):
            if any(not self.bit(i, c) for c in controls):
                out[i] += a
                continue
            args = [sum(self.bit(i, q) << k for k, q in enumerate(r)) for r in regs]
            j = i
            for r, v in zip(regs, fun(args)):
                for k, q in enumerate(r):
                    p = self.order.index(q)
                    j = (j & ~(1 << p)) | ((v >> k & 1) << p)
            out[j] += a
        self.amp = out

    def amplitude(self, bits, qubits):
        return self.amp[sum(b << self.order.index(q) for b, q in zip(bits, qubits))]

    def probability(self, bits, qubits):
        return sum(abs(a) ** 2 for i, a in enumerate(self.amp) if all(self.bit(i, q) == b for b, q in zip(bits, qubits)))

    def operator(self, terms, qubits):
        """Sum of Pauli strings applied; terms: [(((index, 'X'), ...), coefficient)]"""
        total = [0] * len(self.amp)
        for term, c in terms:
            v = self.copy()
            for i, p in term:
                v.apply(PAULI[p], [qubits[i]])
            total = [x + c * y for x, y in zip(total, v.amp)]
        self.amp = total

    def expectation(self, terms, qubits):
        v = self.copy()
        v.operator(terms, qubits)
        return sum((complex(a).conjugate() * b for a, b in zip(self.amp, v.amp)), 0).real

    def set(self, amp, qubits):
        self.order, self.amp = list(qubits), list(amp)

    def collapse(self, qubits, values):
        amp = [a if all(self.bit(i, q) == v for q, v in zip(qubits, values)) else 0 for i, a in enumerate(self.amp)]
        n = sum(abs(a) ** 2 for a in amp) ** 0.5
        self.amp = [a / n for a in amp]


__all__ = ['Vector', 'number', 'close', 'to_poly', 'X', 'Y', 'Z', 'SWAP', 'PAULI']
