"""Normal forms of command sequences: commands on disjoint qubits commute, adjacent commands with the same gate family on the same qubits multiply.
The sequences form a graph product of groups, so two sequences reduce to the same normal form exactly when one follows from the other by
exchanging independent neighbours and by multiplying (cancelling, merging) commands that are neighbours on all their qubits."""
import math
import re

PERIOD = {'Rx': 4 * math.pi, 'Ry': 4 * math.pi, 'Rz': 4 * math.pi, 'Rxx': 4 * math.pi, 'Ryy': 4 * math.pi, 'Rzz': 4 * math.pi,
          'Ph': 2 * math.pi, 'R': 2 * math.pi}
SELF = {'XGate', 'YGate', 'ZGate', 'HGate', 'SwapGate', 'BarrierGate'}
ONCE = {'MeasureGate', 'FlushGate', 'Once'}


def num(text):
    text = str(text)
    if re.sub(r'[\d\s.+\-*/()e]|pi|sqrt2', '', text):
        return None
    return float(eval(text, {'__builtins__': {}}, {'pi': math.pi, 'sqrt2': math.sqrt(2)}))


class Unknown(Exception):
    pass


def element(p, n):
    """(generator, exponent, qubits, period) of a command description."""
    g, regs, ids, st, tags = p
    if regs is None or ids is None or tags is None or not hasattr(st, 'v'):
        raise Unknown(f'unknown command {p}')
    state = st.v
    if not isinstance(state, str) or len(state) != len(ids):
        raise Unknown(f'controls {ids} with state {state}')
    ctrl = tuple(sorted(zip(map(str, ids), state)))
    qubits = {str(x) for r in regs for x in r} | {str(i) for i in ids}
    sig = g if isinstance(g, tuple) else (str(g), ())
    at = dict((k, v) for k, v in sig[1] if k not in ('interchangeable_qubit_indices',)) if isinstance(sig[1], tuple) else {}
    name = sig[0]
    key = (name, tuple(tuple(map(str, r)) for r in regs), ctrl, str(tags))
    if name in PERIOD:
        a = num(at.get('angle'))
        if a is None:
            raise Unknown(f'angle {at.get("angle")}')
        return key, a, qubits, PERIOD[name]
    if name == 'UserGate':
        k = int(at.get('num'))
        return (key[0] + str(abs(k)),) + key[1:], 1 if k > 0 else -1, qubits, None
    if name == 'AllocateQubitGate':
        return ('Qubit',) + key[1:], 1, qubits, None
    if name == 'DeallocateQubitGate':
        return ('Qubit',) + key[1:], -1, qubits, None
    if name in SELF:
        return key, 1, qubits, 2
    if name == 'DaggeredGate':
        inner = at.get('_gate')
        return ((inner[0] if isinstance(inner, tuple) else str(inner)),) + key[1:] + (str(dict(inner[1])) if isinstance(inner, tuple) else '',), -1, qubits, None
    if name in ONCE:
        return key + (n,), 1, qubits, None
    return key + (str(dict(sig[1])),), 1, qubits, None


def zero(e, period):
    if period is None:
        return e == 0
    d = e % period
    return min(d, period - d) < 1e-9


def reduce(items):
    """items: [(generator, exponent, qubits, period)] -> canonical form."""
    seq = []
    for g, e, q, per in items:
        i = len(seq)
        j = i - 1
        while j >= 0:
            if seq[j][0] == g:
                break
            if seq[j][2] & q:
                j = -1
                break
            j -= 1
        if j >= 0:
            s = seq[j][1] + e
            if zero(s, per):
                del seq[j]
            else:
                seq[j] = (g, s, q, per)
        elif not zero(e, per):
            seq.append((g, e, q, per))
    # lexicographic normal form of the trace
    out, rest = [], list(seq)
    while rest:
        best = None
        for i, x in enumerate(rest):
            if any(rest[k][2] & x[2] for k in range(i)):
                continue
            key = (str(x[0]),)
            if best is None or key < best[0]:
                best = (key, i)
        x = rest.pop(best[1])
        e = x[1] if x[3] is None else x[1] % x[3]
        if x[3] is not None and abs(e - x[3]) < 1e-9:
            e = 0.0
        out.append((x[0], round(e, 7), tuple(sorted(x[2]))))
    return out


def normal(parts):
    cnt = {}
    items = []
    for p in parts:
        n = cnt[str(p[:4])] = cnt.get(str(p[:4]), 0) + 1
        items.append(element(p, n))
    return reduce(items)


def same(a, b):
    """None when both sequences have the same normal form, else an explanation."""
    na, nb = normal(a), normal(b)
    if na == nb:
        return None
    for i, (x, y) in enumerate(zip(na, nb)):
        if x != y:
            return f'reduced command {i + 1} is {show(y)} instead of {show(x)}'
    if len(na) > len(nb):
        return f'reduced command {show(na[len(nb)])} is missing'
    return f'additional reduced command {show(nb[len(na)])}'


def show(x):
    return f'{x[0][0]}^{x[1]} on {",".join(x[2])}'
