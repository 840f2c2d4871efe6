"""C30: controlled and tensor gates distribute to exactly the given qubits."""
import itertools

from ..client import expect

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: abstract interpretation of `|` and get_inverse of the meta gates for every register shape up to the bound'

HEAD = '''
from projectq.ops._metagates import ControlQubitError, ControlledGate, DaggeredGate
from projectq.ops import NotInvertible


class NoInverse(BasicGate):
    def __init__(self, num=0):
        super().__init__()
        self.num = num

    def __eq__(self, other):
        return isinstance(other, NoInverse) and self.num == other.num

    def get_inverse(self):
        raise NotInvertible('no inverse')


def client():
    eng = main_engine(Recorder())
    q = [WeakQubitRef(eng, 50 + i) for i in range(10)]
    n0 = eng.n_engines
'''


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def regs(sizes, start=0):
    out, i = [], start
    for n in sizes:
        out.append('q[%d]' % i if n == 1 else '[' + ', '.join(f'q[{j}]' for j in range(i, i + n)) + ']')
        i += n
    return out


def ids(sizes, start=0):
    out, i = [], start
    for n in sizes:
        out.append(','.join(str(50 + j) for j in range(i, i + n)))
        i += n
    return '|'.join(out)


def ctrl(n):
    return ' ctrl ' + ','.join(f'{50 + i}=1' for i in range(n)) if n else ''


def check(chk):
    P = chk.prog
    lc = P.cls('ControlledGate', 'projectq.ops._metagates').loc()
    lt = P.cls('Tensor', 'projectq.ops._metagates').loc()
    chk.rule('controlled', 'an n-controlled gate applies the inner gate once, under exactly the first n qubits, to the remaining registers', 12)
    chk.rule('rejected', 'registers that do not split after the n-th qubit are rejected and nothing is sent', 6)
    chk.rule('nested', 'controlled gates of controlled gates add their controls; controlled gates obey the sections around them', 5)
    chk.rule('tensor', 'a tensor gate applies the inner gate exactly once to each qubit', 6)
    chk.rule('inverse', 'the inverse applies the inverse of the inner gate to the same qubits', 5)
    chk.rule('all', 'Tensor, All and C are the documented names', 1)
    big = 4 if chk.thorough else 3
    shapes = [(1,), (2,), (1, 1), (2, 1)] + ([(3,), (1, 2), (1, 1, 1)] if chk.thorough else [])
    tail = '    probe(eng.n_engines == n0)\n'
    for n in range(1, big + 1):
        for split in compositions(n):
            for sh in shapes:
                args = regs(split) + regs(sh, n)
                expect(chk, 'controlled', f'{n} controls in registers of {split}, targets {sh}',
                       HEAD + f'    C(UserGate(7), {n}) | ({", ".join(args)})\n' + tail,
                       [f'UserGate(num=7) {ids(sh, n)}{ctrl(n)}', 'probe True'], 'ControlledGate.__or__', lc)
    expect(chk, 'controlled', 'default number of controls', HEAD + '    C(UserGate(1)) | (q[0], q[1])\n' + tail,
           [f'UserGate(num=1) 51{ctrl(1)}', 'probe True'], 'C', lc)
    expect(chk, 'controlled', 'gate used twice on different qubits', HEAD + '    g = C(UserGate(1), 2)\n    g | (q[0], q[1], q[2])\n    g | ([q[0], q[1]], q[3])\n' + tail,
           [f'UserGate(num=1) 52{ctrl(2)}', f'UserGate(num=1) 53{ctrl(2)}', 'probe True'], 'ControlledGate.__or__', lc)
    expect(chk, 'controlled', 'registers of the caller', HEAD + '    a, b = [q[0], q[1]], [q[2]]\n    C(UserGate(1), 2) | (a, b)\n    probe(len(a), len(b))\n' + tail,
           [f'UserGate(num=1) 52{ctrl(2)}', 'probe 2 1', 'probe True'], 'ControlledGate.__or__', lc)
    for n, sh in ((1, (2,)), (1, (2, 1)), (1, (3, 1)), (2, (1, 2)), (2, (3,)), (2, (1, 2, 1)), (3, (2, 2)), (3, (1, 1, 2)), (2, (4, 1)), (2, (1,)), (3, (1, 1)), (3, (2,))):
        args = ', '.join(regs(sh)) + ','
        expect(chk, 'rejected', f'{n} controls, registers {sh}', HEAD + f'''    try:
        C(UserGate(7), {n}) | ({args})
    except ControlQubitError:
        probe('refused')
''' + tail, ["probe 'refused'", 'probe True'], 'ControlledGate.__or__', lc)
    N = {
        'C(C(g, 1), 2)': ('C(C(UserGate(7), 1), 2) | (q[0], q[1], q[2], q[3])', [f'UserGate(num=7) 53{ctrl(3)}']),
        'C(C(g, 2), 1)': ('C(C(UserGate(7), 2)) | ([q[0], q[1]], q[2], q[3])', [f'UserGate(num=7) 53{ctrl(3)}']),
        'C(C(C(g)))': ('C(C(C(UserGate(7)))) | (q[0], q[1], q[2], q[3])', [f'UserGate(num=7) 53{ctrl(3)}']),
        'inner gate unchanged by nesting': ('c = C(UserGate(7))\n    C(c, 2)\n    c | (q[0], q[1])', [f'UserGate(num=7) 51{ctrl(1)}']),
        'C(Tensor(g))': ('C(Tensor(UserGate(7)), 1) | (q[0], [q[1], q[2]])', [f'UserGate(num=7) 51{ctrl(1)}', f'UserGate(num=7) 52{ctrl(1)}']),
        'inside a control section': ('with Control(eng, [q[8]]):\n        C(UserGate(7), 1) | (q[0], q[1])', ['UserGate(num=7) 51 ctrl 50=1,58=1']),
        'inside a control section on zero': ("with Control(eng, [q[8]], ctrl_state='0'):\n        C(UserGate(7), 1) | (q[0], q[1])", ['UserGate(num=7) 51 ctrl 50=1,58=0']),
        'inside a dagger section': ('with Dagger(eng):\n        C(UserGate(7), 2) | (q[0], q[1], q[2])\n        UserGate(1) | q[3]',
                                    ['UserGate(num=-1) 53', f'UserGate(num=-7) 52{ctrl(2)}']),
        'inside a loop': ('with Loop(eng, 2):\n        C(UserGate(7), 1) | (q[0], q[1])', [f'UserGate(num=7) 51{ctrl(1)}'] * 2),
        'through another engine': ('e = eng.next_engine\n    p = [WeakQubitRef(e, i) for i in range(3)]\n    C(UserGate(7), 2) | (p[0], p[1], p[2])',
                                   ['UserGate(num=7) 2 ctrl 0=1,1=1']),
    }
    for k, (src, want) in N.items():
        h = HEAD.replace('main_engine(Recorder())', 'main_engine(Recorder(), [TagRemover()])') if 'another' in k else HEAD
        expect(chk, 'nested', k, h + '    ' + src + '\n' + tail, want + ['probe True'], 'ControlledGate', lc)
    for n in range(0, 5):
        for what, text in (('list', '[' + ', '.join(f'q[{i}]' for i in range(n)) + ']'),
                           ('tuple with one register', '([' + ', '.join(f'q[{i}]' for i in range(n)) + '],)'),
                           ('Qureg', 'Qureg([' + ', '.join(f'q[{i}]' for i in range(n)) + '])')):
            for g in ('Tensor', 'All'):
                expect(chk, 'tensor', f'{g} on {what} of {n}', HEAD + f'    {g}(UserGate(7)) | {text}\n' + tail,
                       [f'UserGate(num=7) {50 + i}' for i in range(n)] + ['probe True'], 'Tensor.__or__', lt)
    for what in ('([q[0]], [q[1]])', '(q[0], q[1])', 'q[0]', '()'):
        expect(chk, 'tensor', f'refused: {what}', HEAD + f'    try:\n        Tensor(UserGate(7)) | {what}\n    except ValueError:\n        probe("refused")\n' + tail,
               ["probe 'refused'", 'probe True'], 'Tensor.__or__', lt)
    expect(chk, 'tensor', 'of a controlled gate is refused or reaches every pair', HEAD + '    Tensor(Tensor(UserGate(7))) | [[q[0], q[1]], [q[2]]]\n' + tail,
           [f'UserGate(num=7) {50 + i}' for i in range(3)] + ['probe True'], 'Tensor.__or__', lt)
    for g, iv in (('UserGate(7)', 'UserGate(num=-7)'), ('NoInverse(3)', 'DaggeredGate'), ('Rx(1.0)', 'Rx*')):
        for n in (1, 2, 3):
            args = ', '.join(f'q[{i}]' for i in range(n + 1))
            for k, ex in (('get_inverse(gate)', f'get_inverse(C({g}, {n}))'), ('gate.get_inverse()', f'C({g}, {n}).get_inverse()')):
                expect(chk, 'inverse', f'{k} of C({g}, {n})', HEAD + f'    {ex} | ({args})\n' + tail, start(f'{iv}', f'{50 + n}{ctrl(n)}'), 'ControlledGate.get_inverse', lc)
        for k, ex in (('get_inverse(gate)', f'get_inverse(Tensor({g}))'), ('gate.get_inverse()', f'Tensor({g}).get_inverse()')):
            expect(chk, 'inverse', f'{k} of Tensor({g})', HEAD + f'    {ex} | [q[0], q[1]]\n' + tail, start(f'{iv}', '50', '51'), 'Tensor.get_inverse', lt)
    expect(chk, 'inverse', 'twice', HEAD + '''    g = get_inverse(get_inverse(C(NoInverse(3), 2)))
    g | (q[0], q[1], q[2])
    get_inverse(get_inverse(NoInverse(4))) | q[0]
    get_inverse(get_inverse(Tensor(UserGate(4)))) | [q[0], q[1]]
''' + tail, [f'NoInverse(num=3) 52{ctrl(2)}', 'NoInverse(num=4) 50', 'UserGate(num=4) 50', 'UserGate(num=4) 51', 'probe True'], 'get_inverse', lc)
    expect(chk, 'inverse', 'daggered gate keeps its gate', HEAD + '''    g = get_inverse(NoInverse(3))
    probe(isinstance(g, DaggeredGate), g == DaggeredGate(NoInverse(3)), g == DaggeredGate(NoInverse(4)), g == NoInverse(3), g.get_inverse() == NoInverse(3))
''' + tail, ['probe True True False False True', 'probe True'], 'DaggeredGate', lc)
    expect(chk, 'all', 'names', HEAD + '''    import projectq.ops as o
    probe(o.All is o.Tensor, isinstance(o.C(X, 2), ControlledGate), isinstance(o.All(X), Tensor), o.C(X, 2) == o.Toffoli, o.C(X) == o.CNOT)
''' + tail, ['probe True True True True True', 'probe True'], 'C', lc)
    chk.assume = [f'Up to {big} controls in every split into registers; target shapes {shapes}; tensor registers of up to 4 qubits.']
    return 'Client programs apply meta gates to registers of every shape; the commands at the last engine must be exactly the documented ones on every path.'


def start(gate, *targets):
    """Every command starts with the gate (prefix when it ends in *) and acts on the given targets."""
    pre = gate.rstrip('*')

    def f(got):
        if len(got) != len(targets) + 1 or got[-1] != 'probe True':
            return f'{got}'
        for g, t in zip(got, targets):
            if not g.startswith(pre) or not g.endswith(' ' + t):
                return f'"{g}" instead of the inverse on {t}'
        return None
    return f
