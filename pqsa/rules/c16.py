"""C16: the local optimizer only cancels or merges commands adjacent on all their qubits."""
import itertools
import random

from .. import trace as tr
from ..client import PRELUDE, Client, clean, trace
from ..values import Exc

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the optimizer on all short command sequences; its output is decided against its input by the normal form of the graph '
             'product of groups (commands on disjoint qubits commute, neighbours on all qubits multiply)')

HEAD = '''
def program(eng):
    q = {}
%s

def client():
    e0 = main_engine(Recorder(), [])
    program(e0)
    probe('split')
    e1 = main_engine(Recorder(), [LocalOptimizer(%s)])
    program(e1)
'''
OPS = {
    'a': 'CNOT | (q[0], q[1])', 'b': 'CNOT | (q[1], q[0])', 'c': 'CNOT | (q[1], q[2])', 'd': 'Rx(1) | q[0]', 'e': 'Rx(-1) | q[0]', 'f': 'H | q[0]', 'g': 'H | q[1]',
    'h': 'C(Rz(1)) | (q[0], q[1])', 'i': 'C(Rz(2)) | (q[0], q[1])', 'j': 'C(Rz(1)) | (q[1], q[0])', 'k': 'UserGate(3) | (q[0], q[1])', 'l': 'UserGate(-3) | (q[0], q[1])',
    'm': 'UserGate(3) | (q[1], q[0])', 'n': "with Control(eng, q[0], ctrl_state='0'):\n        X | q[1]", 'o': 'Swap | (q[0], q[1])', 'p': 'Swap | (q[1], q[2])',
    'r': 'Rx(0) | q[0]', 's': 'C(Rz(0)) | (q[0], q[1])', 't': 'Toffoli | (q[0], q[1], q[2])', 'u': 'Toffoli | (q[1], q[0], q[2])', 'v': 'Measure | q[0]', 'w': 'Measure | q[1]',
    'x': 'X | q[2]', 'y': 'Rx(2) | q[1]', 'z': 'S | q[0]', 'A': 'Sdag | q[0]', 'B': "with Compute(eng):\n        Rx(1) | q[0]\n    X | q[2]\n    Uncompute(eng)",
    'C': 'Barrier | [q[0], q[1]]', 'D': 'Rzz(1) | (q[0], q[1])', 'E': 'Rzz(-1) | (q[1], q[0])', 'F': 'eng.flush()',
    'N': "with Control(eng, q[0], ctrl_state='0'):\n        Rz(1) | q[1]", 'P': 'C(UserGate(3)) | (q[0], q[1])', 'Q': "with Control(eng, q[0], ctrl_state='0'):\n        UserGate(-3) | q[1]",
    'R': 'Rx(3.5) | q[1]', 'T': 'T | q[0]', 'U': 'Z | q[1]', 'V': 'C(Z) | (q[0], q[1])', 'W': 'C(Z) | (q[1], q[2])', 'X': 'a = eng.allocate_qubit()\n    CNOT | (q[0], a[0])\n    a[0].__del__()',
    'G': 'C(Rz(1), 2) | (q[0], q[1], q[2])', 'H': 'C(Rz(2), 2) | (q[1], q[0], q[2])', 'I': 'C(Rz(1), 2) | (q[2], q[1], q[0])', 'J': 'UserGate(3) | (q[0], q[1], q[2])',
    'K': 'UserGate(-3) | (q[0], q[1], q[2])', 'L': 'C(UserGate(3)) | (q[2], q[0], q[1])', 'M': 'C(UserGate(-3)) | (q[2], q[0], q[1])', 'O': 'H | q[2]', 'S': 'C(Rz(0), 2) | (q[0], q[1], q[2])',
    'Y': 'Ph(1) | q[0]', 'Z': 'C(Ph(1)) | (q[0], q[2])'}


def source(ops, cache, alloc=True):
    body = ['    q = eng.allocate_qureg(3)' if alloc else '    q = [WeakQubitRef(eng, 50 + i) for i in range(3)]'] + ['    ' + OPS[o] for o in ops]
    return HEAD % ('\n'.join(body) + '\n    eng.flush()\n', cache)


def judge(chk, rule, inst, src, loc, construct='LocalOptimizer'):
    if not chk.mine():
        return
    with chk.guard(rule, inst):
        C = Client(chk.prog, src, prelude=PRELUDE)
        try:
            outs = C.run('client')
            chk.saw(C.I, outs)
            for st, v in outs:
                t = trace(st)
                if t is None:
                    chk.unknown(rule, inst, 'unknown commands')
                    return
                k = next((i for i, x in enumerate(t) if x[0] == 'probe'), None)
                if k is None:
                    chk.unknown(rule, inst, f'no trace: {v}')
                    return
                a = [x[1] for x in t[:k] if x[0] == 'send']
                b = [x[1] for x in t[k:] if x[0] == 'send']
                msg = None
                if isinstance(v, Exc):
                    msg = f'raises {v.name} at {v.loc}'
                else:
                    # flush by flush
                    sa, sb = segments(a), segments(b)
                    if len(sa) != len(sb):
                        msg = f'{len(sb) - 1} flushes instead of {len(sa) - 1}'
                    else:
                        for n, (x, y) in enumerate(zip(sa, sb)):
                            m = tr.same(x, y)
                            if m:
                                msg = f'{m} (before flush {n + 1})' if n < len(sa) - 1 else f'{m} (after the last flush)'
                                break
                if msg:
                    if st.facts and not all(clean(f) for f in st.facts):
                        chk.unknown(rule, inst, f'depends on an unknown condition: {msg}')
                        return
                    chk.fail(rule, construct, loc, f'{inst}: {msg}; emitted: ' + '; '.join(C.short(p) for p in b)[:600])
                    return
            if not outs:
                chk.unknown(rule, inst, 'no path')
                return
            chk.ok(rule, inst)
        except tr.Unknown as e:
            chk.unknown(rule, inst, str(e))
        finally:
            C.close()


def segments(parts):
    out = [[]]
    for p in parts:
        g = p[0]
        if (g[0] if isinstance(g, tuple) else g) == 'FlushGate':
            out.append([])
        else:
            out[-1].append(p)
    return out


def check(chk):
    loc = chk.prog.cls('LocalOptimizer').loc()
    chk.rule('pairs', 'sequences of up to three commands are emitted up to cancelling and merging neighbours', 60)
    chk.rule('long', 'longer sequences are emitted up to cancelling and merging neighbours, whatever the cache size', 20)
    chk.rule('three', 'commands on three qubits cancel or merge only if they are neighbours on all of them', 10)
    chk.rule('flushes', 'between two flushes everything received is emitted, nothing afterwards', 6)
    two = 'abcdefghijklmnoprstuvwxyzABCDEGHIJKLMNOPQRSTUVWXYZ'
    seqs = [(x,) for x in two] + [x for x in itertools.product(two, repeat=2)]
    core = 'abdefhklnost'
    trip = list(itertools.product(core, repeat=3))
    rnd = random.Random(16)
    if not chk.thorough:
        seqs = seqs[:len(two)] + [s for s in seqs[len(two):] if s[0] == s[1] or rnd.random() < 0.12]
        trip = [s for s in trip if s[0] == s[2] and rnd.random() < 0.5 or rnd.random() < 0.05]
    for s in seqs:
        judge(chk, 'pairs', 'sequence ' + ''.join(s), source(s, 5), loc)
    for s in trip:
        judge(chk, 'pairs', 'sequence ' + ''.join(s), source(s, 5, False), loc)
    every = [x for x in OPS if x not in 'FB']
    for k in range(400 if chk.thorough else 60):
        n = rnd.randint(5, 16 if chk.thorough else 11)
        pool = rnd.sample(every, rnd.randint(2, 5))
        s = ''.join(rnd.choice(pool) for _ in range(n))
        cache = rnd.choice((1, 2, 3, 5, 10))
        judge(chk, 'long', f'sequence {s}, cache of {cache}', source(s, cache, k % 2 == 0), loc)
    # two commands on three qubits with something on one, two or none of them in between
    for s in itertools.product('GJLtuHK', ('f', 'g', 'O', 'fg', 'gO', 'fO', 'r', ''), 'GHKMtu'):
        if s[0] + s[2] in ('GG', 'GH', 'HG', 'JK', 'KJ', 'LM', 'tt', 'uu', 'tu', 'uG', 'HH'):
            for cache in ((5, 20) if chk.thorough else (20,)):
                judge(chk, 'three', f'sequence {"".join(s)}, cache of {cache}', source(''.join(s), cache, False), loc)
    # palindromes cancel completely, nested
    for s in ('aha', 'fdef', 'aklb', 'acca', 'abba', 'kmml', 'adbbea', 'tuut', 'dnnde', 'kPQl', 'hahaha', 'kkll', 'hhij', 'adaeda', 'acbca', 'ohoh', 'zAzA', 'VWVW', 'XaX', 'CaC', 'CC', 'vav',
              'kakl', 'klkl', 'akal', 'aaaa', 'aaa', 'ababab', 'cacaca', 'YZYZ'):
        for cache in (2, 3, 10):
            judge(chk, 'long', f'sequence {s}, cache of {cache}', source(s, cache), loc)
    for s in ('aFa', 'dFe', 'kFl', 'FaF', 'hFFi', 'dFdFd', 'aXFb', 'BFB', 'BB', 'fFfF', 'vFw', 'ogFao', 'rFr', 'sFaF', 'dBe'):
        for cache in (1, 3, 5):
            judge(chk, 'flushes', f'sequence {s}, cache of {cache}', source(s, cache), loc)
    chk.assume = ['Sequences on 3 qubits from an alphabet of 40 commands: all of length 1, a fixed selection (thorough: all) of length 2, a fixed selection of length 3 and of 5 to 16 commands.',
                  'Cancelling a command with its inverse and adding rotation angles is exact (C03).']
    return ('For every sequence the analysis derives the commands the optimizer emits; both sequences are reduced to the normal form of the graph product of groups and have to agree, flush by flush.')
