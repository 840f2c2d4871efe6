"""C41: arithmetic gates compute the documented integer function, decomposed or emulated."""
from .. import composite, decsem
from ..alg import Gates, Unreadable
from ..client import Client, clean, trace
from ..model import AnalysisError
from ..values import Exc, K

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the arithmetic decomposition rules and of the math functions of the gates for all register values of small registers; the emitted circuit '
             'is applied to a generic superposition of all values and compared with the documented integer function, ancilla qubits and phases included')
EMU = '''
def client():
    eng = main_engine()
    q = eng.allocate_qureg(%(n)d)
    gate = %(gate)s
    f = gate.get_math_function([[q[i] for i in r] for r in %(regs)s])
    probe('gate', gate)
    for x in %(vals)s:
        probe('value', [y for y in f(list(x))])
'''


def check(chk):
    chk.rule('circuit', 'the decomposition maps every combination of register values to the documented one, under any number of controls', 60)
    chk.rule('emulated', 'the math function used for emulation maps every combination of register values to the documented one', 60)
    cs = [c for c in composite.cases(chk.thorough) if c.kind == 'math']
    for case, rule, us in composite.sweep(chk, cs, skip=('BasicGate',)):  # generic rules: C04
        inst = f'{rule[2]} on {case.name()}'
        if isinstance(us, str):
            chk.unknown('circuit', inst, us)
            continue
        refused = [u for u in us if u.refused and u.refused != '?']
        bad = [u for u in us if any(x and not x.startswith('?') for x in (u.clean, u.exact, u.unsat))]
        odd = [u for u in us if u.exact or u.clean or u.unsat or u.refused]
        if bad or refused:
            u = (bad + refused)[0]
            chk.fail('circuit', f'{case.gate} on {"+".join(map(str, case.sizes))}' + (f' {case.tag}' if case.tag else ''), u.where,
                     f'{inst}' + (f' with controls {u.ctrl}' if u.ctrl else '') + ': ' + (u.refused and f'raises {u.refused}' or next(x for x in (u.clean, u.exact, u.unsat) if x and x[0] != '?')))
        elif odd:
            chk.unknown('circuit', inst, odd[0].exact or odd[0].clean or odd[0].unsat or 'not followed to the end')
        else:
            chk.ok('circuit', inst)
    for case in cs:
        if chk.mine() and not case.tag:
            emulation(chk, case)
    chk.assume = ['Registers of one to four qubits (moduli up to 15); values inside the documented domain, the modular adder with one spare bit (2N <= 2^n).',
                  'The decompositions are followed one level deep: gates they emit have their documented meaning, which is checked for their own rules.']
    return ('Each arithmetic rule is analysed for each constant and register size of the catalogue; the emitted commands are applied to a superposition with distinct amplitudes of '
            'all register values, so a wrong value, phase or left-over ancilla for any of them shows. The math functions are followed on the same values.')


def emulation(chk, case):
    inst = f'math function of {case.gate} on {"+".join(map(str, case.sizes))} qubits'
    regs, p = [], 0
    for s in case.sizes:
        regs.append(list(range(p, p + s)))
        p += s
    vals = [()]
    for s in case.sizes:
        vals = [v + (x,) for v in vals for x in range(1 << s)]
    most = 4000 if chk.thorough else 500
    if len(vals) > most:
        vals = vals[::len(vals) // most | 1]
    C = Client(chk.prog, EMU % {'n': p, 'gate': case.gate, 'regs': regs, 'vals': vals}, prelude=decsem.HEAD, stubs=decsem.STUBS, unroll=20000)
    try:
        outs = C.run('client')
        chk.saw(C.I, outs)
        for st, v in outs:
            tr = trace(st)
            if tr is None or not all(clean(f) for f in st.facts) or isinstance(v, Exc) and v.name not in ('TypeError', 'ValueError'):
                chk.unknown('emulated', inst, 'not readable')
                return
            pr = [x for x in tr if x[0] == 'probe']
            G = Gates(C, st)
            f = composite.math_function(G, pr[0][2][1], case.sizes)
            got = [composite.plain(G, x[2][1]) for x in pr[1:]]
            where = pr[1][3].loc if len(pr) > 1 else ''
            for x, y in zip(vals, got):
                want = f(*x)
                if want is None or case.domain is not None and not case.domain(*x):
                    continue
                if not isinstance(y, tuple) or not all(isinstance(z, int) for z in y):
                    chk.unknown('emulated', inst, f'result {y}')
                    return
                y = tuple(z % (1 << s) for z, s in zip(y, case.sizes))
                if y != tuple(int(z) for z in want):
                    chk.fail('emulated', f'{G.name(pr[0][2][1])}', loc(chk, G, pr[0][2][1]), f'{inst}: {x} becomes {y}, not {tuple(int(z) for z in want)}')
                    return
            if isinstance(v, Exc):
                chk.unknown('emulated', inst, f'raises {v.name}')
                return
        chk.ok('emulated', inst)
    except (AnalysisError, Unreadable) as e:
        chk.unknown('emulated', inst, f'{type(e).__name__}: {e}')
    finally:
        C.close()


def loc(chk, G, g):
    ci = G.I.class_of(g)
    return ci.loc() if hasattr(ci, 'loc') else ci.name
