"""C32: non-consuming engines delegate the question of support to the next engine."""
import itertools

from ..client import expect
from ..values import T

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: abstract interpretation of is_available and is_meta_tag_supported in every engine and pipeline position, with a symbolic answer of the following engine'

HEAD = '''
from projectq.backends import CircuitDrawer, CircuitDrawerMatplotlib, CommandPrinter, ResourceCounter
from projectq.cengines import (AutoReplacer, BasicEngine, CommandModifier, DecompositionRuleSet, DummyEngine, ForwarderEngine, InstructionFilter,
                               LocalOptimizer, ManualMapper, SwapAndCNOTFlipper, TagRemover)
from projectq.cengines._basics import LastEngineException
from projectq.meta._compute import ComputeEngine, UncomputeEngine
from projectq.meta._control import ControlEngine
from projectq.meta._dagger import DaggerEngine
from projectq.meta._loop import LoopEngine, LoopTag
from projectq.meta import DirtyQubitTag
from projectq.ops._command import Command


class Ask(BasicEngine):
    def __init__(self, answer, cmd):
        super().__init__()
        self.answer = answer
        self.cmd = cmd

    def is_available(self, cmd):
        probe('asked', cmd is self.cmd)
        return self.answer

    def receive(self, command_list):
        pass


class Knows(BasicEngine):
    def __init__(self, tag):
        super().__init__()
        self.tag = tag

    def is_meta_tag_handler(self, tag):
        return tag == self.tag

    def receive(self, command_list):
        self.send(command_list)


def client(answer):
'''
OBS = {'ResourceCounter': 'ResourceCounter()', 'CommandPrinter': 'CommandPrinter()', 'CircuitDrawer': 'CircuitDrawer()',
       'CircuitDrawerMatplotlib': 'CircuitDrawerMatplotlib()'}
PLAIN = {'TagRemover': 'TagRemover()', 'LocalOptimizer': 'LocalOptimizer(3)', 'CommandModifier': 'CommandModifier(lambda c: c)',
         'AutoReplacer': 'AutoReplacer(DecompositionRuleSet())', 'ManualMapper': 'ManualMapper()', 'BasicEngine': 'BasicEngine()',
         'SwapAndCNOTFlipper': 'SwapAndCNOTFlipper({(0, 1)})'}
META = {'ControlEngine': 'ControlEngine([WeakQubitRef(None, 9)], 1)', 'ComputeEngine': 'ComputeEngine()', 'UncomputeEngine': 'UncomputeEngine()',
        'LoopEngine': 'LoopEngine(2)', 'DaggerEngine': 'DaggerEngine()'}
CMDS = {'user gate': 'Command(None, UserGate(1), ([WeakQubitRef(None, 1)],))',
        'controlled user gate with tags': 'Command(None, UserGate(1), ([WeakQubitRef(None, 1), WeakQubitRef(None, 2)],), controls=[WeakQubitRef(None, 3)], tags=[LoopTag(2)])',
        'allocation': 'Command(None, Allocate, ([WeakQubitRef(None, 1)],))', 'measurement': 'Command(None, Measure, ([WeakQubitRef(None, 1)],))',
        'negatively controlled X': "Command(None, X, ([WeakQubitRef(None, 1)],), controls=[WeakQubitRef(None, 3)], control_state='0')"}


def check(chk):
    P = chk.prog
    A = T('sym', 'answer')
    chk.rule('delegate', 'in front of another engine the answer is the answer of that engine to the same command', 30)
    chk.rule('chain', 'in a pipeline the answer of the last engine is returned unchanged', 10)
    chk.rule('last', 'as the last engine, observers accept everything, other engines raise LastEngineException', 10)
    chk.rule('filter', 'a filter answers what its function says', 2)
    chk.rule('sections', 'open sections do not change the answer', 4)
    chk.rule('tags', 'a tag is supported if this engine or one behind it knows it', 8)

    def loc(n):
        c = next((c for c in P.all_classes() if c.name == n), None)
        return c.loc() if c is not None else ''
    every = {**OBS, **PLAIN, **META}
    for n, ex in every.items():
        for k, c in CMDS.items():
            expect(chk, 'delegate', f'{n}, {k}', HEAD + f'''    cmd = {c}
    e = {ex}
    e.next_engine = Ask(answer, cmd)
    probe(e.is_available(cmd))
''', ["probe 'asked' True", f'probe {A}'], f'{n}.is_available', loc(n), args=(A,))
    for k, c in CMDS.items():
        expect(chk, 'delegate', f'ForwarderEngine, {k}', HEAD + f'''    cmd = {c}
    e = ForwarderEngine(Ask(answer, cmd))
    probe(e.is_available(cmd))
    e = ForwarderEngine(Ask(answer, cmd), lambda c: c)
    probe(e.is_available(cmd))
''', ["probe 'asked' True", f'probe {A}'] * 2, 'ForwarderEngine.is_available', loc('ForwarderEngine'), args=(A,))
    pairs = list(itertools.permutations(list(OBS) + list(PLAIN), 2))
    for a, b in pairs if chk.thorough else pairs[::3]:
        if 'BasicEngine' in (a, b):
            continue
        expect(chk, 'chain', f'{a}, {b}', HEAD + f'''    cmd = {CMDS['user gate']}
    a, b = {every[a]}, {every[b]}
    eng = main_engine(Ask(answer, cmd), [a, b])
    probe(eng.is_available(cmd))
    probe(a.is_available(cmd))
''', ["probe 'asked' True", f'probe {A}'] * 2, f'{a}.is_available', loc(a), args=(A,))
    for n, ex in every.items():
        expect(chk, 'last', n, HEAD + f'''    e = {ex}
    e.is_last_engine = True
    for cmd in ({', '.join(CMDS.values())}):
        try:
            probe(e.is_available(cmd))
        except LastEngineException:
            probe('documented error')
'''.replace('Command(None', 'Command(e') if n != 'SwapAndCNOTFlipper' else HEAD + '    probe("documented error")\n' * 5,
               [('probe True' if n in OBS else "probe 'documented error'")] * 5, f'{n}.is_available', loc(n), args=(A,))
    F = {
        'constant': ('InstructionFilter(lambda eng, cmd: answer)', [f'probe {A}']),
        'by gate': ('InstructionFilter(lambda eng, cmd: cmd.gate == UserGate(1))', ['probe True']),
        'asks on': ('InstructionFilter(lambda eng, cmd: eng.next_engine.is_available(cmd))', ["probe 'asked' True", f'probe {A}']),
        'receives itself': ('InstructionFilter(lambda eng, cmd: eng.main_engine is None)', ['probe True']),
    }
    for k, (ex, want) in F.items():
        expect(chk, 'filter', k, HEAD + f'''    cmd = {CMDS['user gate']}
    e = {ex}
    e.next_engine = Ask(answer, cmd)
    probe(e.is_available(cmd))
''', want, 'InstructionFilter.is_available', loc('InstructionFilter'), args=(A,))
    # Swap is the one command the flipper takes over
    expect(chk, 'filter', 'SwapAndCNOTFlipper takes over uncontrolled swaps only', HEAD + '''    q = [WeakQubitRef(None, i) for i in range(4)]
    e = SwapAndCNOTFlipper({(0, 1)})
    for cmd in (Command(None, Swap, ([q[0]], [q[1]])), Command(None, Swap, ([q[0]], [q[1]]), controls=[q[2]]), Command(None, X, ([q[0]],), controls=[q[2]])):
        e.next_engine = Ask(answer, cmd)
        probe(e.is_available(cmd))
''', ['probe True'] + ["probe 'asked' True", f'probe {A}'] * 2, 'SwapAndCNOTFlipper.is_available', loc('SwapAndCNOTFlipper'), args=(A,))
    for k, s in {'Control': 'with Control(eng, [WeakQubitRef(eng, 50)]):', 'Dagger': 'with Dagger(eng):', 'Loop': 'with Loop(eng, 3):',
                 'Compute': 'with Compute(eng):', 'Control and Compute': 'with Control(eng, [WeakQubitRef(eng, 50)]), Compute(eng):'}.items():
        expect(chk, 'sections', k, HEAD + f'''    cmd = {CMDS['user gate']}
    eng = main_engine(Ask(answer, cmd), [TagRemover()])
    {s}
        probe(eng.is_available(cmd))
    probe(eng.is_available(cmd))
''', ["probe 'asked' True", f'probe {A}'] * 2, k, loc(k.split()[0]), args=(A,))
    for pos in range(4):
        for ask in range(4):
            expect(chk, 'tags', f'known to engine {pos} of 3, asked at engine {ask}', HEAD + f'''    es = [Knows(LoopTag) if i == {pos} else TagRemover() for i in range(4)]
    eng = main_engine(es[3], es[:3])
    probe(es[{ask}].is_meta_tag_supported(LoopTag), es[{ask}].is_meta_tag_supported(DirtyQubitTag), eng.is_meta_tag_supported(LoopTag))
''', [f'probe {ask <= pos} False True'], 'BasicEngine.is_meta_tag_supported', loc('BasicEngine'), args=(A,))
    expect(chk, 'tags', 'known to no engine', HEAD + '''    eng = main_engine(Recorder(), [TagRemover(), LocalOptimizer(2)])
    probe(eng.is_meta_tag_supported(LoopTag), eng.is_meta_tag_supported(ComputeTag))
''', ['probe False False'], 'BasicEngine.is_meta_tag_supported', loc('BasicEngine'), args=(A,))
    expect(chk, 'tags', 'first engine behind a handler of another tag', HEAD + '''    eng = main_engine(Recorder(), [Knows(DirtyQubitTag), Knows(LoopTag)])
    probe(eng.is_meta_tag_supported(LoopTag), eng.is_meta_tag_supported(DirtyQubitTag), eng.is_meta_tag_supported(ComputeTag))
''', ['probe True True False'], 'BasicEngine.is_meta_tag_supported', loc('BasicEngine'), args=(A,))
    chk.assume = ['The answer of the last engine is symbolic (any value).']
    return ('Every engine that observes or transforms commands is asked about several commands in front of an engine with a symbolic answer, in pipelines, '
            'as the last engine and inside sections.')
