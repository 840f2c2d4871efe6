"""C07: the AutoReplacer replaces only what is unsupported and never corrupts its rules."""
from ..client import expect

PARALLEL = True
TECHNIQUE = 'most-general-client analysis: abstract interpretation of the replacer with client-defined rule sets and gate hierarchies (support, recognizers, inverses, parents, tags, repeated use)'

HEAD = '''
from projectq.cengines import AutoReplacer, DecompositionRule, DecompositionRuleSet, InstructionFilter, LocalOptimizer, TagRemover
from projectq.cengines._replacer._replacer import NoGateDecompositionError
from projectq.cengines._replacer._decomposition_rule import ThisIsNotAGateClassError
from projectq.ops import NotInvertible, get_inverse
from projectq.ops._command import Command
from projectq.meta import ComputeTag


class Base(BasicGate):
    def __str__(self):
        return 'Base'

    def __init__(self, num=0):
        super().__init__()
        self.num = num

    def __eq__(self, other):
        return self.__class__ is other.__class__ and self.num == other.num

    def __hash__(self):
        return hash(str(self))

    def get_inverse(self):
        return self.__class__(-self.num)


class Derived(Base):
    pass


class Forward(BasicGate):
    def __str__(self):
        return 'Forward'

    def get_inverse(self):
        return Backward()


class Backward(BasicGate):
    def __str__(self):
        return 'Backward'

    def get_inverse(self):
        return Forward()


class OneWay(BasicGate):
    def __str__(self):
        return 'OneWay'

    def get_inverse(self):
        raise NotInvertible('no')


class Mark:
    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Mark) and self.name == other.name


def only_user(eng, cmd):
    return isinstance(cmd.gate, (UserGate, FlushGate)) or cmd.gate == Allocate or cmd.gate == Deallocate


def two(cmd):
    UserGate(1) | cmd.qubits[0]
    UserGate(2) | cmd.qubits[0]


def other(cmd):
    UserGate(8) | cmd.qubits[0]


def third(cmd):
    UserGate(9) | cmd.qubits[0]


def no(cmd):
    return False


def yes(cmd):
    return True


def make(rules, chooser=None, last=only_user):
    rs = DecompositionRuleSet(rules=rules)
    r = AutoReplacer(rs) if chooser is None else AutoReplacer(rs, chooser)
    eng = main_engine(Recorder(), [r, InstructionFilter(last)])
    return eng, rs


def client():
'''
Q = '    q = [WeakQubitRef(eng, 50 + i) for i in range(10)]\n'
U = 'UserGate(num=%d) 50'


def check(chk):
    P = chk.prog
    loc = P.cls('AutoReplacer').loc()
    lrs = P.cls('DecompositionRuleSet').loc()
    chk.rule('supported', 'supported commands and flushes are forwarded unchanged, although rules for them exist', 4)
    chk.rule('forward', 'an unsupported command is replaced by a rule for its class whose recognizer accepts it, in every other case by a rule for a parent class', 6)
    chk.rule('inverse', 'without an accepted rule for the class, the rule for the class of the inverse is run inverted', 6)
    chk.rule('error', 'without an accepted rule a NoGateDecompositionError is raised and nothing is sent', 4)
    chk.rule('tags', 'replacement commands carry the tags of the replaced command in front of their own', 4)
    chk.rule('recursive', 'replacement commands are replaced themselves until everything is supported', 4)
    chk.rule('history', 'replacing the same commands again, in any order, gives the same result: rules are never modified', 6)
    chk.rule('chooser', 'the chooser receives the command and all accepted rules', 3)
    chk.rule('negative', 'negatively controlled commands are first rid of their negative controls', 4)
    chk.rule('registration', 'rules are kept per gate class in the order of registration; rules for gate instances are refused', 4)

    def run(rule, inst, setup, body, want, what=('send', 'probe')):
        expect(chk, rule, inst, HEAD + f'    eng, rs = make({setup})\n' + Q + body, want, 'AutoReplacer', loc if rule != 'registration' else lrs, what=what)

    base = '[DecompositionRule(Base, two)]'
    run('supported', 'user gate with a rule', '[DecompositionRule(UserGate, other), DecompositionRule(Base, two)]',
        '    UserGate(5) | q[0]\n    eng.flush()\n', ['UserGate(num=5) 50', 'FlushGate -1'])
    run('supported', 'controlled, tagged command', '[DecompositionRule(UserGate, other)]',
        "    eng.receive([Command(eng, UserGate(5), ([q[0]], [q[1]]), controls=[q[2], q[3]], tags=[Mark('t')], control_state='01')])\n",
        ["UserGate(num=5) 50|51 ctrl 52=0,53=1 tags Mark(name='t')"])
    run('supported', 'several commands in one list', '[DecompositionRule(UserGate, other)]',
        '    eng.receive([UserGate(1).generate_command(q[0]), UserGate(2).generate_command(q[1]), FlushGate().generate_command(q[2]), UserGate(3).generate_command(q[0])])\n',
        ['UserGate(num=1) 50', 'UserGate(num=2) 51', 'FlushGate 52', 'UserGate(num=3) 50'])
    run('supported', 'allocation and deallocation', base, '    a = eng.allocate_qubit()\n    a[0].__del__()\n', ['Allocate 0', 'Deallocate 0'])
    run('forward', 'rule of the class', base, '    Base(3) | q[0]\n    UserGate(4) | q[0]\n', [U % 1, U % 2, U % 4])
    run('forward', 'first of two rules', '[DecompositionRule(Base, two), DecompositionRule(Base, other)]', '    Base(3) | q[0]\n', [U % 1, U % 2])
    run('forward', 'recognizer refuses the first', '[DecompositionRule(Base, two, no), DecompositionRule(Base, other, yes)]', '    Base(3) | q[0]\n', [U % 8])
    run('forward', 'recognizer by parameter', '[DecompositionRule(Base, two, lambda c: c.gate.num == 1), DecompositionRule(Base, other, lambda c: c.gate.num == 2)]',
        '    Base(2) | q[0]\n    Base(1) | q[0]\n', [U % 8, U % 1, U % 2])
    run('forward', 'rule of the parent class', base, '    Derived(3) | q[0]\n', [U % 1, U % 2])
    run('forward', 'own rule before the rule of the parent', '[DecompositionRule(Base, two), DecompositionRule(Derived, other)]', '    Derived(3) | q[0]\n    Base(3) | q[0]\n', [U % 8, U % 1, U % 2])
    run('forward', 'own rule refused, rule of the parent taken', '[DecompositionRule(Base, two), DecompositionRule(Derived, other, no)]', '    Derived(3) | q[0]\n', [U % 1, U % 2])
    run('forward', 'rule for every gate', '[DecompositionRule(BasicGate, third), DecompositionRule(Base, two, no)]', '    Base(3) | q[0]\n    Forward() | q[1]\n', [U % 9, 'UserGate(num=9) 51'])
    run('forward', 'controls of the command stay with its rule', '[DecompositionRule(Base, lambda c: (C(UserGate(1)) | (c.control_qubits, c.qubits[0])), lambda c: len(c.control_qubits) == 1), DecompositionRule(Base, two)]',
        '    C(Base(1)) | (q[1], q[0])\n    Base(1) | q[0]\n', ['UserGate(num=1) 50 ctrl 51=1', U % 1, U % 2])
    run('inverse', 'class of the inverse', '[DecompositionRule(Forward, two)]', '    Backward() | q[0]\n    Forward() | q[0]\n', [U % -2, U % -1, U % 1, U % 2])
    run('inverse', 'own rule before the inverse rule', '[DecompositionRule(Forward, two), DecompositionRule(Backward, other)]', '    Backward() | q[0]\n    Forward() | q[0]\n', [U % 8, U % 1, U % 2])
    run('inverse', 'own rule refused', '[DecompositionRule(Forward, two), DecompositionRule(Backward, other, no)]', '    Backward() | q[0]\n', [U % -2, U % -1])
    run('inverse', 'recognizer of the inverse rule sees the inverse command', '[DecompositionRule(Forward, two, lambda c: isinstance(c.gate, Forward))]', '    Backward() | q[0]\n', [U % -2, U % -1])
    run('inverse', 'same class, recognizer accepts the inverse only', '[DecompositionRule(Base, two, lambda c: c.gate.num > 0)]', '    Base(3) | q[0]\n    Base(-3) | q[0]\n', [U % 1, U % 2, U % -2, U % -1])
    run('inverse', 'gate without inverse', '[DecompositionRule(OneWay, two)]', '    OneWay() | q[0]\n    get_inverse(OneWay()) | q[0]\n', [U % 1, U % 2, U % -2, U % -1])
    run('inverse', 'inverse rule on several registers', '[DecompositionRule(Forward, lambda c: (UserGate(1) | c.qubits, UserGate(2) | (c.qubits[1], c.qubits[0])))]', '    Backward() | (q[0], q[1])\n',
        ['UserGate(num=-2) 51|50', 'UserGate(num=-1) 50|51'])
    run('inverse', 'inverse rule allocating a qubit', '''[DecompositionRule(Forward, with_local)]'''.replace('with_local', 'local'), '    Backward() | q[0]\n    Forward() | q[0]\n',
        ['Allocate 0', 'UserGate(num=-3) 0', 'UserGate(num=-1) 50', 'Deallocate 0', 'Allocate 1', 'UserGate(num=1) 50', 'UserGate(num=3) 1', 'Deallocate 1'])
    for k, rules, g in (('no rules', '[]', 'Base(1)'), ('rules of other classes', '[DecompositionRule(Forward, two), DecompositionRule(Derived, two)]', 'Base(1)'),
                        ('every rule refuses', '[DecompositionRule(Base, two, no), DecompositionRule(BasicGate, two, no)]', 'Base(1)'),
                        ('rule of the child class', '[DecompositionRule(Derived, two)]', 'Base(2)'),
                        ('no inverse', '[DecompositionRule(Base, two)]', 'OneWay()'), ('not registered with the inverse', '[DecompositionRule(Base, two)]', 'Forward()')):
        run('error', k, rules, f'    UserGate(7) | q[0]\n    try:\n        {g} | q[0]\n    except NoGateDecompositionError:\n        probe("error")\n    UserGate(6) | q[0]\n',
            [U % 7, "probe 'error'", U % 6])
    run('error', 'command to be replaced stays intact', '[]', '''    cmd = Base(1).generate_command(q[0])
    cmd.tags = [Mark('a')]
    try:
        eng.receive([cmd])
    except NoGateDecompositionError:
        probe(len(cmd.tags), cmd.gate == Base(1), cmd.qubits[0][0].id)
''', ['probe 1 True 50'])
    run('tags', 'one tag', base, "    eng.receive([Command(eng, Base(1), ([q[0]],), tags=[Mark('a')])])\n    UserGate(5) | q[0]\n",
        ["UserGate(num=1) 50 tags Mark(name='a')", "UserGate(num=2) 50 tags Mark(name='a')", U % 5])
    run('tags', 'several tags in order', base, "    eng.receive([Command(eng, Base(1), ([q[0]],), tags=[Mark('a'), Mark('b'), ComputeTag()])])\n",
        ["UserGate(num=%d) 50 tags Mark(name='a'),Mark(name='b'),ComputeTag" % i for i in (1, 2)])
    run('tags', 'inverse rule', '[DecompositionRule(Forward, two)]', "    eng.receive([Command(eng, Backward(), ([q[0]],), tags=[Mark('a')])])\n",
        ["UserGate(num=%d) 50 tags Mark(name='a')" % i for i in (-2, -1)])
    run('tags', 'tags set by the rule come after', '[DecompositionRule(Base, tagging)]', "    eng.receive([Command(eng, Base(1), ([q[0]],), tags=[Mark('a')])])\n    Base(2) | q[0]\n",
        ["UserGate(num=1) 50 tags Mark(name='a'),Mark(name='own')", "UserGate(num=1) 50 tags Mark(name='own')"])
    run('tags', 'through two replacements', '[DecompositionRule(Derived, lambda c: (Forward() | c.qubits[0])), DecompositionRule(Forward, two)]',
        "    eng.receive([Command(eng, Derived(1), ([q[0]],), tags=[Mark('a')])])\n", ["UserGate(num=%d) 50 tags Mark(name='a')" % i for i in (1, 2)])
    run('tags', 'tags of different commands do not mix', base, "    eng.receive([Command(eng, Base(1), ([q[0]],), tags=[Mark('a')]), Command(eng, Base(1), ([q[0]],), tags=[Mark('b')]), Command(eng, Base(1), ([q[0]],))])\n",
        ["UserGate(num=%d) 50%s" % (i, t) for t in (" tags Mark(name='a')", " tags Mark(name='b')", '') for i in (1, 2)])
    chain = '[DecompositionRule(Base, lambda c: (Forward() | c.qubits[0], UserGate(4) | c.qubits[0])), DecompositionRule(Forward, two)]'
    run('recursive', 'two levels', chain, '    Base(1) | q[0]\n', [U % 1, U % 2, U % 4])
    run('recursive', 'two levels, second inverted', '[DecompositionRule(Base, lambda c: (Backward() | c.qubits[0], UserGate(4) | c.qubits[0])), DecompositionRule(Forward, two)]',
        '    Base(1) | q[0]\n', [U % -2, U % -1, U % 4])
    run('recursive', 'rule with a control section', '[DecompositionRule(Base, controlled)]', '    Base(1) | (q[0], q[1])\n', ['UserGate(num=3) 51 ctrl 50=1', 'UserGate(num=4) 50'])
    run('recursive', 'rule with compute and uncompute', '[DecompositionRule(Base, computing)]', '    Base(1) | (q[0], q[1])\n',
        ['UserGate(num=3) 50 tags ComputeTag', 'UserGate(num=4) 51', 'UserGate(num=-3) 50 tags UncomputeTag'])
    run('recursive', 'rule with a local qubit', '[DecompositionRule(Base, local)]', '    Base(1) | q[0]\n    a = eng.allocate_qubit()\n    probe(a[0].id)\n',
        ['Allocate 0', 'UserGate(num=1) 50', 'UserGate(num=3) 0', 'Deallocate 0', 'Allocate 1', 'probe 1'])
    run('recursive', 'inside sections of the program', base, '    with Control(eng, [q[9]]):\n        UserGate(5) | q[0]\n    with Dagger(eng):\n        UserGate(5) | q[0]\n        Base(1) | q[0]\n',
        [U.replace('50', '50 ctrl 59=1') % 5, U % 1, U % 2, U % -5])
    seqs = {'forward, inverse, forward': ['Forward()', 'Backward()', 'Forward()'], 'inverse, inverse, forward': ['Backward()', 'Backward()', 'Forward()'],
            'inverse four times': ['Backward()'] * 4, 'many': ['Forward()', 'Backward()', 'Base(1)', 'Backward()', 'Forward()', 'Base(1)', 'Backward()', 'Base(-1)', 'Forward()']}
    rs = '[DecompositionRule(Forward, two), DecompositionRule(Base, other, lambda c: c.gate.num > 0), DecompositionRule(BasicGate, third, no)]'
    exp = {'Forward()': [U % 1, U % 2], 'Backward()': [U % -2, U % -1], 'Base(1)': [U % 8], 'Base(-1)': [U % -8]}
    snap = "    probe(sorted(rs.decompositions), [len(rs.decompositions[k]) for k in sorted(rs.decompositions)])\n"
    for k, gs in seqs.items():
        run('history', k, rs, ''.join(f'    {g} | q[0]\n' for g in gs) + snap, [x for g in gs for x in exp[g]] + ["probe ['Base', 'BasicGate', 'Forward'] [1, 1, 1]"])
    expect(chk, 'history', 'two compilers sharing one rule set', HEAD + '''
    rs = DecompositionRuleSet(rules=[DecompositionRule(Forward, two), DecompositionRule(Base, other)])
    for i in range(3):
        eng = main_engine(Recorder(), [AutoReplacer(rs), InstructionFilter(only_user)])
        q = WeakQubitRef(eng, 50)
        Backward() | q
        Forward() | q
        probe(len(rs.decompositions['Forward']), len(rs.decompositions['Base']))
''', [U % -2, U % -1, U % 1, U % 2, 'probe 1 1'] * 3, 'AutoReplacer', loc)
    run('history', 'after a missing rule', rs, '    try:\n        OneWay() | q[0]\n    except NoGateDecompositionError:\n        probe("error")\n    Backward() | q[0]\n' + snap,
        ["probe 'error'"] + exp['Backward()'] + ["probe ['Base', 'BasicGate', 'Forward'] [1, 1, 1]"])
    run('chooser', 'second rule chosen', '[DecompositionRule(Base, two), DecompositionRule(Base, other), DecompositionRule(Base, third, no)], lambda cmd, l: l[-1]', '    Base(1) | q[0]\n', [U % 8])
    run('chooser', 'sees command and rules', '''[DecompositionRule(Base, two), DecompositionRule(Base, other), DecompositionRule(Base, third, no)], choose''', '    Base(1) | q[0]\n    Base(2) | q[0]\n',
        ['probe 2 1', U % 1, U % 2, 'probe 2 2', U % 8])
    run('chooser', 'not asked for supported commands', '[DecompositionRule(UserGate, two)], choose', '    UserGate(1) | q[0]\n', [U % 1])
    neg = '[DecompositionRule(BasicGate, _decompose_controlstate, has_neg), DecompositionRule(Base, two, yes)], None, positive'
    for rules, nm in ((neg, 'rule registered first'), ('[DecompositionRule(Base, two, yes), DecompositionRule(BasicGate, third, no), DecompositionRule(BasicGate, _decompose_controlstate, has_neg)], None, positive', 'rule registered last')):
        run('negative', nm, rules, "    with Control(eng, [q[1]], ctrl_state='0'):\n        Base(1) | q[0]\n    with Control(eng, [q[1], q[2]], ctrl_state='10'):\n        Base(1) | q[0]\n    Base(1) | q[0]\n",
            ['XGate 51', 'Base(num=1) 50 ctrl 51=1', 'XGate 51', 'XGate 52', 'Base(num=1) 50 ctrl 51=1,52=1', 'XGate 52'] + [U % 1, U % 2])
        run('negative', nm + ', supported gate', rules, "    with Control(eng, [q[1]], ctrl_state='0'):\n        UserGate(1) | q[0]\n", ['XGate 51', 'UserGate(num=1) 50 ctrl 51=1', 'XGate 51'])
    R = {
        'classes': ("rs = DecompositionRuleSet(rules=[DecompositionRule(Base, two), DecompositionRule(Derived, other)])\n    rs.add_decomposition_rule(DecompositionRule(Base, third))\n"
                    "    probe(sorted(rs.decompositions), [d.decompose is two or d.decompose is third for d in rs.decompositions['Base']], [d.decompose is third for d in rs.decompositions['Base']])",
                    ["probe ['Base', 'Derived'] [True, True] [False, True]"]),
        'recognizer kept': ("rs = DecompositionRuleSet(rules=[DecompositionRule(Base, two, no), DecompositionRule(Base, other)])\n    a, b = rs.decompositions['Base']\n"
                            "    probe(a.check is no, a.decompose is two, b.decompose is other, b.check(None))", ['probe True True True True']),
        'gate instance refused': ('''for g in ('Base(1)', 'X', 'H'):
        try:
            DecompositionRule(X if g == 'X' else H if g == 'H' else Base(1), two)
        except ThisIsNotAGateClassError:
            probe('refused')''', ["probe 'refused'"] * 3),
        'modules': ('''class M:
        pass
    m, n = M(), M()
    m.all_defined_decomposition_rules = [DecompositionRule(Base, two), DecompositionRule(Forward, two)]
    n.all_defined_decomposition_rules = [DecompositionRule(Base, other)]
    rs = DecompositionRuleSet(modules=[m, n])
    probe([d.decompose is two for d in rs.decompositions['Base']], len(rs.decompositions['Forward']))
    rs = DecompositionRuleSet(rules=[DecompositionRule(Base, third)], modules=[n])
    probe([d.decompose is third for d in rs.decompositions['Base']])''', ['probe [True, False] 1', 'probe [True, False]']),
        'rule sets are independent': ('''a = DecompositionRuleSet(rules=[DecompositionRule(Base, two)])
    b = DecompositionRuleSet()
    c = DecompositionRuleSet(rules=[DecompositionRule(Base, other)])
    probe(len(a.decompositions['Base']), len(b.decompositions), len(c.decompositions['Base']))''', ['probe 1 0 1']),
    }
    for k, (src, want) in R.items():
        expect(chk, 'registration', k, HEAD + '    ' + src + '\n', want, f'DecompositionRuleSet ({k})', lrs)
    chk.assume = ['Rule sets of up to 3 rules with arbitrary rule bodies (sections, local qubits); histories of up to 9 replaced commands.']
    return 'Client programs register rules for user-defined gate classes and send commands through the replacer; what reaches the last engine must be what the documented procedure gives.'


EXTRA = '''

def local(cmd):
    a = cmd.engine.allocate_qubit()
    UserGate(1) | cmd.qubits[0]
    UserGate(3) | a
    a[0].__del__()


def tagging(cmd):
    c = UserGate(1).generate_command(cmd.qubits[0])
    c.tags = [Mark('own')]
    cmd.engine.receive([c])


def controlled(cmd):
    with Control(cmd.engine, cmd.qubits[0]):
        UserGate(3) | cmd.qubits[1]
    UserGate(4) | cmd.qubits[0]


def computing(cmd):
    with Compute(cmd.engine):
        UserGate(3) | cmd.qubits[0]
    UserGate(4) | cmd.qubits[1]
    Uncompute(cmd.engine)


def choose(cmd, decomps):
    probe(len(decomps), cmd.gate.num)
    return decomps[cmd.gate.num - 1]


def has_neg(cmd):
    return '0' in cmd.control_state


def _decompose_controlstate(cmd):
    eng = cmd.engine
    zero = [q for q, s in zip(cmd.control_qubits, cmd.control_state) if s == '0']
    for q in zero:
        X | q
    eng.receive([Command(eng, cmd.gate, cmd.qubits, controls=cmd.control_qubits)])
    for q in zero:
        X | q


def positive(eng, cmd):
    return '0' not in cmd.control_state and (isinstance(cmd.gate, (UserGate, FlushGate, X.__class__)) or cmd.gate == Allocate
                                             or len(cmd.control_qubits) > 0)


def client():
'''
HEAD = HEAD.replace('\n\ndef client():\n', EXTRA)
