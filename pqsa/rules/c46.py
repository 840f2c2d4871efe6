"""C46: every setup compiles programs to equivalent circuits."""
from .. import setups
from . import c25

PARALLEL = True
TECHNIQUE = ('abstract interpretation of every shipped setup on single commands and small programs; the linear operation of the commands which arrive at the backend is compared with that '
             'of the program (generic start state, mapped qubits, borrowed ancillas)')


def check(chk):
    chk.rule('faithful', 'what arrives at the backend is the program, up to the placement of the qubits and a global phase', 300)
    c25.sweep(chk, ('faithful',), setups.faithful)
    chk.assume = ['Setups with the configurations listed in pqsa/setups.py; programs on at most four qubits.']
    return 'Each program is followed through the complete engine list.'
