"""C17: mappers translate every qubit of every command to its assigned location."""
from .mapping import families, fixed_maps

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the mappers on generated programs; every emitted command is translated back to logical qubits by following allocations and swaps '
             'and has to be a received command')


def check(chk):
    fixed_maps(chk)
    families(chk, ('map',), 17)
    return ('For every program the analysis derives the commands each mapper emits; every location used has to hold the logical qubit of the received command, controls keep '
            'their states, tags stay, measurements and allocations carry the logical id, deallocations free the location of their qubit.')
