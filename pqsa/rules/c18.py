"""C18: buffering mappers never reorder commands that share a qubit."""
from .. import mapsem
from .mapping import families

PARALLEL = True
TECHNIQUE = ('abstract interpretation of the mappers on generated programs with allocation, deallocation, storage limits and flushes; the emitted commands are followed '
             'location by location through the swaps and compared with the received ones on every logical qubit')


def check(chk):
    families(chk, ('order',), 18)
    return ('For every program the analysis derives the commands each mapper emits; following every logical qubit through allocations and swaps, each qubit has to see exactly '
            'its commands in the received order up to each flush, two-qubit commands only on neighbouring locations, and the mapper has to report the final locations.')
