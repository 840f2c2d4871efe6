"""The Python simulator in place of the compiled one."""
from projectq.backends._sim._pysim import Simulator
