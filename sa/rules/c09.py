"""C09: Network measures."""
from ..specprop import make
make(globals(), ['netmeasures.c'], 25)
