"""C12: Bipartite networks and models."""
from ..specprop import make
make(globals(), ['bipartite.c'], 22)
