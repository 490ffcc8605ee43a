"""C11: quality of partitions and roles of nodes."""
from ..specprop import make
make(globals(), ['measures.c'], 9)
