"""C14: Compact partitions used by netcarto."""
from ..specprop import make
make(globals(), ['netcarto.c', 'anneal.c'], 18, limit=300)
