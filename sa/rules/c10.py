"""C10: groups and partitions are kept consistent by every change."""
from ..specprop import make
make(globals(), ['groups.c', 'anneal_groups.c'], 40, limit=300)
