"""C15: Link reliability sampling."""
from ..specprop import make
make(globals(), ['sampling.c'], 40, limit=200)
