"""C13: Numerical helpers and containers."""
from ..specprop import make
make(globals(), ['tools.c'], 39)
