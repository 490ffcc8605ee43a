"""C08: Construction, copying and editing of networks."""
from ..specprop import make
make(globals(), ['network.c'], 34)
