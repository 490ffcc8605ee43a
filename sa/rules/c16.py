"""C16: Recommendation and conflict inference."""
from ..specprop import make
make(globals(), ['recommender.c'], 18, limit=200)
