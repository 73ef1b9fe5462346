"""Stand-in for more_itertools."""
from itertools import pairwise  # noqa: F401
