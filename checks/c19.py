"""C19: constraints are propagated as far as documented."""
from c10 import run
