"""C11: bounds follow the assignment."""
from c10 import run
