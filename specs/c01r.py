"""C01, renames: the same contracts as C17 (tags are kept as in that property's types)."""
from . import c17


def contracts(w):
    return [c for c in c17.contracts(w) if c.qual.endswith("update_id")]
