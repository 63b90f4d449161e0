"""Small property-based-testing harness shared by every check (see DESIGN.md)."""
from .runner import Sub, Fail, need, close, bootstrap, np, st  # noqa: F401
