from .problems import QuadraticProgram  # noqa: F401
