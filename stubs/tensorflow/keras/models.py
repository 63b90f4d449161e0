def load_model(path, compile=True, **kw):
    """Replaced by the checks with a function returning a generated model."""
    raise FileNotFoundError(path)
