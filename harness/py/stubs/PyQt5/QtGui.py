from .QtWidgets import _any_class
def __getattr__(name):
    if name.startswith("__"): raise AttributeError(name)
    return _any_class(name)
