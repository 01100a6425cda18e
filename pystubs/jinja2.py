"""Only what importing the prompt templates needs; rendering is not modelled."""
from _stublimit import Limited, limit, module_getattr
__getattr__ = module_getattr("jinja2")


class BaseLoader(Limited):
    pass


class Environment(Limited):
    def __init__(self, loader=None, **kw):
        self.globals, self.filters = {}, {}


class _Meta(Limited):
    pass


meta = _Meta()
