from _stublimit import module_getattr
__getattr__ = module_getattr("pkg_resources")
