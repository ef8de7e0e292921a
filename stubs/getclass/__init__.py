"""Minimal stand-in for the third-party package ``getclass``.

The package is not installed in this sandbox and can not be installed.  The
repository uses a single function of it: ``getclass.getclass(method)`` which
returns the class in which the given method is defined.
"""
import inspect


def getclass(obj):
    """Return the class that defines the given (un)bound method/function."""
    if inspect.ismethod(obj):
        for cls in inspect.getmro(type(obj.__self__)):
            if obj.__name__ in cls.__dict__:
                return cls
        return type(obj.__self__)
    return type(obj)
