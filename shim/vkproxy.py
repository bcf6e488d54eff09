"""Names of the core module that a check does not build.

The Python layer of the package imports every class of the core module; a check
that builds a part of it gets an empty class, or a function that raises, for
the rest.
"""


def install(mod):
    def __getattr__(name):
        if name.startswith('_'):
            raise AttributeError(name)
        if name[0].isupper():
            value = type(name, (), {'__doc__': 'not built for this check'})
        else:

            def value(*args, **kwargs):
                raise NotImplementedError(f'{name}: not built for this check')

        setattr(mod, name, value)
        return value

    mod.__getattr__ = __getattr__
