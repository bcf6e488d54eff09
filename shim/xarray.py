"""Stand-in: xarray is not installed in the sandbox.

Labelled arrays with the part of the interface of xarray the library may use:
an array, the names of its dimensions, and an ordered mapping of coordinates
(those of the dimensions, in any order, and any other) that are labelled
arrays themselves.
"""
import numpy


class DataArray:

    def __init__(self, data=None, coords=None, dims=None, name=None,
                 attrs=None):
        self.data = data
        self.coords = dict(coords or {})
        if dims is None:
            dims = tuple(self.coords)
        self.dims = (dims, ) if isinstance(dims, str) else tuple(dims)
        self.name = name
        self.attrs = dict(attrs or {})
        for k, v in self.coords.items():
            if not isinstance(v, DataArray):
                self.coords[k] = DataArray(numpy.asarray(v), dims=(
                    k, ) if numpy.ndim(v) else ())

    values = property(lambda self: self.data if isinstance(
        self.data, numpy.ndarray) else numpy.asarray(self.data))
    shape = property(lambda self: tuple(self.values.shape))
    ndim = property(lambda self: self.values.ndim)
    dtype = property(lambda self: self.values.dtype)
    size = property(lambda self: self.values.size)
    sizes = property(lambda self: dict(zip(self.dims, self.shape)))
    T = property(lambda self: self.transpose())

    def __getattr__(self, name):
        attrs = self.__dict__.get('attrs', {})
        if name in attrs:
            return attrs[name]
        coords = self.__dict__.get('coords', {})
        if name in coords:
            return coords[name]
        raise AttributeError(name)

    def __getitem__(self, key):
        if isinstance(key, str):
            return self.coords[key]
        raise NotImplementedError(key)

    def __array__(self, dtype=None, copy=None):
        return numpy.asarray(self.values, dtype=dtype)

    def __len__(self):
        return self.shape[0]

    def to_numpy(self):
        return self.values

    def get_axis_num(self, dim):
        if isinstance(dim, (tuple, list)):
            return tuple(self.dims.index(d) for d in dim)
        return self.dims.index(dim)

    def copy(self, deep=True, data=None):
        return DataArray(data if data is not None else self.values.copy()
                         if deep else self.values, self.coords, self.dims,
                         self.name, self.attrs)

    def transpose(self, *dims, **kwargs):
        dims = dims or self.dims[::-1]
        if set(dims) != set(self.dims) or len(dims) != len(self.dims):
            raise ValueError(f'{dims} must be a permuted list of {self.dims}')
        return DataArray(self.values.transpose(
            [self.dims.index(d) for d in dims]), self.coords, dims, self.name,
            self.attrs)


class Dataset:

    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.data_vars = data_vars or {}
        self.coords = coords or {}
        self.attrs = attrs or {}
