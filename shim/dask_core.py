"""Stand-in: dask is not installed in the sandbox.

Arrays cut in blocks along their first axis, functions applied to each block,
and a sum of the blocks done in the order given by ``TREE``: dask promises
nothing about it.  Blocks and partial results travel through pickle, as they do
between the workers of a cluster.
"""
import pickle

import numpy

# Association of the sum: 'left', 'right' or 'tree'
TREE = 'left'


class Array:

    def __init__(self, data, chunks=None):
        self.data = numpy.asarray(data)
        self.cuts = chunks if chunks is not None else (len(self.data), )

    shape = property(lambda self: self.data.shape)
    ndim = property(lambda self: self.data.ndim)
    dtype = property(lambda self: self.data.dtype)
    size = property(lambda self: self.data.size)
    chunks = property(lambda self: (self.cuts, ) + tuple(
        (n, ) for n in self.shape[1:]))
    numblocks = property(lambda self: tuple(map(len, self.chunks)))

    def ravel(self):
        if self.ndim == 1:
            return self
        inner = int(numpy.prod(self.shape[1:]))
        return Array(self.data.ravel(), tuple(c * inner for c in self.cuts))

    def blocks(self):
        start = 0
        for c in self.cuts:
            yield self.data[start:start + c]
            start += c

    def rechunk(self, chunks):
        if isinstance(chunks, dict):
            # {0: -1}: a single block
            cuts = chunks.get(0, self.cuts)
            return Array(self.data, (len(self.data), ) if cuts == -1 else cuts)
        if isinstance(chunks[0], tuple):
            chunks = chunks[0]
        return Array(self.data, chunks)


def asarray(x, **kwargs):
    return x if isinstance(x, Array) else Array(x)


asanyarray = asarray


class Delayed:

    def __init__(self, make):
        self.make = make

    def sum(self):

        def reduce():
            parts = list(self.make())
            while len(parts) > 1:
                if TREE == 'left':
                    parts[:2] = [add(parts[0], parts[1])]
                elif TREE == 'right':
                    parts[-2:] = [add(parts[-2], parts[-1])]
                else:
                    parts = [add(*parts[i:i + 2]) if i + 1 < len(parts) else
                             parts[i] for i in range(0, len(parts), 2)]
            return parts[0]

        return Delayed(reduce)

    def compute(self):
        return self.make()


def add(a, b):
    both = numpy.empty(2, dtype='object')
    both[0], both[1] = (pickle.loads(pickle.dumps(x)) for x in (a, b))
    return both.sum()


def map_blocks(func, *args, dtype=None, drop_axis=None, **kwargs):

    def make():
        arrays = [a for a in args if isinstance(a, Array)]
        cuts = max((a.cuts for a in arrays), key=len)
        split = []
        for a in args:
            if isinstance(a, Array):
                # blocks are aligned by their positions, and a single one is
                # repeated
                blocks = list(a.blocks())
                if len(blocks) not in (1, len(cuts)):
                    raise ValueError('blocks do not align')
                split.append(blocks * len(cuts) if len(blocks) == 1 else
                             blocks)
            else:
                split.append([a] * len(cuts))
        for items in zip(*split):
            yield from func(*items)

    return Delayed(make)
