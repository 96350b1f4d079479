"""Simulated mpi4py.util.dtlib."""
import numpy as np
from mpi4py import MPI


def from_numpy_dtype(dtype):
    dtype = np.dtype(dtype)
    if dtype.hasobject:
        raise ValueError("NumPy datatype with object entries")
    if not dtype.isnative:
        raise ValueError("NumPy datatype with non-native byteorder")
    if dtype.char == 'e':
        raise MPI.Exception(MPI.ERR_TYPE)
    return MPI.Datatype(dtype.itemsize, np_dtype=dtype if dtype.names is None else None,
                        name='Dup ' + dtype.name)


def to_numpy_dtype(datatype):
    return datatype._np
