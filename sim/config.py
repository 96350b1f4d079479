"""Budgets and descriptions of the checks."""
STUBS = [
    'MPI library (mpi4py): replaced by sim/fakempi, a single-process model of point-to-point, collective and file '
    'operations whose delivery order, buffering and synchronisation are drawn from the seed',
    'storage: real files in a scratch folder behind sim/simfs (every open/read/write/close/mkdir/rename is a '
    'scheduling and fault point)',
    'wall clock (time.time, time.sleep): simulated',
    'process crash: all simulated processes are ended at one instant; only what reached the scratch folder survives',
]
ASSUMPTIONS = [
    'seeded sampling: a clean batch is evidence, not proof',
    'MPI is reliable as the standard demands (no loss, corruption or duplication of messages); order, delay and '
    'buffering are adversarial',
    'a crash ends the job, not the machine: writes handed to the operating system survive in the order issued, '
    'buffered ones do not; a write in progress may be cut short',
    'processes run as threads of one interpreter, switched only at MPI, storage and clock operations',
]
BASE = ['pyspod/utils/parallel.py', 'numpy', 'mpi4py.util.dtlib semantics']
R = lambda *x: list(x) + BASE
PROPS = {
    'C01': dict(quick=4000, thorough=120000, level='exploration', real=R('pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/utils/reader.py', 'pyspod/utils/weights.py', 'pyspod/utils/postproc.py (mode retrieval)')),
    'C02': dict(quick=4000, thorough=80000, level='fault_enumeration', real=R('pyspod/spod/base.py', 'pyspod/spod/streaming.py', 'pyspod/utils/reader.py')),
    'C03': dict(quick=6000, thorough=120000, level='exploration', real=R('pyspod/utils/reader.py', 'netCDF4, h5py, xarray')),
    'C04': dict(quick=2400, thorough=80000, level='exploration', real=R('pyspod/spod/base.py', 'pyspod/spod/standard.py', 'pyspod/utils/reader.py', 'pyspod/utils/postproc.py (mode retrieval)', 'netCDF4, h5py, xarray')),
    'C05': dict(quick=9000, thorough=300000, level='exploration', real=R()),
    'C06': dict(quick=4000, thorough=120000, level='exploration', real=R('pyspod/spod', 'pyspod/pod', 'pyspod/utils')),
    'C07': dict(quick=2000, thorough=60000, level='exploration', real=R('pyspod/spod', 'pyspod/utils')),
    'C08': dict(quick=5000, thorough=90000, level='exploration', real=R('pyspod/pod', 'pyspod/utils')),
    'C09': dict(quick=3000, thorough=60000, level='fault_enumeration', real=R('pyspod/spod', 'pyspod/utils')),
    'C10': dict(quick=3000, thorough=60000, level='fault_enumeration', real=R('pyspod/spod', 'pyspod/pod', 'pyspod/utils')),
    'C11': dict(quick=1600, thorough=50000, level='exploration', real=R('pyspod/spod', 'pyspod/pod', 'pyspod/utils')),
    'C12': dict(quick=2400, thorough=80000, level='fault_enumeration', real=R('pyspod/spod', 'pyspod/pod', 'pyspod/utils')),
    'C13': dict(quick=20000, thorough=300000, level='exploration', real=R('pyspod/utils/weights.py')),
    'C14': dict(quick=3000, thorough=60000, level='exploration', real=R('pyspod/spod', 'pyspod/utils')),
    'C16': dict(quick=1200, thorough=40000, level='exploration', real=R('pyspod/utils/postproc.py', 'pyspod/spod', 'pyspod/utils/reader.py', 'matplotlib (all but the making of pixels, which is stubbed)')),
    'C15': dict(quick=160, thorough=8000, level='fault_enumeration', real=['pyspod/emulation', 'TensorFlow/Keras (eager)', 'h5py']),
}
