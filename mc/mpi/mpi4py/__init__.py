"""A stand-in for mpi4py: the calls of a rank go to the hub of the explorer (mc/mpi/hub.py) over the socket MC_MPI_FD."""
__version__ = '4.0.0'
