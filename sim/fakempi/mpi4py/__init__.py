"""Simulated mpi4py package (see /verif/DESIGN.md). Shadows the real one."""
__version__ = '4.1.2+sim'
