"""Sparse matrix utilities. Small client problems and a set of sparsity patterns (rectangular, empty rows, unequal blocks,
repeated variables) are followed symbolically through the sparse structure, the products with compressed rows, and their
derivative rules; the resulting closed forms are compared with the matrix the format stands for."""
from sa import linear as L

ASSUMPTIONS = ["scipy's compressed matrices and numpy's array functions behave as documented",
               "sparsity patterns are those of the listed problems: wide, tall, square, single column, empty rows, unequal blocks, repeated variables"]


def check(a, r):
    r.parallel(a, [(f, ()) for f in (L.formats, L.kernels, L.normal_equations)])


__all__ = ["check", "ASSUMPTIONS"]
