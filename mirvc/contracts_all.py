import c_features
import c_optim
import c_kernels
import c_basis
import c_poly
import c_space
import c_copy
from contract import *
import c_lfa
import c_overrides
import c_relate  # noqa: F401
