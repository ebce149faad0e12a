from specs.gwr import *
from specs.gwrbasic import CORE
HARNESS = ['R07.cpp']
SOURCES = GWR_SRC
LEVEL = 'proof'
BOUND = 'random models n=12..50, k=2..5, five kernels, fixed/adaptive, planar/geographic, serial and 1 to 5 OpenMP threads or 3 more than processors'
CONTRACTS = FIT + PRED + CRIT + CORE + FITF + PREDF + CRITF
ITERS = {'quick': 60, 'thorough': 600}
