from specs.gwr import *
from specs.gwrbasic import CORE
HARNESS = ['R01.cpp']
SOURCES = GWR_SRC
LEVEL = 'proof'
BOUND = 'random models n=14..36, k=2..4, five kernels, fixed/adaptive, planar/geographic, serial and 1 or 3 OpenMP threads'
CONTRACTS = FIT + CORE
