from specs.gwr import *
HARNESS = ['R06.cpp']
SOURCES = GWR_SRC
LEVEL = 'proof'
BOUND = 'random models n=12..50, k=2..5, five kernels, fixed/adaptive, planar/geographic, serial and 1 to 5 OpenMP threads'
CONTRACTS = PRED + PREDF
ITERS = {'quick': 60, 'thorough': 600}
