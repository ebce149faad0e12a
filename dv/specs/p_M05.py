from specs.multiscale import *
HARNESS = ['M05.cpp']
SOURCES = MS_SRC
LEVEL = 'proof'
BOUND = 'random models n=20..34, 2 to 4 variables with their own kernel, bandwidth, kind, criterion and centring, up to 9 sweeps, serial and 1 or 4 OpenMP threads, with and without hat matrix and search bounds, sparse variables with singular candidates, earlier fits of other data'
CONTRACTS = CORE + COREF + VCRIT + BACK + SELB + FITM
ITERS = {'quick': 60, 'thorough': 600}
