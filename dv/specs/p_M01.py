from specs.robust import *
HARNESS = ['M01.cpp']
SOURCES = ROB_SRC
LEVEL = 'proof'
BOUND = 'random models with 0..3 outliers n=18..40, k=2..3, five kernels, fixed/adaptive, planar/geographic, both algorithms, serial and 1 or 3 OpenMP threads, refits, automatic bandwidth'
CONTRACTS = PASS + PASSF + FILT + RFIT
ITERS = {'quick': 60, 'thorough': 600}
