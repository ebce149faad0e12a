from specs.lcr import *
HARNESS = ['M02.cpp']
SOURCES = LC_SRC
LEVEL = 'proof'
BOUND = 'random models with nearly collinear columns n=16..40, k=2..4, five kernels, fixed/adaptive, planar/geographic, fixed and compensated ridge, serial and 1 or 3 OpenMP threads, refits, automatic bandwidth'
CONTRACTS = RIDGE + LCR + LCRD + LCRC
ITERS = {'quick': 60, 'thorough': 600}
