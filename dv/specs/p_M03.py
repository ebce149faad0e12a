from specs.general import *
HARNESS = ['M03.cpp']
SOURCES = GG_SRC
LEVEL = 'proof'
BOUND = 'random Poisson and binary responses n=12..40, k=2..3, five kernels, fixed/adaptive, planar/geographic, tolerances 1e-8..1e-2, 1..20 iterations, serial and 1 or 3 OpenMP threads, refits, automatic bandwidth'
CONTRACTS = WT + GG + GGC + GGP
ITERS = {'quick': 60, 'thorough': 600}
