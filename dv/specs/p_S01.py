from specs.gwss import *
HARNESS = ['S01.cpp']
SOURCES = GWSS_SRC
LEVEL = 'proof'
BOUND = 'random data n=6..30, 1 to 5 variables, five kernels, fixed/adaptive, serial and 1 to 3 OpenMP threads, pairs and quantiles'
CONTRACTS = AVG + CORR
ITERS = {'quick': 60, 'thorough': 600}
