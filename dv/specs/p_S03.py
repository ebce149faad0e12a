from specs.gwda import *
HARNESS = ['S03.cpp']
SOURCES = SRC
LEVEL = 'proof'
BOUND = 'random data n=24..48, 2 or 3 variables, 2 to 4 groups, linear and quadratic, local or global mean, covariance and prior, five kernels, fixed/adaptive, serial and 1 to 4 OpenMP threads, reused objects'
CONTRACTS = DA + MOM
ITERS = {'quick': 200, 'thorough': 2000}
