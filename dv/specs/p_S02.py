from specs.gwpca import *
HARNESS = ['S02.cpp']
SOURCES = GWPCA_SRC
LEVEL = 'proof'
BOUND = 'random data n=10..30, 1 to 5 variables, five kernels, fixed/adaptive, 1 to p components kept'
CONTRACTS = PCA
ITERS = {'quick': 80, 'thorough': 800}
