from specs.gtwr import *
HARNESS = ['M06.cpp']
SOURCES = GTWR_SRC
LEVEL = 'proof'
BOUND = 'random models n=16..34, k=2..4, five kernels, fixed/adaptive, space-time ratio 0..1, right and oblique axes, serial and 1 to 3 OpenMP threads'
CONTRACTS = TFIT + TCRIT + TFITF
ITERS = {'quick': 60, 'thorough': 600}
