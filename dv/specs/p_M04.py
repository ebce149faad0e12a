from specs.gwdr import *
HARNESS = ['M04.cpp']
SOURCES = SRC
LEVEL = 'proof'
BOUND = 'random models n=16..34, k=2..4, 1 to 3 coordinate columns with their own kernel and bandwidth, serial and 1 or 4 OpenMP threads, with and without hat matrix, refits, singular systems, optimised bandwidths'
CONTRACTS = FIT + CRIT + CRITF + VARC + FITF
ITERS = {'quick': 60, 'thorough': 600}
