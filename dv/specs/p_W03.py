from specs.spatial import *
HARNESS = ['W03.cpp']
SOURCES = ['src/gwmodelpp/spatialweight/CRSDistance.cpp', 'src/gwmodelpp/spatialweight/SpatialWeight.cpp', 'src/gwmodelpp/spatialweight/BandwidthWeight.cpp']
LEVEL = 'proof'
BOUND = 'pairs of random spatial weights (5 kernels, 4 metrics) through construct/copy/assign/move/set/self-set'
CONTRACTS = SW + [c for c in DIST + MINK + ONED + ST if 'Copy' in c.func]
ITERS = {'quick': 300, 'thorough': 3000}
