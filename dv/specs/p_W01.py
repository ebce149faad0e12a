from specs.spatial import *
HARNESS = ['W01.cpp']
SOURCES = ['src/gwmodelpp/spatialweight/CRSDistance.cpp', 'src/gwmodelpp/spatialweight/SpatialWeight.cpp', 'src/gwmodelpp/spatialweight/BandwidthWeight.cpp']
LEVEL = 'proof'
BOUND = 'distance vectors of 1..40 points (ties, zeros, tiny and huge values), 5 kernels, fixed and adaptive bandwidths below, at and above the number of points'
CONTRACTS = KW
ITERS = {'quick': 400, 'thorough': 3000}
