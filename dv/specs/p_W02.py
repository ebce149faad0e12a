from specs.spatial import *
HARNESS = ['W02.cpp']
SOURCES = ['src/gwmodelpp/spatialweight/CRSDistance.cpp', 'src/gwmodelpp/spatialweight/SpatialWeight.cpp', 'src/gwmodelpp/spatialweight/BandwidthWeight.cpp']
LEVEL = 'proof'
BOUND = '1..8 focus and 1..12 data points, planar/geographic/Minkowski (p=1,2,3,real,-1; rotated)/one-dimensional/space-time'
CONTRACTS = DIST + MINK + ONED + ST
ITERS = {'quick': 300, 'thorough': 3000}
