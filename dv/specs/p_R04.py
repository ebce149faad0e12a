from specs.select import *
HARNESS = ['R04.cpp']
SOURCES = GWR_SRC + ['src/gwmodelpp/BandwidthSelector.cpp', 'src/gwmodelpp/GTWR.cpp']
LEVEL = 'proof'
BOUND = 'recorded searches over synthetic criteria (smooth, flat, failing, plateaus), adaptive and fixed, random bounds, cancellation at every evaluation; GWR and GTWR fits n=14..40'
CONTRACTS = BWSEL + AUTO
ITERS = {'quick': 60, 'thorough': 600}
