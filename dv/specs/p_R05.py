from specs.select import *
HARNESS = ['R05.cpp']
SOURCES = GWR_SRC + ['src/gwmodelpp/VariableForwardSelector.cpp']
LEVEL = 'proof'
BOUND = 'the greedy loop and the order of the record: proved for 1, 2 and 3 variables (every criterion and threshold), and for a cancellation at each evaluation; bounded harness: recorded greedy searches over synthetic criteria with 0..7 variables, thresholds of any sign, ties; cancellation at every evaluation; GWR fits with 2..5 variables'
CONTRACTS = VSEL + VOPT
ITERS = {'quick': 80, 'thorough': 800}
