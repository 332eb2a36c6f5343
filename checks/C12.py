from vlib import Check
import core
from corejobs import jobs
def check(tier):
    c = Check('C12', bounds='one signing call for every value of the index field (all 8*index_bytes bits symbolic, also beyond the range), every seed and message byte symbolic; 7 registered shapes with tree height 5 or 10, n in {24,32,64}, and 8/2, 16/4, 32/8 (index field exactly full); both implementations; tree heights 16 and 20 for the fast implementation with leaves and nodes abstracted to zero bytes (-flat jobs; thorough also 40/2 and 60/3); any history follows because the call is checked from every stored index', outside='tree heights 16 and 20 of the reference implementation (the same code runs with heights 5 and 10); traversal state other than that of a fresh key (C14 checks the values of whole lives); messages of other lengths than 3 bytes', cuts=core.CUTS)
    jobs(c, 'harness', lambda h, d: ['signed', 'refused'] + (['last'] if h % 8 or d == 1 else []), ['index advanced by one'], tier, 'index')
    return c
