from contracts.spdy3 import contracts as CONTRACTS, LEMMAS, F
FILES = [([F], 3)]
HARNESS = [dict(lang='py3', script='p3_format.py', args=['spdy3'], rule='header lists with names and values of boundary lengths (0, 1, 255, 256, 300, 65536) and random ones, several messages per codec object: block compared with the definition, parsed back, and the produced frame inflated. A case is non-trivial when distinct')]
HARNESS_BUDGET = 12
LEVEL = 'proof'
ASSUMPTIONS = ['header names and values are ASCII strings shorter than 2**32 (the function rejects others by raising)',
               'a dictionary lists its items in the same order every time it is traversed unchanged (Python 3.7 language guarantee)',
               'compress() passes all but the first 12 bytes of the block through zlib, which is outside the property and only exercised by the harness']
