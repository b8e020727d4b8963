from contracts.processors import contracts as CONTRACTS, F
FILES = [([F], 3)]
LEMMAS = []
HARNESS = [dict(lang='py3', script='p3_compare.py', rule='pairs of header dictionaries: all pairs of 19 names x 27 values, then a random dictionary against a mutation of it (part shuffled, repeated, padded, dropped, changed); dictionaries with Connection lists for the filter; whole messages through process_message with a stub codec. A case is non-trivial when distinct')]
HARNESS_BUDGET = 15
LEVEL = 'proof'
ASSUMPTIONS = ['str.split(sep) and str.strip(\' \') are uninterpreted functions of their arguments: the proof holds for any such functions, so it shows that the code applies them to the right values and compares their results, not what Python computes for them (that part is exercised by the harness)',
               'header dictionaries map str to str; the decompressed side is a dictionary (a list of pairs is turned into one by dict())']
