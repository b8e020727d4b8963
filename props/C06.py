from contracts.headerdiff import contracts as CONTRACTS, INT_RT
from contracts.http2 import LIT_RT
FILES = [(['compressor/headerdiff/headerDiffCodec.py'], 2)]
LEMMAS = [INT_RT, LIT_RT]
HARNESS = [dict(lang='jython', script='jy_headerdiff.py', args=['ints'], rule='integers 0..599, neighbours of powers of two and of the prefix limits for every prefix and flag combination, then random; strings of boundary and random lengths, every single byte and random strings Huffman-coded with both tables. A case is non-trivial when distinct')]
HARNESS_BUDGET = 14
LEVEL = 'proof'
BOUNDED = 'Huffman-coded strings (huffman parameter) are only run: all single bytes and random strings up to 399 bytes. Everything else is a runtime cross-check of the contracts'
ASSUMPTIONS = ['literal strings: proved for huffman=False; with huffman=True the codec object is outside the engine (a tree with parent links) and is checked by bounded runs only']
