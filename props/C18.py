from contracts import varint2 as _v
CONTRACTS = _v.contracts
FILES = [([_v.BF, 'compressor/delta2/common_utils.py'], 2), ([_v.F, _v.BF], 2)]
LEMMAS = [_v.VARINT_RT]
HARNESS = [dict(lang='jython', script='jy_delta2.py', args=['ints'], rule='integers 0..599, neighbours of powers of two and of 15+8^k, at every bit offset; fixed-width integers of 1-32 bits; packed strings; instruction lists with every opcode and counts around the groups of 16, serialised and deserialised. A case is non-trivial when distinct')]
HARNESS_BUDGET = 20
LEVEL = 'other'
BOUNDED = 'packed strings and whole instruction lists: bounded runs only'
ASSUMPTIONS = ['Python 2 integers are machine integers (below 2^31 on Jython): BitBucket.StoreBits rejects Python 2 longs', 'everything in a delta2 block is a whole number of nibbles (4 bits), so positions are multiples of 4 bits']
