from contracts.headerdiff import contracts as _ints, INT_RT
from contracts.headerdifftable import PFX, determine
CONTRACTS = _ints + PFX + [determine]
from contracts.http2 import LIT_RT
FILES = [(['compressor/headerdiff/headerDiffCodec.py'], 2)]
LEMMAS = [INT_RT, LIT_RT]
HARNESS = [dict(lang='jython', script='jy_headerdiff.py', args=['lossless'], rule='sequences of header lists through a real encoder and decoder with every parameter combination: headers and indexing tables compared after every frame; more than 64 and more than 255 indexed headers; also through Processor.compress/decompress. A case is non-trivial when distinct')]
HARNESS_BUDGET = 25
LEVEL = 'other'
BOUNDED = 'losslessness of whole frames and equality of the two tables: bounded random histories only'
