from contracts import http2table as _m
CONTRACTS = _m.contracts
FILES = [(['compressor/http2/http2Codec.py'], 2)]
LEMMAS = [_m.KEEP_POS, _m.SIZE_POS]
HARNESS = [dict(lang='jython', script='jy_http2.py', args=['sizes'], rule='sequences of 1-8 header sets (0-160 headers, values up to and above the buffer size, buffers of 0-9000 bytes) through a real encoder and decoder whose insertions are compared with the definition. A case is non-trivial when distinct')]
HARNESS_BUDGET = 12
LEVEL = 'proof'
ASSUMPTIONS = ['the buffer size is not negative',
               'the decoder may reject a byte string with an exception (IndexError, struct.error, UnboundLocalError); nothing is claimed about the codec after that']
