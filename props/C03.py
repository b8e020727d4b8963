from contracts import http2 as _b, http2table as _m
CONTRACTS = _b.contracts + [c for c in _m.contracts if c.key.split('.')[-1] in ('append_encoded_header', 'append_decoded_header', 'find_header', 'find_header_name')]
FILES = [(['compressor/http2/http2Codec.py'], 2)]
LEMMAS = list(_b.LEMMAS) if hasattr(_b, 'LEMMAS') else []
HARNESS = [dict(lang='jython', script='jy_http2.py', args=['lossless'], rule='sequences of 1-8 header sets (0-160 headers from pools that repeat, evict and come back, values up to and above the buffer size, buffers of 0-9000 bytes) through a real encoder and decoder: sets, tables and flags compared after every frame; also through Processor.compress/decompress. A case is non-trivial when distinct')]
HARNESS_BUDGET = 25
LEVEL = 'other'
BOUNDED = 'losslessness of whole frames and equality of the two tables: bounded random histories only'
