from contracts import http2table as _m
_names = ('append_encoded_header', 'find_header', 'find_header_name', 'encode_header', 'compute_diff', 'update_encoder_table', 'encode_headers', 'write_integer', 'write_literal_string')
CONTRACTS = [c for c in _m.contracts if c.key.split('.')[-1] in _names]
FILES = [(['compressor/http2/http2Codec.py'], 2)]
LEMMAS = []
HARNESS = [dict(lang='jython', script='jy_http2.py', args=['terminates'], rule='sequences of 1-8 header sets through a real encoder under a time limit, block length compared with the bound for every header written once; entries evicted while referenced. A case is non-trivial when distinct')]
HARNESS_BUDGET = 12
LEVEL = 'proof'
ASSUMPTIONS = ['encode_headers may end with struct.error when the block is longer than the frame length field allows (65535 bytes)',
               'writing one header is counted by a ghost counter that the contract of encode_header increases by one at each call; the code cannot refer to it']
