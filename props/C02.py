from contracts.http2 import contracts as _c, INT_RT, LIT_RT, K
FILES = [(['compressor/http2/http2Codec.py'], 2)]
NAMES = [K(n) for n in ('write_integer', 'read_next_byte', 'read_integer', 'write_literal_string', 'read_literal_string')]
CONTRACTS = [c for c in _c if c.key in NAMES]
LEMMAS = [INT_RT, LIT_RT]
HARNESS = [dict(lang='jython', script='jy_http2_int.py', rule='integers 0..699, powers of two and prefix-limit neighbours for every prefix, then random; strings of boundary and random lengths; a case is non-trivial when distinct')]
HARNESS_BUDGET = 10
LEVEL = 'proof'
