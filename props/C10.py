from contracts import lru as _l, varint2 as _v
CONTRACTS = _l.contracts + _v.contracts
FILES = [([_v.BF, 'compressor/delta2/common_utils.py'], 2), ([_l.G, _l.F, _v.BF], 2)]
LEMMAS = [_v.VARINT_RT]
HARNESS = [dict(lang='jython', script='jy_delta2.py', args=['codec'], rule='histories of header sets (cookies, NUL-joined values, repeats, evictions, many groups) through Spdy4SeDer/Spdy4CoDe and the Processor, with the packing and header-group options: headers and storage compared after every block. A case is non-trivial when distinct')]
HARNESS_BUDGET = 25
LEVEL = 'other'
BOUNDED = 'losslessness of whole blocks: bounded random histories only'
ASSUMPTIONS = ['as for C09 (store) and C18 (integers)']
