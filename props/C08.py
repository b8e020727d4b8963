from contracts.headerdifftable import contracts as CONTRACTS
LEMMAS = []
FILES = [(['compressor/headerdiff/headerDiffCodec.py'], 2)]
HARNESS = [dict(lang='jython', script='jy_headerdiff.py', args=['sizes'], rule='sequences of header lists through a real encoder and decoder with small buffers: accounted size and content compared with the definition after every header. A case is non-trivial when distinct')]
HARNESS_BUDGET = 20
LEVEL = 'other'
BOUNDED = 'the bound on the decoder (its table is the encoder\'s on frames of the encoder: C07): bounded random histories only. Sums on both sides and the bound on the encoder are proved'
ASSUMPTIONS = ['an IndexedHeader is opaque once constructed; name, value, index, full are never assigned afterwards (an assignment would be reported), age and delta_usage may have any value whenever they are read',
               'Huffman and deflate coders are opaque objects that answer any string',
               'encodeHeaders may end with struct.error for more than 255 headers or a frame over 65535 bytes; decodeHeaders may reject a byte string with an exception; nothing is claimed about the codec after that',
               'initCodec is verified without deflate parameters']
