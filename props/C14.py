from contracts.streams import contracts as CONTRACTS, FS, LEMMAS
FILES = [(FS, 3)]
HARNESS = [dict(lang='py3', script='p3_streams.py', args=['streams'], rule='lists of 0-12 request/response pairs with hosts drawn from upper/lower case, padded, ports, several public suffixes, interleaved; each streamifier compared with the definition. A case is non-trivial when distinct')]
HARNESS_BUDGET = 12
LEVEL = 'proof'
ASSUMPTIONS = ['a message is an opaque record whose ":host" is a string; str.lower and str.strip are uninterpreted functions',
               'PublicSuffixList.get_public_suffix is a fixed (uninterpreted) function of the list object and the host name',
               'the list of codec names is not empty (the Stream constructor requires it)']
