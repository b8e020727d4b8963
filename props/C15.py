from contracts.session import contracts as CONTRACTS, F, SF
LEMMAS = []
FILES = [([F, SF, 'compressor/__init__.py'], 3)]
HARNESS = [dict(lang='py3', script='p3_streams.py', args=['sizes'], rule='sessions through process_session with real and stand-in codecs, stream additions, TSV and summary output compared with the definition; the command-line tool on generated HAR files. A case is non-trivial when distinct')]
HARNESS_BUDGET = 20
LEVEL = 'proof'
ASSUMPTIONS = ['a codec is an opaque object with a constant name; compress answers any non-empty string and does not change the header dictionary it is given, decompress raises NotImplementedError or answers any dictionary',
               'get_processors makes new codec objects on every call (they have been given nothing before), with distinct names, the baseline among them (dynamic import; exercised by the harness)',
               'ratios are computed over the reals']
BOUNDED = 'print_tsv / print_summary / the command line: generated sessions on the real code'
