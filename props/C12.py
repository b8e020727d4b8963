from contracts.http1 import contracts as CONTRACTS, LEMMAS, F
FILES = [([F], 3)]
HARNESS = [dict(lang='py3', script='p3_format.py', args=['http1'], rule='well-formed request and response dictionaries, boundary names and values, repeats, versions, status phrases, formatted and parsed by the real functions. A case is non-trivial when distinct')]
HARNESS_BUDGET = 15
LEVEL = 'proof'
ASSUMPTIONS = ['meaning of str.split, str.strip and the white-space characters: the definitions in contracts/text.py (Python 3); str.lower is an unspecified function of the string: a well-formed name is one it leaves as it is, and "host" is such a name',
               'well-formed dictionary: field names not empty, on one line, without a colon after the first character; values made of trimmed one-line parts; a request has one-word method and path, a trimmed version phrase if any and no "host" next to ":host"; a response has one-word status and version and a trimmed, not empty phrase if any',
               'format_http1 is called with its default delimiter, separator, host and version, parse_http1 with its default host (the only way the codecs that run on Python 3 call them)',
               'a dictionary lists its items in the same order every time it is traversed unchanged (Python 3.7 language guarantee)']
