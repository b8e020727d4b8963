from contracts.harfile import contracts as CONTRACTS, F
FILES = [([F], 3)]
LEMMAS = []
HARNESS = [dict(lang='py3', script='p3_format.py', args=['har'], rule='generated HAR files read through read_har_file: 0-5 entries with repeated, mixed-case, empty-valued headers, http, https and other URL schemes, ports, queries and fragments, several HTTP version strings and statuses; compared with the definition. A case is non-trivial when distinct')]
HARNESS_BUDGET = 12
LEVEL = 'proof'
ASSUMPTIONS = ['urllib.parse.urlsplit, str.lower and str.strip are uninterpreted functions of their arguments (the proof shows that the code applies them to the right values); the harness runs the real ones',
               're.sub is an uninterpreted function of its arguments',
               'a HAR file has the shape the HAR 1.2 format prescribes for the fields read; json.load is outside the proof',
               'header names in a HAR file are non-empty and a response status is a non-negative integer']
