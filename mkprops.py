"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json
P = []


def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


add('C01', 'Bit buckets return exactly the bits that were stored, in order',
    'For every sequence of values stored into a (Python) bit bucket with their bit widths, reading back the same widths in the same order returns exactly the stored values, whatever the bit alignment of each store. The number of bits held equals the sum of the widths stored, a store never changes bits stored before it, and the padding operations only ever add the bits needed to reach a byte boundary.',
    ['inputs', 'histories'], 'every sequence of store/read operations, every width and value, every starting bit offset',
    'bit_bucket_test.py stores a handful of fixed patterns; the misaligned paths depend on offset, width and value together.',
    ['compressor/delta/bit_bucket.py', 'compressor/bohe/bit_bucket.py', 'compressor/delta2/bit_bucket.py', 'compressor/delta_bohe/bit_bucket.py', 'compressor/delta2_bohe/bit_bucket.py'],
    [('StoreBits/StoreBits8/16/22/32', 'compressor/*/bit_bucket.py'), ('GetBits/GetBits8/16/32', 'compressor/*/bit_bucket.py')],
    [('output', 'bytes of the bucket', 'BitBucket'), ('out_byte/out_boff', 'write position', 'BitBucket'), ('idx_byte/idx_boff', 'read position', 'BitBucket')])
add('C02', 'http2: prefixed integers and literal strings decode to what was encoded',
    'In the http2 codec, every non-negative integer written with any of the prefix sizes the codec uses, and every literal string, is read back exactly by the decoder, which consumes exactly the bytes the encoder produced for it, whatever bytes follow. The flag bits sharing the first byte with an integer are preserved.',
    ['inputs'], 'every value, every prefix size in use, every surrounding byte string',
    'No test exercises this codec; multi-byte boundary values (prefix limit, 128-multiples) are not sampled.',
    ['compressor/http2/http2Codec.py'], [('write_integer/read_integer', 'compressor/http2/http2Codec.py'), ('write_literal_string/read_literal_string', 'compressor/http2/http2Codec.py')])
add('C03', 'http2: every header block of a stream decodes to the headers encoded',
    'For every sequence of header sets compressed one after another by the http2 codec, feeding the produced frames in order to a decoder created with the same parameters yields, for each frame, exactly the set of (name, value) pairs that was encoded. After each frame the encoder and decoder header tables hold the same entries in the same order with the same reference flags.',
    ['inputs', 'histories', 'configurations'], 'every history of header sets, every buffer size, requests and responses',
    'There is no test of the codec; loss of synchronisation only shows after evictions, deletions and re-references in a particular order.',
    ['compressor/http2/http2Codec.py', 'compressor/http2/__init__.py'],
    [('encode_headers/compute_diff/encode_header', 'compressor/http2/http2Codec.py'), ('decode_headers', 'compressor/http2/http2Codec.py')],
    [('encoder_table', 'header table of the encoder', 'HTTP2Codec'), ('decoder_table', 'header table of the decoder', 'HTTP2Codec')], ['Processor.compress', 'Processor.decompress'])
add('C04', 'http2: header tables never exceed the configured size',
    'After every operation of the http2 codec on either side, the size it accounts for a header table is the sum over its entries of name length + value length + 32, and once the table has been changed by an insertion it is at most the configured buffer size. An insertion evicts oldest entries first and no more than needed; an entry larger than the whole buffer empties the table and is not stored.',
    ['inputs', 'histories', 'configurations'], 'every table content, entry and buffer size',
    'No test inserts into these tables; size drift shows only after long histories.',
    ['compressor/http2/http2Codec.py'], [('append_encoded_header/append_decoded_header', 'compressor/http2/http2Codec.py')],
    [('encoder_table_size/decoder_table_size', 'accounted size', 'HTTP2Codec')])
add('C05', 'http2: encoding a header set always terminates',
    'Encoding any set of headers with any codec state reachable by earlier encodings terminates, and every header of the set is written a bounded number of times in the produced block.',
    ['inputs', 'histories', 'configurations'], 'every header set and every table state',
    'No test encodes; non-termination needs an eviction of a still-referenced header.',
    ['compressor/http2/http2Codec.py'], [('re-encoding loop of encode_headers', 'compressor/http2/http2Codec.py')])
add('C06', 'headerdiff: prefixed integers and strings decode to what was encoded',
    'In the headerdiff codec, every non-negative integer written with any prefix size the codec uses, and every literal string, is read back exactly, consuming exactly the bytes written for it, whatever bytes follow.',
    ['inputs'], 'every value, every prefix size in use, every surrounding byte string',
    'No test exercises this codec.',
    ['compressor/headerdiff/headerDiffCodec.py'], [('writeInteger/readInteger', 'compressor/headerdiff/headerDiffCodec.py'), ('writeLiteralString/readLiteralString', 'compressor/headerdiff/headerDiffCodec.py')])
add('C07', 'headerdiff: every header block of a stream decodes to the headers encoded',
    'For every sequence of header lists compressed one after another by the headerdiff codec, feeding the frames in order to a decoder with the same parameters yields for each frame exactly the (name, value) pairs encoded. The indexing tables of both sides stay identical.',
    ['inputs', 'histories', 'configurations'], 'every history of header lists (at most 255 headers each), every supported parameter combination',
    'There is no test of the codec; a desynchronised table shows only messages later.',
    ['compressor/headerdiff/headerDiffCodec.py', 'compressor/headerdiff/__init__.py'],
    [('encodeHeaders/decodeHeaders', 'compressor/headerdiff/headerDiffCodec.py')],
    [('headersTableEncoder/Decoder', 'indexed headers', 'HeaderDiffCodec')], ['Processor.compress', 'Processor.decompress'])
add('C08', 'headerdiff: indexed headers never exceed the buffer',
    'After every operation of the headerdiff codec, on either side, the accounted index size is the sum of the sizes of the indexed headers and is at most the configured buffer size; a header that does not fit is not indexed.',
    ['inputs', 'histories', 'configurations'], 'every history and buffer size', 'No test indexes a header.',
    ['compressor/headerdiff/headerDiffCodec.py'], [('size checks before indexing', 'compressor/headerdiff/headerDiffCodec.py')])
add('C09', 'delta2: the LRU store respects its budgets and finds what it holds',
    'Whatever sequence of insertions, lookups and reservations is applied to the LRU header store of the delta2 codec, its accounted size equals the sum of the sizes of the entries it holds (the lengths of key and value; a string that has another holder when the entry is stored is not counted again), its number of entries and its size stay within the configured limits, and eviction removes the oldest entries first and no more than needed. Looking up the index of a stored entry returns that entry, and searching a (key, value) pair returns an exact match whenever one is stored.',
    ['inputs', 'histories', 'configurations'], 'every sequence of operations and every limit',
    'lrustorage_test.py runs a few fixed sequences with tiny limits.',
    ['compressor/delta2/lrustorage.py'], [('Insert/Reserve/PopOne', 'compressor/delta2/lrustorage.py'), ('FindKeyValEntries/FindKeyIdxByKey/Lookup', 'compressor/delta2/lrustorage.py')],
    [('ring', 'entries, oldest first', 'LruStorage'), ('state_size/num_vals', 'accounted size and count', 'LruStorage')])
add('C10', 'delta2: every header block of a stream decodes to the headers encoded',
    'For every sequence of header sets compressed one after another by the delta2 codec, feeding the blocks in order to the decompressor of the same configuration yields for each block the header set encoded (names and values without NUL in cookies, blocks that fit one frame; cookie crumbs and NUL-joined values compared as sets), and compressor and decompressor storage hold the same entries afterwards.',
    ['inputs', 'histories', 'configurations'], 'every history of header sets', 'No test runs the codec end to end.',
    ['compressor/delta2/spdy4_codec_impl.py', 'compressor/delta2/__init__.py', 'compressor/delta2/lrustorage.py'],
    [('Spdy4SeDer', 'compressor/delta2/spdy4_codec_impl.py'), ('MakeOperations', 'compressor/delta2/spdy4_codec_impl.py')], (), ['Processor.compress', 'Processor.decompress'])
add('C11', 'Huffman coding is reversible',
    'For every frequency table of at least two symbols numbered from 0, the Huffman codes built from it are prefix-free, and for every byte string the decoder returns exactly the encoded string, with and without an end-of-string symbol, at any bit alignment.',
    ['inputs', 'configurations'], 'every frequency table and string', 'huffman_test.py encodes a few fixed strings with the shipped tables.',
    ['compressor/delta/huffman.py', 'compressor/delta2/huffman.py', 'compressor/bohe/huffman.py'], [('BuildCodeTree/AssignCodes/Encode/Decode', 'compressor/delta2/huffman.py')])
add('C12', 'HTTP/1 formatting and parsing are inverse',
    'Formatting any well-formed header dictionary (lower-case names, trimmed single-line values, NUL-joined repeats) as an HTTP/1 message and parsing the message returns the same dictionary, with the protocol version and status phrase defaulted when absent.',
    ['inputs'], 'every well-formed request or response dictionary', 'Nothing tests these two functions.',
    ['compressor/__init__.py', 'compressor/http1/__init__.py'], [('format_http1', 'compressor/__init__.py'), ('parse_http1', 'compressor/__init__.py')])
add('C13', 'A decompression mismatch is reported exactly when headers differ',
    'Comparing the original and the decompressed headers of a message gives an empty report if and only if, after dropping the version, status phrase and connection headers, splitting cookies at ";" and other values at NUL and trimming spaces, both sides hold the same (name, value) pairs; otherwise the report names every pair found on one side only. The connection-specific headers removed before compression are exactly the fixed ones and those listed in the Connection header.',
    ['inputs'], 'every pair of header dictionaries', 'Nothing tests the comparison, on which every reported result rests.',
    ['lib/processors.py'], [('compare_headers/compare_headers_impl', 'lib/processors.py'), ('filter_headers', 'lib/processors.py')])
add('C14', 'Streamifiers put each message into exactly one stream, in order',
    'Each streamifier distributes the messages of a session over streams so that every request appears in exactly one request stream and its response in the response stream of the same name, paired with the right host, in the original order, and no stream mixes different keys (all / host name / public suffix).',
    ['inputs'], 'every list of messages', 'Nothing tests the streamifiers.',
    ['lib/streamifiers/all_one.py', 'lib/streamifiers/host.py', 'lib/streamifiers/public_suffix.py'], [('streamify', 'lib/streamifiers/*.py')])
add('C15', 'Reported sizes and ratios are those of the compressed messages',
    'Processing a session records for every codec, for every message in order, the length of what that codec produced for the filtered headers of that message and its ratio to the baseline size, with codec state fresh at the start of the session; combining streams concatenates these records per codec without dropping or duplicating any, and the TSV lists one row per message with the sizes in codec order.',
    ['inputs', 'histories', 'configurations'], 'every session, set of codecs and sequence of combinations', 'Nothing tests the accounting.',
    ['lib/processors.py', 'lib/stream.py'], [('process_session/process_message', 'lib/processors.py'), ('record_result/__add__/print_tsv/merge_dols', 'lib/stream.py')])
add('C16', 'spdy3: the uncompressed header block is the length-prefixed pairs in order',
    'The spdy3 header block is, for each header in order, the 4-byte big-endian length of the name, the name, the 4-byte big-endian length of the value and the value, so that it can be parsed back to exactly the headers given.',
    ['inputs'], 'every header dictionary of ASCII strings', 'Nothing tests the codec.',
    ['compressor/spdy3/__init__.py'], [('Spdy3HeadersFormat', 'compressor/spdy3/__init__.py')])
add('C17', 'HAR files are converted without losing or inventing headers',
    'Converting a HAR session yields one request and one response dictionary per http(s) entry, in order, with header names lower-cased, "host" renamed to ":host", repeated headers joined by NUL in order, and the method, path with query, scheme, version, host and status fields taken from that entry.',
    ['inputs'], 'every HAR structure', 'Nothing tests the conversion.',
    ['lib/harfile.py'], [('har2hdrs/process_headers', 'lib/harfile.py')])
add('C18', 'delta2: variable-length integers and packed strings round-trip',
    'In the delta2 wire format, every non-negative index, length and operation count (a machine integer) is read back exactly, consuming exactly the bits written, and an instruction list serialised into a frame (at most 65527 bytes of payload) is deserialised to the same instructions.',
    ['inputs'], 'every value and instruction list', 'The tests cover neither function.',
    ['compressor/delta2/spdy4_codec_impl.py'], [('PackVarInt/UnpackVarInt', 'compressor/delta2/spdy4_codec_impl.py')])
add('C19', 'C++ bit bucket and Huffman coder round-trip',
    'The C++ bit bucket returns the stored bits in order for every alignment and width, and the C++ Huffman coder decodes what it encoded.',
    ['inputs', 'histories'], 'every store sequence and string', 'The C++ tests use a few fixed patterns.',
    ['compressor/delta/bit_bucket.h', 'compressor/delta/huffman.h', 'compressor/delta_bohe/bit_bucket.h', 'compressor/delta_bohe/huffman.h'], [('BitBucket', 'compressor/delta/bit_bucket.h')])
add('C20', 'delta, bohe and delta_bohe codecs are lossless',
    'For every sequence of header sets compressed by the first-generation delta codec and by the bohe and delta_bohe codecs, a decoder with the same parameters recovers each header set.',
    ['inputs', 'histories'], 'every history of header sets', 'No test runs these codecs end to end.',
    ['compressor/delta/spdy4_codec_impl.py', 'compressor/bohe/bohe.py', 'compressor/delta_bohe/bohe.py'], [('Spdy4SeDer', 'compressor/delta/spdy4_codec_impl.py')])

with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
