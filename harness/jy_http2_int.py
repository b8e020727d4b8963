"""http2: integers and literal strings, on the real HTTP2Codec"""
import sys, os
sys.path.insert(0, os.environ['VERIF_HARNESS'])
from hcommon import *
sys.path.insert(0, REPO)
from compressor.http2.http2Codec import HTTP2Codec

PREF = {0: [0], 5: [0x40, 0x60], 6: [0], 7: [0x80]}


def mk():
    return HTTP2Codec(4096, is_request=True)


def t_int(inp):
    c = mk()
    pre, post = inp['pre'].encode('latin-1'), inp['post'].encode('latin-1')
    c.encoded_stream = pre
    c.write_integer(inp['byte'], inp['p'], inp['v'])
    s = c.encoded_stream
    eq(s[:len(pre)], pre, 'bytes written before')
    n = len(s)
    c.decoded_stream = s + post
    c.decoded_stream_index = len(pre)
    b = 0
    if inp['p']:
        b = c.read_next_byte()
        m = 2 ** inp['p'] - 1
        eq(b & ~m & 0xff, inp['byte'], 'flag bits')
    eq(c.read_integer(b, inp['p']), inp['v'], 'integer')
    eq(c.decoded_stream_index, n, 'bytes consumed')


def t_str(inp):
    c = mk()
    s, post = inp['s'].encode('latin-1'), inp['post'].encode('latin-1')
    c.encoded_stream = 'xyz'
    c.write_literal_string(s)
    n = len(c.encoded_stream)
    c.decoded_stream = c.encoded_stream + post
    c.decoded_stream_index = 3
    eq(c.read_literal_string(), s, 'string')
    eq(c.decoded_stream_index, n, 'bytes consumed')


def g_int(r):
    vals = list(range(0, 700)) + [2 ** k + d for k in range(7, 40) for d in (-2, -1, 0, 1, 2)] + \
        [m + 128 ** k + d for m in (31, 63, 127) for k in range(1, 4) for d in (-1, 0, 1)]
    for v in vals:
        for p in sorted(PREF):
            for b in PREF[p]:
                yield 'int', dict(byte=b, p=p, v=v, pre='', post=u'\xff')
    while True:
        p = r.rng.choice(sorted(PREF))
        yield 'int', dict(byte=r.rng.choice(PREF[p]), p=p, v=r.rng.getrandbits(r.rng.randrange(1, 50)),
                          pre=b2l(bytestr(r.rng, r.rng.randrange(3))), post=b2l(bytestr(r.rng, r.rng.randrange(3))))


def g_str(r):
    for n in list(range(0, 300)) + [16383, 16384, 16385]:
        yield 'str', dict(s=u'a' * n, post=u'\x80')
    while True:
        yield 'str', dict(s=b2l(bytestr(r.rng, r.rng.choice([0, 1, 5, 127, 128, 129, r.rng.randrange(600)]))), post=b2l(bytestr(r.rng, 2)))


r = Run()
r.go({'int': t_int, 'str': t_str}, [g_int(r), g_str(r)])
