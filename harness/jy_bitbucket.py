import os, sys
sys.path.insert(0, os.environ['VERIF_HARNESS'])
from hcommon import *

COPIES = ['delta', 'delta2', 'delta2_bohe', 'delta_bohe', 'bohe']
MODS = {}
for d in COPIES:
    p = os.path.join(REPO, 'compressor', d)
    sys.path.insert(0, p)
    for m in ('common_utils', 'bit_bucket'):
        sys.modules.pop(m, None)
    MODS[d] = __import__('bit_bucket').BitBucket
    sys.path.remove(p)


def bits_of(val, w):
    return [(val >> (w - 1 - i)) & 1 for i in range(w)]


def tobytes(bits):
    out = []
    for i in range(0, len(bits), 8):
        b = bits[i:i + 8]
        b = b + [0] * (8 - len(b))
        out.append(int(''.join(map(str, b)), 2))
    return out


def run(inp):
    bb = MODS[inp['copy']]()
    bits, pos = [], 0
    for op in inp['ops']:
        k = op[0]
        if k == 'bits':
            bb.StoreBits((list(op[1]), op[2]))
            b = []
            for x in op[1]:
                b += bits_of(x, 8)
            bits += b[:op[2]]
        elif k == 'store':
            w = op[1]
            if w == 1:
                bb.StoreBit(op[2])
                bits += [1 if op[2] else 0]
            else:
                getattr(bb, 'StoreBits%d' % w)(op[2])
                bits += bits_of(op[2], w)
        elif k == 'clear':
            bb.Clear()
            bits, pos = [], 0
        elif k == 'pad':
            if hasattr(bb, 'PadToByteBoundary'):
                bb.PadToByteBoundary()
                bits += [0] * (-len(bits) % 8)
        elif k == 'advance':
            np = (pos + 7) // 8 * 8
            if np <= len(bits):
                f = getattr(bb, 'AdvanceReadPtrToByteBoundary', None) or bb.AdvanceToByteBoundary
                f()
                pos = np
        elif k == 'get':
            w = min(op[1], len(bits) - pos)
            got = bb.GetBits(w)
            eq((list(got[0]), got[1]), (tobytes(bits[pos:pos + w]), w), 'GetBits(%d) at bit %d' % (w, pos))
            pos += w
        elif k == 'getn':
            w = op[1]
            nm = 'GetBit' if w == 1 else 'GetBits%d' % w
            if len(bits) - pos >= w and hasattr(bb, nm):
                eq(getattr(bb, nm)(), int(''.join(map(str, bits[pos:pos + w])), 2), '%s at bit %d' % (nm, pos))
                pos += w
        eq(bb.NumBits(), len(bits), 'NumBits after %r' % (op,))
        eq(bb.BytesOfStorage(), (len(bits) + 7) // 8, 'BytesOfStorage')
        eq(bool(bb.AllConsumed()), pos >= len(bits), 'AllConsumed')
    o, n = bb.GetAllBits()
    eq((list(o), n), (tobytes(bits), len(bits)), 'GetAllBits')
    got = bb.GetBits(len(bits) - pos)
    eq(list(got[0]), tobytes(bits[pos:]), 'the rest')
    ok(bb.AllConsumed(), 'everything consumed')


r = Run()
rng = r.rng


def widths(c):
    return [1, 8, 16, 32] + ([4] if c == 'delta2' else []) + ([22] if c == 'bohe' else [])


def sb(w):
    n = (w + 7) // 8
    return ['bits', [rng.choice([rng.randrange(256), 255, 0]) for _ in range(n)], w]


def systematic():
    for a in range(0, 17):
        for b in list(range(0, 34)):
            for c in COPIES:
                yield 'seq', dict(copy=c, ops=[sb(a), sb(b), sb(11), ['get', a], ['get', b], ['get', 11]])


def random_ops():
    while True:
        c = rng.choice(COPIES)
        ops = []
        for _ in range(rng.choice([3, 8, 25])):
            k = rng.random()
            if k < 0.3:
                ops.append(sb(rng.choice([1, 2, 3, 5, 7, 8, 9, 13, rng.randrange(0, 90)])))
            elif k < 0.6:
                w = rng.choice(widths(c))
                ops.append(['store', w, rng.choice([0, 2 ** w - 1, rng.randrange(2 ** w), 2 ** (w - 1)])])
            elif k < 0.75:
                ops.append(['get', rng.choice([0, 1, 3, 8, 11, rng.randrange(60)])])
            elif k < 0.93:
                ops.append(['getn', rng.choice([1, 4, 8, 16, 32])])
            elif k < 0.95:
                ops.append(['pad'])
            elif k < 0.985:
                ops.append(['advance'])
            else:
                ops.append(['clear'])
        yield 'seq', dict(copy=c, ops=ops)


r.go({'seq': run}, [systematic(), random_ops()])
