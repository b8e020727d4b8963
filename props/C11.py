import re
from contracts import huffman as _h
from contracts.bitbucket import text as _text
LEMMAS = _h.LEMMAS + _h.ROUND
FILES = [([_h.BF(_d), 'compressor/%s/common_utils.py' % _d, _h.HF(_d)], 2) for _d in _h.ALL_DIRS]


def _func(f, name):
    t = _text(f).split('\n  def %s(' % name)
    if len(t) != 2:
        return None
    return re.sub(r'"""(?:[^"\\]|"(?!""))*"""\n', '', t[1].split('\n  def ')[0].rstrip(), count=1)  # without the docstring


CONTRACTS, _seen = [], {}
for _d in _h.ALL_DIRS:
    for _c in _h.all_contracts_for(_d):
        if _c.verify:
            _n = _c.key.split('.')[-1]
            _src = _func(_h.HF(_d), _n)
            _k = (_n, _src)
            if _src is not None and _k in _seen:
                _c.verify = False
                _c.same_as = _seen[_k]
                _c.why_trusted = 'its source text is identical to that of %s (compared on this run), which is verified against the same contract' % _seen[_k]
            else:
                _seen[_k] = _c.key
        CONTRACTS.append(_c)
HARNESS = [dict(lang='jython', script='jy_huffman.py', args=['all'], rule='the shipped tables of the five huffman.py copies and of headerdiff (all codes, every single byte), generated tables (flat, skewed, zero, exponential, deep) of 2-257 symbols; random strings with and without end-of-string, at every bit offset. A case is non-trivial when distinct')]
HARNESS_BUDGET = 25
LEVEL = 'other'
BOUNDED = "delta2: BuildCanonicalCodeTable, RebuildDecodeTree and BuildCodeTree (table against tree exhaustive per symbol for the shipped tables, generated tables at random); BuildCodeTree of the other copies; EncodeToBB of delta_bohe; HuffmanCodec and its bit coders in headerdiff: bounded runs on the real code"
ASSUMPTIONS = ['a tree node is an opaque value with a symbol or two children, not changed by encoding or decoding',
               'delta2: the constructor makes a table that matches its tree (bounded: checked for the shipped tables symbol by symbol, for generated tables at random); the other copies: proved for BuildCodeTable, which takes any tree',
               'BuildCodeTable: that its queue runs empty (a finite tree) is not proved; names of leaves are integers (ord of a one-character name is not modelled)']
