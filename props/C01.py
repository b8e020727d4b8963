from contracts import bitbucket as _b
from engine.symex import Program as _P
FILES, CONTRACTS, ASSUMPTIONS = [], [], []


def _func(f, name):
    """the text of one method, from its def to the next one"""
    t = _b.text(f).split('\n  def %s(' % name)
    return t[1].split('\n  def ')[0] if len(t) == 2 else None


_seen = {}
for _f in _b.COPIES:
    _rels = [_f, _f.replace('bit_bucket', 'common_utils')]
    FILES.append((_rels, 2))
    _s2l = _b.text(_rels[1]).split('def StrToList')[-1].split('\ndef ')[0]
    for _c in _b.contracts_for(_f):
        _n = _c.key.split('.')[-1]
        _src = _func(_f, _n)
        _k = (_n, _src, _s2l)
        if _src is not None and _k in _seen:
            _c.verify = False
            _c.same_as = _seen[_k]
            _c.why_trusted = 'its source text is identical to that of %s (compared on this run), which is verified against the same contract' % _seen[_k]
        else:
            _seen[_k] = _c.key
        CONTRACTS.append(_c)
for _c in CONTRACTS:
    if _c.key.endswith('.StoreBits'):
        _c.split = 16
        _c.weight = 10
LEMMAS = _b.FIFO
HARNESS = [dict(lang='jython', script='jy_bitbucket.py', rule='random sequences of stores of random widths and values (all alignments) interleaved with reads, on all five copies, against a list of bits')]
HARNESS_BUDGET = 15
LEVEL = 'proof'
