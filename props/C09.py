from contracts.lru import contracts as CONTRACTS, F, G
FILES = [([G, F], 2)]
HARNESS = [dict(lang='jython', script='jy_delta2.py', args=['lru'], rule='sequences of up to 60 operations (Store, Reserve, PopOne, Lookup, FindKeyValEntries; InsertVal and the index translations of Storage) with limits of 0, 1, few and many, against a list model. A case is non-trivial when distinct')]
HARNESS_BUDGET = 12
LEVEL = 'proof'
BOUNDED = 'KV and RefCntString (what an entry answers about itself) are run on the real code only'
ASSUMPTIONS = ['KV.key(), KV.val() and KV.ByteSize() answer what was given to the constructor and do not change while the entry is stored (ghost fields); this fails if a string of a stored entry gets its first other holder later, which the codec never does: it stores an entry that shares its strings with one that is never released',
               'the limits are not negative; when numbers wrap around, max_items is given and at most max_seq_num - offset (the codec sets it so)',
               'the pop callback does not touch the store', 'hash() of a string is a fixed (uninterpreted) function of it']
