PROPS = {
    'T08': ('permutation', 'proof'),
    'T01': ('purity', 'proof'),
    'T09': ('binarypool', 'proof'),
    'T05': ('rational', 'proof'),
    'T26': ('euclid', 'proof'),
    'T10': ('formal', 'proof'),
    'T03': ('storage', 'proof'),
    'T04': ('storage', 'proof'),
    'T02': ('matops', 'proof'),
    'T07': ('matops', 'proof'),
    'T27': ('matops', 'proof'),
    'T06': ('snf', 'proof'),
    'T29': ('numeric', 'proof'),
    'T11': ('graphs', 'proof'),
    'T20': ('cubes', 'proof'),
    'T18': ('simplices', 'proof'),
    'T19': ('simplices', 'proof'),
    'T28': ('matops', 'proof'),
    'T12': ('homology', 'proof'),
    'T16': ('calculus', 'other'),
}
