"""base-62 digits and numbers"""
from vprun import Task
SRC = ['unpack.cpp', 'snprintf.cpp']


def T(name, note, *d, **k):
    return Task(name, 'mutant.cpp', SRC, 'sym', ['-D' + x for x in d], timeout=250, note=note, **k)


def tasks(tier):
    t = [T('chars', 'every char value', 'MODE=1'), T('values', 'every int', 'MODE=2')]
    for nd in range(1, 6):
        t.append(T('enc%d' % nd, 'every value from 0 to min( 70 * 62^n, 2^31 - 1) in n = %d digits' % nd, 'MODE=3', 'ND=%d' % nd, 'LO=0', 'HI=%d' % min(2147483647, 62**nd * 70)))
        if nd < 5 or tier != 'quick':
            t.append(T('dec%d' % nd, 'every %d bytes' % nd, 'MODE=4', 'ND=%d' % nd, weight=nd))
    return t
