"""any bytes in: packing, unpacking"""
from vprun import Task
SRC = ['mpc_fmt.cpp', 'unpack.cpp', 'snprintf.cpp']
ANY = (32, 126)


def rng(**k):
    d = []
    for n, c in k.items():
        d += ['-D%sL=%d' % (n, c[0]), '-D%sH=%d' % (n, c[1])]
    return d


def U(name, note, C0, C4, C5=ANY, w=3):
    return Task(name, 'unpack_any.cpp', SRC, 'sym', ['-DLEN=12'] + rng(C0=C0, C4=C4, C5=C5), timeout=600, note='unpacking: ' + note, weight=w)


def P(name, n, note, C0=ANY, C1=ANY, w=1):
    return Task(name, 'pack_any.cpp', SRC, 'sym', ['-DLEN=%d' % n] + rng(C0=C0, C1=C1), timeout=600, note='packing: ' + note, weight=w)


def tasks(tier):
    t = []
    O = ord
    S = (O('S'), O('S'))
    C4 = [('low', (32, 47)), ('digit', (48, 57)), ('mid', (58, 82)), ('S', S), ('high', (84, 126))]
    if tier == 'quick':
        t.append(U('un_dollar', 'any twelve printable bytes after a $', (36, 36), ANY, w=1))
        t.append(U('un_blank', 'any twelve bytes with blanks in columns 1 and 5', (32, 32), (32, 32)))
        t.append(U('un_blank_S', 'a blank in column 1, an S in column 5', (32, 32), S, w=5))
        t.append(U('un_tilde', 'a ~ in column 1, a digit in column 5', (126, 126), (48, 57), w=5))
        t.append(U('un_number', 'digits in columns 1 and 5', (48, 57), (48, 57)))
        t.append(U('un_comet', 'a digit in column 1, a P in column 5', (48, 57), (O('P'), O('P'))))
        t.append(U('un_J_S', 'a J in column 1, an S in column 5', (O('J'), O('J')), S, w=4))
    else:
        for n0, c0 in (('blank', (32, 32)), ('low', (33, 35)), ('dollar', (36, 36)), ('punct', (37, 64)), ('upper', (65, 90)), ('lower', (91, 125)), ('tilde', (126, 126))):
            for n4, c4 in C4:
                t.append(U('un_%s_%s' % (n0, n4), 'column 1 in %d-%d, column 5 in %d-%d' % (c0 + c4), c0, c4))
    for n in range(1, 8 if tier == 'quick' else 9):
        t.append(P('pack%d' % n, n, 'any %d printable bytes' % n, w=n // 3))
    for n in (8, 9, 10) if tier == 'quick' else (8, 9, 10, 11, 12):
        t.append(P('pack_year%d' % n, n, 'any %d printable bytes starting with two digits' % n, (48, 57), (48, 57), w=2))
        t.append(P('pack_comet%d' % n, n, 'any %d printable bytes starting with C/ or D/' % n, (O('C'), O('D')), (O('/'), O('/')), w=2))
    for n in (8, 11, 12, 13, 14, 20):
        t.append(P('pack_long%d' % n, n, 'any %d printable bytes starting with a lower-case letter' % n, (97, 122)))
        t.append(P('pack_long_upper%d' % n, n, 'any %d printable bytes starting with F-I (no planet) and not / next' % n, (70, 73), (48, 126)))
    for n in (12,) if tier == 'quick' else (12, 13, 15):
        t.append(P('pack_sat%d' % n, n, 'any %d printable bytes starting with S/' % n, (83, 83), (47, 47)))
    t.append(P('pack_paren9', 9, 'any 9 printable bytes starting with ( and a digit', (40, 40), (48, 57), w=2))
    for n, lead, tail in ((7, 3, ' x'), (8, 1, ''), (13, 1, '')) + (() if tier == 'quick' else ((5, 2, ''), (6, 0, ''), (9, 0, ' '), (12, 2, ''))):
        t.append(Task('unaligned%d' % n, 'unaligned.cpp', SRC, 'sym', ['-DLEN=%d' % n, '-DLEAD=%d' % lead, '-DTAIL="%s"' % tail], timeout=600,
                      note='unaligned: %d blanks, any %d non-blank bytes' % (lead, n), weight=3))
    return t
