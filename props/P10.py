"""CGI form data"""
from vprun import Task


def T(name, note, *d, **k):
    return Task(name, 'cgi.cpp', ['cgi_func.cpp'], 'sym', ['-D' + x for x in d], timeout=600, note=note, **k)


def tasks(tier):
    t = []
    nf, nv = (2, 3) if tier == 'quick' else (3, 5)
    for how in (0, 1, 2):
        t.append(T('urlenc%d' % how, 'any name of %d and value of %d bytes, encoded %s' % (nf if how else nf - 1, nv, ('minimally', 'as %XX', 'as %xx')[how]),
                   'MODE=1', 'NF=%d' % (nf if how else nf - 1), 'NV=%d' % nv, 'HOW=%d' % how))
        t.append(T('urlenc_more%d' % how, 'the same followed by another field', 'MODE=1', 'NF=1', 'NV=2', 'HOW=%d' % how, 'MORE=1'))
    for n, fs, vs in ((4, 2, 2), (5, 3, 2), (5, 2, 3), (6, 3, 3)) + (() if tier == 'quick' else ((7, 3, 4), (8, 2, 4), (9, 3, 3))):
        t.append(T('url_any%d_%d_%d' % (n, fs, vs), 'any text of %d bytes into buffers of %d and %d' % (n, fs, vs), 'MODE=2', 'N=%d' % n, 'FS=%d' % fs, 'VS=%d' % vs))
    for nf, nv in ((1, 2), (29, 0), (30, 1), (35, 1), (3, 4)):
        t.append(T('multi%d_%d' % (nf, nv), 'multipart: any lower-case name of %d and any value of %d bytes without -' % (nf, nv), 'MODE=3', 'NF=%d' % nf, 'NV=%d' % nv, 'BUFF=80'))
    return t
