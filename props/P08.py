"""bounded string helpers"""
from vprun import Task
NAMES = {1: 'strlcpy', 2: 'strlcat', 3: 'strlcpy_err', 4: 'strlcat_err', 5: 'snprintf_append', 6: 'snprintf_err', 7: 'snprintf_append_trunc'}


def tasks(tier):
    N, D = (7, 9) if tier == 'quick' else (9, 12)
    return [Task(n, 'strings.cpp', ['snprintf.cpp'], 'sym', ['-DN=%d' % N, '-DD=%d' % D, '-DMODE=%d' % m, '-DMINSIZE=%d' % (0 if m in (1, 2) else 1)], timeout=900,
                 note='%s: every source string of up to %d bytes, every destination size up to %d, every length already used' % (n, N, D)) for m, n in NAMES.items()]
