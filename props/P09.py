"""variable star designations"""
from vprun import Task


def T(name, note, *d):
    return Task(name, 'varstar.cpp', ['miscell.cpp'], 'sym', ['-D' + x for x in d], timeout=250, note=note)


def tasks(tier):
    return [T('letters', 'numbers 1-334', 'MODE=1'), T('v3', 'numbers 335-999', 'MODE=2', 'LO=335', 'HI=999'),
            T('v4', 'numbers 1000-9999', 'MODE=2', 'LO=1000', 'HI=9999'), T('pairs', 'every pair of upper-case letters', 'MODE=3')]
