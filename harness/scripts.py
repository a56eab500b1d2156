"""Shared by the harnesses for the command-line scripts."""
from xigt.codecs import xigtxml
from harness.corpora import describe, difference


def outcome(main, arglist):
    """what the command does: None, or the exit status it ends with"""
    try:
        main(arglist)
    except SystemExit as ex:
        return 'exit', ex.code
    return 'done', None


def natural(s):
    """the parts of a string: texts and numbers in turn, beginning with a text"""
    parts = ['']
    digit = False
    num = ''
    for c in s:
        if c.isdecimal():
            if not digit:
                num = ''
            num = num + c
            digit = True
        else:
            if digit:
                parts.append(int(num))
                parts.append('')
            digit = False
            parts[-1] = parts[-1] + c
    if digit:
        parts.append(int(num))
        parts.append('')
    return parts


def compare(a, b):
    for x, y in zip(a, b):
        if x < y:
            return -1
        if y < x:
            return 1
    return len(a) - len(b)


def ordered(objs, keys):
    """objs in stable order of their keys (lists of strings or None)"""
    ks = [[natural(k or '') for k in key] for key in keys]

    def before(a, b):
        for x, y in zip(a, b):
            c = compare(x, y)
            if c != 0:
                return c < 0
        return False
    out = []
    for i in range(len(objs)):
        j = len(out)
        while j > 0 and before(ks[i], ks[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    return [objs[i] for i in out]
