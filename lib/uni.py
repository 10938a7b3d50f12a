"""Character tables for the specification, from Python's Unicode database."""
import unicodedata as U


def _strings(x, acc):
    if isinstance(x, str):
        acc.update(x)
    elif isinstance(x, (list, tuple)):
        for y in x: _strings(y, acc)
    elif isinstance(x, dict):
        for k, y in x.items():
            acc.update(k); _strings(y, acc)


def kind(c):
    g = U.category(c)
    if g[0] == 'L': return 'L'
    if g == 'Nd': return 'N'
    if g == 'Mn': return 'M'
    if g[0] == 'M': return 'C'
    if g[0] == 'P': return 'P'
    if g[0] == 'Z' or c in '\t\n\r\f\v\x85\x1c\x1d\x1e\x1f': return 'W'
    return 'O'


def closure(chars):
    todo, seen = list(chars), set()
    while todo:
        c = todo.pop()
        if c in seen or 0xD800 <= ord(c) < 0xE000: continue
        seen.add(c)
        for t in (c.upper(), c.lower(), U.normalize('NFD', c), U.normalize('NFC', c)):
            for d in t:
                if d not in seen: todo.append(d)
    return seen


def tables(objs, extra=''):
    acc = set(extra) | {'\u0130'}
    _strings(objs, acc)
    cs = closure(c for c in acc)
    # composites reachable from the marks and bases present
    marks = [c for c in cs if U.category(c)[0] == 'M']
    comp = {}
    todo = list(cs)
    while todo:
        b = todo.pop()
        for m in marks:
            n = U.normalize('NFC', b + m)
            if len(n) == 1:
                comp[b + m] = n
                if n not in cs:
                    cs.add(n); todo.append(n)
                    for d in closure([n]):
                        if d not in cs: cs.add(d); todo.append(d)
    todo = True
    while todo:
        hang = [c for c in cs if 0x1100 <= ord(c) < 0x1200 or 0xAC00 <= ord(c) < 0xD7A4]
        todo = False
        for a in hang:
            for b in hang:
                n = U.normalize('NFC', a + b)
                if len(n) == 1:
                    comp[a + b] = n
                    if n not in cs: cs.add(n); todo = True
    kinds = {c: kind(c) for c in cs if ord(c) > 127 or c in '\v\f\x1c\x1d\x1e\x1f'}
    up = {c: list(c.upper()) for c in cs if ord(c) > 127 and c.upper() != c}
    dec = {c: list(U.normalize('NFD', c)) for c in cs if U.normalize('NFD', c) != c}
    ccc = {c: U.combining(c) for c in cs if U.combining(c)}
    ords = {c: ord(c) for c in cs | set(map(chr, range(32, 127))) | {'\t', '\n', '\r'}}
    return {'bom': '\ufeff', 'ord': ords, 'kind': kinds, 'up': up, 'dec': dec, 'ccc': ccc, 'comp': comp, 'second': {**{p[-1]: 1 for p in comp}, '': 1}, 'vt': '\v', 'dotI': '\u0130'}
