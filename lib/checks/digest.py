"""C25: the content digests (Digest.tla)."""
import build, tlc, suite
from suite import Item
from . import load
from .api import ASAN


def bytes_at(a, n):
    """Bytes of MCDigest"""
    return bytes(((a + k) * (a + k + 3) * 7 + (a + k) // 5) % 256 for k in range(1, n + 1))


def parts_item(parts, **kw):
    def rec(rs):
        r = rs[0]
        if 'exc' in r: raise suite.Bad('an exception: ' + r['exc'])
        return [{'k': 'text', 'b': list(b''.join(parts)), 'hs': r['hs'], 'early': r['early']}]
    return Item([{'op': 'md5parts', 'partsx': [p.hex() for p in parts]}], rec, info=b''.join(parts)[:200].hex(), **kw)


def read_item(kind, text, **kw):
    b = text.encode() if isinstance(text, str) else text

    def rec(rs):
        r = rs[0]
        if 'exc' in r: return []          # refused
        return [{'k': 'read', 'b': list(b), 'hs': r['hs']}]
    return Item([{'op': 'digests', 'kind': kind, 'textx': b.hex()}], rec, info=b[:200].decode('utf-8', 'replace'), **kw)


def cut(rng, b):
    ks = sorted(rng.randint(0, len(b)) for _ in range(rng.choice([0, 1, 1, 2, 5])))
    return [b[i:j] for i, j in zip([0] + ks, ks + [len(b)])]


def c25(ctx):
    exe = build.core(True)
    rng = ctx.rng
    lens = '{0, 1, 55, 56, 63, 64, 65}' if not ctx.thorough else '{0, 1, 2, 8, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128}'
    r = tlc.model('MCDigest', consts={'Lens': lens, 'Pieces': '3', 'Emit': 'TRUE'}, timeout=800)
    ctx.model(r, 'MCDigest(pieces of %s bytes, up to 3)' % lens)
    items = []
    for c in r.printed('CASE'):
        ps, a = [], 0
        for n in c['parts']: ps.append(bytes_at(a, n)); a += n
        items.append(parts_item(ps))
    suite.run(ctx, exe, 'TraceDigest', items, 'the pieces of the model', env=ASAN)
    items = [parts_item(cut(rng, bytes(rng.randint(0 if rng.random() < 0.2 else 1, 255) for _ in range(n))))
             for n in list(range(0, ctx.n(200, 700))) + [rng.randint(700, ctx.n(3000, 60000)) for _ in range(ctx.n(10, 60))]]
    # texts that differ in one place
    for _ in range(ctx.n(60, 1000)):
        b = bytearray(rng.randint(1, 255) for _ in range(rng.randint(1, 150)))
        k = rng.randrange(len(b)); b2 = bytearray(b); b2[k] ^= 1 << rng.randint(0, 7)
        items += [parts_item([bytes(b)]), parts_item([bytes(b2)])]
    suite.run(ctx, exe, 'TraceDigest', items, 'digests of texts', env=ASAN)
    ctx.exhaustive = None
    its = [read_item('g', t) for t in load.gmr_texts(ctx, ctx.n(500, 5000)) + load.gsamples(ctx.n(4, 40)) + load.gmr_texts(ctx, ctx.n(10, 200), True)]
    its += [read_item('l', t) for t in load.lex_texts(ctx, ctx.n(500, 5000)) + load.reduced_samples(ctx, ctx.n(10, 100), 40) + load.lex_texts(ctx, ctx.n(10, 200), True)]
    # the lexicons and grammars of the model's lines
    for _ in range(ctx.n(150, 2000)):
        its.append(read_item('l', '\n'.join([rng.choice(load.LLINES[:2])] + [rng.choice(load.LLINES[2:4] + load.LLINES[8:9] + ['LEXENTRY:\tC\tD\tWORD\t\r', '\r', '\xa0']) for _ in range(rng.randint(0, 4))]) + rng.choice(['', '\n', '\n\n', '\r\n'])))
    suite.run(ctx, exe, 'TraceDigest', its, 'digests of grammars and lexicons', env=ASAN, chunk=64)
    ctx.notes.append('texts of every length up to %d bytes fed in pieces; grammars and lexicons read from a stream, a text, a file, a handle and a compiled form' % ctx.n(199, 699))
