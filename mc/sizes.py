"""Numbers of things: all small ones and those around powers and round ones.

Programs treat the first few, the tenth, the hundredth or the 256th thing
differently by mistake (buffers, columns, chunks, textual order of numbers);
harnesses named ``sizes`` go through the number of things in a request.
"""

ROUND = [32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024]


def sizes(tier, limit=None, step=1):
    """All sizes up to 24 (130 if thorough), and around round numbers."""
    small = 24 if tier == 'quick' else 130
    out = set(range(0, small + 1))
    limit = limit or (260 if tier == 'quick' else 1100)
    for r in ROUND:
        out |= {r - 1, r, r + 1}
    return sorted(n for n in out if n <= limit)


def names(n, stem='p'):
    """Different names none of which is part of another one."""
    return ['%s-%04d' % (stem, i) for i in range(n)]
