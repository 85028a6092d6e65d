"""Model-side skip-ahead: move a model n natural words, discarding any buffered half word."""
import models as m

_R123 = tuple(m.PHILOX.values()) + tuple(m.THREEFRY.values())


def mskip(mdl, n):
    if isinstance(mdl, _R123):
        mdl.skip(n)
        if not mdl.q:               # the implementation loads the block it lands on
            v = mdl.nat()
            mdl.q.insert(0, v)
    elif isinstance(mdl, (m.AESCounter, m.SPECK128)):
        pos = (2 * mdl.ctr - len(mdl.q) + n) % (1 << 129)
        mdl.ctr, odd = divmod(pos, 2)
        mdl.q = []
        if odd:
            mdl.nat()
    elif isinstance(mdl, (m.Squares64, m.Squares32)):
        mdl.ctr = (mdl.ctr + n) & m.M64
    elif isinstance(mdl, m.LCG128):
        mdl.skip(n % (1 << 128))
    elif isinstance(mdl, m.PCG32):
        mdl.state = m.lcg_skip(mdl.state, mdl.MUL, mdl.inc, n, 64)
    else:
        raise TypeError(type(mdl))
    if hasattr(mdl, 'has'):
        mdl.has = 0
    return mdl


def period_bits(cfg):
    """log2 of the number of natural words after which the stream repeats"""
    c = cfg.cls.__name__
    if c in ('AESCounter', 'SPECK128'):
        return 129
    if c in ('Philox', 'ThreeFry'):
        n, w = cfg.kw['number'], cfg.kw['width']
        return n * w + (2 if n == 4 else 1)
    return {'PCG32': 64, 'Squares': 64}.get(c, 128)
