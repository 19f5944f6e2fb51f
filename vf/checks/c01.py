"""C01: the geometric product is the Clifford product of the metric."""
from vf import configs
from vf.checks.common import *   # noqa
from vf.checks.common import sweep_blades, sweep_shapes, sweep_generic, sweep_words, sweep_powers, sweep_scalars, chunks

OPSET = ['*']
BOUNDS = ('all symmetric metrics with entries {-1,0,1} for n<=3 (quick: n<=3), all diagonal {-1,0,1} metrics n=4, '
          'all 64 orthogonality patterns of four vectors; library metrics n<=5; all blade pairs; all operand-shape pairs; generic symbolic operands; words of multiplications; powers 0..5; scalars on either side; all 4096 blade pairs for n=6')


def jobs(tier):
    js = []

    def add(fn, **kw):
        js.append(dict(mod='c01', fn=fn, kw=kw))
    ops = OPSET
    lib = [n for n in configs.METRICS if len(configs.METRICS[n]) <= 4]
    for n in (1, 2):
        for ch in chunks(configs.sym_matrices(n, [-1, 0, 1, 2]), 60):
            add('sweep_blades', metrics=ch, ops=ops, n=n)
    m3 = list(configs.sym_matrices(3, [-1, 0, 1]))
    for ch in chunks(m3, 25):
        add('sweep_blades', metrics=ch, ops=ops, n=3)
    import itertools
    # every pattern of orthogonal pairs among four vectors
    pat = []
    for bits in itertools.product([0, 1], repeat=6):
        g = configs.diag(1, 2, -1, 3)
        for (i, j), o, v in zip(itertools.combinations(range(4), 2), bits, (2, -1, 1, 3, -2, 1)):
            g[i][j] = g[j][i] = o * v
        pat.append(g)
    for ch in chunks(pat, 8):
        add('sweep_blades', metrics=ch, ops=ops, n=4, **({} if tier != 'quick' else dict(left=[1, 2, 4, 8, 15])))
    d4 = [configs.diag(*xs) for xs in itertools.product([-1, 0, 1], repeat=4)]
    for ch in chunks(d4, 14):
        add('sweep_blades', metrics=ch, ops=ops, n=4)
    for nm in ('FULL4', 'CGA2', 'NULL4', 'TAIL4', 'S4', 'CGAo', 'D5', 'CGA3', 'S3', 'SYM2', 'UNIT3'):
        add('sweep_blades', metrics=[configs.METRICS[nm]], ops=ops, n=len(configs.METRICS[nm]))
    for nm in lib:
        add('sweep_shapes', name=nm, ops=ops)
        add('sweep_powers', name=nm, emax=5 if nm not in ('S4', 'UNIT3', 'S3') else 3)
        add('sweep_scalars', name=nm, ops=['*'])
    add('sweep_blades', metrics=[configs.diag(1, -1, 2, 1, -3, 0)], ops=ops, n=6)
    for nm in ('E3', 'M3', 'D3', 'S3', 'O3', 'FULL3', 'MIX3', 'SYM2', 'UNIT3', 'STA', 'PGA3', 'S4', 'CGA2', 'TAIL4'):
        add('sweep_generic', name=nm, ops=ops)
    for nm, dep in (('E2', 4), ('O2', 4), ('SYM2', 3), ('E3', 3), ('M3', 3), ('O3', 3), ('MIX3', 3), ('STA', 2), ('FULL4', 2), ('D4', 2)):
        add('sweep_words', name=nm, depth=dep, ops=ops)
    if tier == 'thorough':
        for ch in chunks(configs.sym_matrices(3, [-2, 0, 1, 3]), 60):
            add('sweep_blades', metrics=ch, ops=ops, n=3)
        tri = []
        for xs in itertools.product([-1, 0, 1], repeat=4):
            for off in itertools.product([0, 1], repeat=3):
                g = configs.diag(*xs)
                for i, o in enumerate(off):
                    g[i][i + 1] = g[i + 1][i] = o
                tri.append(g)
        for ch in chunks(tri, 20):
            add('sweep_blades', metrics=ch, ops=ops, n=4)
        d5 = [configs.diag(*xs) for xs in itertools.product([-1, 0, 1], repeat=5)]
        for ch in chunks(d5, 12):
            add('sweep_blades', metrics=ch, ops=ops, n=5)
        for nm in ('CGAo', 'CGA3'):
            add('sweep_generic', name=nm, ops=ops)
            add('sweep_shapes', name=nm, ops=ops, full=False)
        for nm, dep in (('E3', 4), ('O3', 4), ('STA', 3), ('FULL4', 3)):
            add('sweep_words', name=nm, depth=dep, ops=ops)
    return js
