# property -> runs.  Each run: harness source, defines, parameters (SYM_P_*), bounds in words, labels that must be reached.
def R(src, label=None, defs=(), params=None, **kw):
    return dict(src=src, label=label or src, defs=list(defs), params=params or {}, **kw)
REG = {}

SHAPES = {0: 'one flat level', 1: 'two flat levels', 2: 'three flat levels', 3: 'one nested level', 4: 'nested level then flat level',
          5: 'flat level then nested level', 6: 'two nested levels', 7: 'two levels nested in one', 8: 'nesting depth three', 9: 'two levels nested in one, then a flat level'}
OPN = {0: 'union', 1: 'intersection', 2: 'difference', 3: 'canonicity'}
def ops_run(op, cfg, shape, nx, ny, nz=0, entry=0, thorough=False, reach=None, **p):
    par = dict(OP=op, SHAPE=shape, NX=nx, NY=ny, NZ=nz, ENTRY=entry, **p)
    b = f"{SHAPES[shape]}; operands made of {nx}+{ny}" + (f"+{nz}" if nz else '') + f" cubes; " + (
        f"flat_set valuations of {p.get('WIDE', 1)} symbolic {p.get('VB', 8)}-bit value(s)" + (', one value range per level' if p.get('SEP') else '') + (', some levels concrete' if p.get('CONC') else '')
        if cfg == 'FS' else 'bitset<8> valuations, all 256 masks' + (', singletons on some levels' if p.get('SING') else '') + (', some levels concrete' if p.get('CONC') else '') + (', some levels of the left operand one concrete value and any of two others' if p.get('HIGH') else ''))
    if reach is None:
        reach = ['end'] + (['nonempty'] if op in (1, 2) and (nx and ny) else []) + (['equal', 'different'] if op == 3 and ny else [])
    return R('ops', f'{OPN[op]}-{cfg}-sh{shape}-{nx}+{ny}+{nz}-e{entry}' + ''.join(f'-{k}{v}' for k, v in p.items()), ['CFG=' + cfg], par, bounds=b, reach=reach,
             thorough_only=thorough, budget=dict(quick=60, thorough=600))
for op, pid in ((0, 'C01'), (1, 'C02'), (2, 'C03'), (3, 'C04')):
    runs = [
        ops_run(op, 'FS', 1, 2, 2, SEP=1),
        ops_run(op, 'FS', 6, 2, 2, SEP=1),
        ops_run(op, 'FS', 4, 1, 1, SEP=1, WIDE=2),
        ops_run(op, 'FS', 9, 2, 1, SEP=1),
        ops_run(op, 'FS', 1, 3, 2, SEP=1, CONC=8),
        ops_run(op, 'FS', 5, 3, 2, SEP=1, CONC=2),
        ops_run(op, 'FS', 1, 4, 1, SEP=1, CONC=12, reach=['end']),
        ops_run(op, 'FS', 4, 4, 1, SEP=1, CONC=12, reach=['end']),
        ops_run(op, 'FS', 6, 4, 1, SEP=1, CONC=3, reach=['end']),
        ops_run(op, 'FS', 1, 4, 2, SEP=1, CONC=12, reach=['end'], thorough=True),
        ops_run(op, 'FS', 6, 4, 2, SEP=1, CONC=12, reach=['end'], thorough=True),
        ops_run(op, 'FS', 7, 2, 1, entry=1, SEP=1),
        ops_run(op, 'FS', 8, 2, 1, WIDE=1, entry=1),
        ops_run(op, 'BS', 4, 2, 1, SING=1),
        ops_run(op, 'BS', 1, 1, 1),
        ops_run(op, 'BS', 0, 2, 1),
        ops_run(op, 'BS', 1, 3, 1, CONC=7 if op == 0 else 11, reach=['end']),
        ops_run(op, 'BS', 1, 4, 1, CONC=3, HIGH=2, reach=['end'], thorough=op == 0),
        ops_run(op, 'BS', 4, 4, 1, CONC=3, HIGH=2, reach=['end'], thorough=True),
        ops_run(op, 'BS', 4, 3, 1, CONC=7 if op == 0 else 11, reach=['end']),
        ops_run(op, 'BS', 1, 3, 2, CONC=7 if op == 0 else 11, reach=['end'], thorough=op in (0, 3)),
    ]
    if op in (0, 1):
        runs += [ops_run(op, 'FS', 1, 1, 1, 1, entry=2), ops_run(op, 'FS', 6, 1, 1, 1, entry=3, SEP=1), ops_run(op, 'BS', 0, 1, 1, 1, entry=2), ops_run(op, 'BS', 4, 1, 1, 1, entry=2, SING=1, thorough=True)]
    if op == 3:
        runs += [ops_run(op, 'FS', 1, 2, 2, entry=2, SEP=1), ops_run(op, 'FS', 4, 2, 2, entry=3, SEP=1)]
    T = dict(thorough=True)
    runs += [
        ops_run(op, 'FS', 0, 2, 1, WIDE=2, **T), ops_run(op, 'FS', 1, 2, 2, VB=8, **T), ops_run(op, 'FS', 2, 2, 2, SEP=1, **T), ops_run(op, 'FS', 1, 3, 3, SEP=1, CONC=4, **T),
        ops_run(op, 'FS', 4, 3, 3, SEP=1, CONC=8, **T), ops_run(op, 'FS', 1, 2, 1, SEP=1, WIDE=2, **T), ops_run(op, 'BS', 1, 2, 1, SING=2, **T),
        ops_run(op, 'BS', 1, 2, 1, **T), ops_run(op, 'BS', 7, 2, 2, SING=1, **T),
    ]
    REG[pid] = dict(runs=runs)
REG['C26'] = dict(runs=[R('pow2', bounds='every 64-bit size in [1,2^63] and every 32-bit size in [1,2^31]', reach=['64', '32', 'end'])])
def arena_run(size, steps, t=False):
    return R('arena', f'arena-{size}-{steps}', params=dict(SIZE=size, STEPS=steps), thorough_only=t, bounds=f'arena of {size} bytes, {steps} actions (allocate 0,1,8,9,..,32,33 bytes, give back any block, mark/rewind nested up to 2)', reach=['end', 'rewound'], budget=dict(quick=90, thorough=900))
REG['C25'] = dict(runs=[arena_run(24, 4), arena_run(0, 3), arena_run(65, 4), arena_run(48, 5, True)])
def ht(fixed, size, n, steps, hb, t=False):
    return R('htable', f'htable-{"fixed" if fixed else "growing"}-{size}-{n}-{steps}-{hb}', params=dict(FIXED=fixed, SIZE=size, N=n, STEPS=steps, HB=hb), thorough_only=t,
             bounds=f'initial size {size}, {n} elements over 4 keys, all {hb}-bit hash functions, {steps} insertions/removals', reach=['end', 'erase'], budget=dict(quick=120, thorough=900))
REG['C24'] = dict(runs=[ht(0, 1, 4, 3, 1), ht(0, 4, 3, 4, 1), ht(1, 2, 3, 4, 1), ht(0, 1, 4, 3, 2, True), ht(0, 1, 4, 5, 1, True), ht(1, 2, 4, 4, 2, True), ht(0, 2, 4, 4, 3, True)])
def ca(size, steps, keys, acts, hb, t=False, reach=('end',)):
    return R('cache', f'cache-{size}-{steps}-{keys}-{acts}-{hb}', params=dict(SIZE=size, STEPS=steps, KEYS=keys, ACTS=acts, HB=hb), thorough_only=t,
             bounds=f'capacity parameter {size}, {keys} operations (nested, filtered), {steps} lookups' + ('/clears' if acts else '') + ('/failing operations' if acts > 1 else '') + f', all {hb}-bit hash functions', reach=list(reach), budget=dict(quick=90, thorough=900))
REG['C21'] = dict(runs=[ca(2, 5, 4, 1, 0, reach=('end', 'hit', 'evict', 'clear')), ca(2, 4, 6, 2, 0, reach=('end', 'throw')), ca(4, 4, 4, 1, 0), ca(2, 3, 4, 1, 1), ca(1, 3, 4, 1, 0), ca(0, 3, 4, 1, 0), ca(4, 6, 4, 2, 0, True), ca(8, 5, 6, 2, 0, True)])
def fsr(part, n, k, t=False, reach=('end',)):
    return R('flatset', f'flatset-{part}-{n}-{k}', params=dict(PART=part, N=n, K=k), thorough_only=t, bounds=f'sets made of {n} and {k} symbolic 8-bit values (any order, any repetition)', reach=list(reach), budget=dict(quick=90, thorough=900))
REG['C09'] = dict(runs=[fsr(0, 0, 0), fsr(0, 1, 0), fsr(0, 2, 0), fsr(0, 4, 0), fsr(1, 0, 2), fsr(1, 3, 2, reach=('end', 'had', 'new')), fsr(2, 3, 2, reach=('end', 'had', 'not')), fsr(3, 3, 3, reach=('end', 'same')), fsr(3, 2, 0),
                        fsr(1, 4, 2, True), fsr(2, 4, 2, True), fsr(3, 4, 3, True)])
REG['C10'] = dict(runs=[R('bitset', bounds='all pairs of masks of bitset<8>, <16>, <32>, <64>; all positions and shifts below the capacity; bitset<80> for more than one word', reach=['8', '16', '32', '64', '80', 'end'], budget=dict(quick=200, thorough=900))])

HSH = {0: 'flat 0 1 2', 1: '10{0 1} 2', 2: '0 10{1 2}', 3: '10{0} 11{1} 12{2}', 4: '11{10{0} 1} 2', 5: 'flat 0 1', 6: '10{0} 11{1}', 7: '10{0 1}', 8: '11{10{0}} 1', 9: '@{0 1} 2'}
HMD = {0: 'f', 1: 'f o g', 2: 'f + g', 3: 'id + f', 4: '(id + f)*', 5: '(id + f + g)*', 6: 'ite(s, f, g)', 7: 's & t', 8: 'ite(s & t, f, id)', 9: '(f o g) o h', 10: 'f + g + h', 11: 'f o (g o h)', 12: 'f o g + id',
       13: '(f o s + id)*', 14: 's*', 15: 'ite(s, id, f)', 16: '(id + f + g o h)*', 17: 'ite(s o t, f, g)', 18: 's & t & u', 19: '(f + id) o (g + id)', 20: 'id & s', 21: '(id + f + g + h)*', 22: 'f o g + h', 23: '(f o g) o (h o k)', 24: '(id + f)* o g', 25: '(id + f)* + g', 26: '(id + f o (id + g)*)*', 27: 'ite(s, ite(t, f, g), h)', 28: 'ite(s, f, g) + h', 29: '(f + g) + (h + id)', 30: 'f o ite(s, g, id)', 31: 'ite(s, (id + f)*, g)', 32: 'ite(s, f, id)*', 33: '(s o t) & u'}
RK = {0: 'any filter (declared selector)', 1: 'any filter', 2: 'any move of one value to another', 3: 'rotation (declared shifter)', 4: 'any relation', 5: 'increment', 6: 'increment (declared shifter)', 15: 'any filter (declared selector)'}
def hb_bounds(modes, modes2, nc):
    n = ['any mask of 4 values', 'any single value', 'concrete', 'concrete']
    return f'operand: {nc} cube(s), bitset<4> per level; first cube per level: ' + ', '.join(n[(modes >> (2 * l)) & 3] for l in range(3)) + ('; other cubes: ' + ', '.join(n[(modes2 >> (2 * l)) & 3] for l in range(3)) if nc > 1 else '')
def hm(sh, md, t=False, q=30, MODES=0b110001, MODES2=0b111011, NC=2, **p):
    par = dict(SHAPE=sh, MODE=md, NC=NC, MODES=MODES, MODES2=MODES2, **p)
    ks = (', functions in order: ' + ', '.join(RK[int(c, 16)] for c in reversed(f"{p['KSEQ']:x}")) if 'KSEQ' in p else ', functions: ' + '; '.join(RK[i] for i in range(6) if p.get('KINDS', 16) >> i & 1) if md not in (7, 14, 18, 20) else '')
    ls = 'fixed levels' if 'LSEQ' in p else 'every choice of levels'
    return R('homs', f'homs-sh{sh}-md{md}' + ''.join(f'-{k}{v:x}' for k, v in sorted(p.items())) + ('' if MODES == 0b110001 and NC == 2 else f'-M{MODES:x}-N{NC}'), params=par, thorough_only=t,
             bounds=f'order {HSH[sh]}, homomorphism {HMD[md]} ({ls}{ks}); ' + hb_bounds(MODES, MODES2, NC), reach=['end'], budget=dict(quick=q, thorough=600))
K = dict
REG['C13'] = dict(runs=[hm(s, 0, KINDS=0b101111) for s in range(9)] + [hm(s, 0, KSEQ=6) for s in (0, 1, 6, 8)] + [hm(s, 0, KSEQ=0, LSEQ=1, NC=4, MODES=0b110010, MODES2=0b110010) for s in (5, 6)] + [hm(s, 0, KINDS=16) for s in (5, 6, 7)] + [hm(s, 0, True, MODES=0, KINDS=0b101111) for s in range(9)] + [hm(s, 0, True, KINDS=16) for s in (0, 1, 2, 3, 4, 8)])
T = dict(t=True)
REG['C12'] = dict(runs=[hm(s, 1, KSEQ=0x52) for s in (0, 1, 3, 4)] + [hm(s, 1, KSEQ=0x25) for s in (1, 6, 8)] + [hm(s, 9, KSEQ=0x352) for s in (5, 7)] + [hm(s, 11, KSEQ=0x253) for s in (5, 6)] +
                  [hm(s, 2, KSEQ=0x52) for s in (0, 1, 3)] + [hm(s, 3, KSEQ=0x2) for s in (2, 3, 4)] + [hm(5, 10, KSEQ=0x352), hm(6, 10, KSEQ=0x352, LSEQ=0x01f), hm(7, 10, KSEQ=0x352, LSEQ=0x10f)] + [hm(s, 12, KSEQ=0x25) for s in (5, 6)] + [hm(5, 19, KSEQ=0x25)] +
                  [hm(s, 10, KSEQ=0x352, **T) for s in (6, 7)] + [hm(s, 1, KSEQ=0x22, **T) for s in (0, 1, 3, 4)] + [hm(s, 2, KSEQ=0x42, **T) for s in (0, 1, 3, 4)] + [hm(s, 19, KSEQ=0x22, **T) for s in (0, 4, 6, 8)] + [hm(s, 1, MODES=0, KSEQ=0x52, **T) for s in (0, 1, 3)])
REG['C16'] = dict(runs=[hm(s, 4, KSEQ=0x2) for s in range(9)] + [hm(s, 5, KSEQ=0x52, LSEQ=l) for s in (5, 6, 7, 8) for l in (0x10, 0x01)] + [hm(s, 13, KSEQ=0xf2) for s in (5,)] + [hm(6, 13, KSEQ=0xf2, LSEQ=0xf0)] + [hm(s, 14) for s in (5, 1)] + [hm(s, 16, KSEQ=0x535, LSEQ=0x010) for s in (5, 6, 7)] +
                  [hm(3, 21, KSEQ=0x535, LSEQ=0x210)] + [hm(s, 5, KSEQ=0x52, **T) for s in range(9)] + [hm(s, 16, KSEQ=0x352, **T) for s in (5, 6, 7, 8)] + [hm(s, 5, KSEQ=0x22, **T) for s in (5, 6, 7, 8)] + [hm(s, 13, KSEQ=0xf2, **T) for s in (0, 1, 3, 6)])
REG['C17'] = dict(runs=[hm(s, 6, KSEQ=0x35f) for s in (5, 6, 7)] + [hm(s, 6, LSEQ=l, KSEQ=0x35f) for s in (0, 1, 3, 4) for l in (0x210, 0x001)]+ [hm(s, 7) for s in (0, 1)] + [hm(s, 7, LSEQ=0xf1) for s in (3, 4)] + [hm(s, 8, KSEQ=0x5ff, LSEQ=0xf10) for s in (5, 6)] + [hm(s, 15, KSEQ=0x2f) for s in (5, 6)] +
                  [hm(s, 17, KSEQ=0x35ff, LSEQ=0x01f0) for s in (5, 6)] + [hm(s, 18, LSEQ=0xf10) for s in (5, 6)] + [hm(0, 18, LSEQ=0x210)] + [hm(s, 20) for s in (0, 3)] +
                  [hm(s, 8, KSEQ=0x5ff, **T) for s in (5, 6, 7)] + [hm(s, 17, KSEQ=0x35ff, **T) for s in (5, 6)] + [hm(s, 18, **T) for s in (0, 5, 6)] + [hm(s, 6, KSEQ=0x32f, **T) for s in (0, 1, 3, 4)] + [hm(s, 7, **T) for s in (3, 4)] + [hm(s, 6, MODES=0, KSEQ=0x35f, **T) for s in (5, 6)])
W = dict(REWRITE=1)
REG['C18'] = dict(runs=[hm(s, 5, KSEQ=0x52, LSEQ=l, **W) for s, l in ((5, 0x10), (5, 0x01), (6, 0x10), (7, 0x10), (8, 0x01))] + [hm(s, 5, KSEQ=0x52, LSEQ=l, **W) for s in (0, 1, 3, 4) for l in (0x20,)] + [hm(s, 4, KSEQ=0x2, **W) for s in (0, 1, 3, 4)] + [hm(s, 16, KSEQ=0x535, LSEQ=0x010, **W) for s in (5, 6, 7)] +
                  [hm(s, 10, KSEQ=0x352, LSEQ=0x01f, **W) for s in (5, 6, 7)] + [hm(s, 7, LSEQ=0xf1, **W) for s in (0, 1, 3)] + [hm(5, 18, LSEQ=0xf10, **W), hm(6, 18, LSEQ=0x010, **W)] + [hm(s, 21, KSEQ=0x535, LSEQ=0x210, **W) for s in (3, 4)] + [hm(s, 20, **W) for s in (0, 1, 6)] + [hm(s, 21, KSEQ=0x535, LSEQ=0x210, **W, **T) for s in (0, 1, 2)] + [hm(s, 22, KSEQ=0x533, LSEQ=l, **W) for s, l in ((0, 0x102), (1, 0x210), (3, 0x020))] + [hm(s, 6, KSEQ=0x35f, LSEQ=0x10f, **W) for s in (5, 6)] + [hm(s, 13, KSEQ=0xf2, LSEQ=0xf0, **W) for s in (5, 6)] +
                  [hm(s, 5, KSEQ=0x52, **W, **T) for s in range(9)] + [hm(s, 16, KSEQ=0x352, **W, **T) for s in (5, 6, 7, 8)] + [hm(s, 5, KSEQ=0x22, **W, **T) for s in (5, 6, 7, 8)] + [hm(s, 13, KSEQ=0xf2, **W, **T) for s in (0, 1, 3, 6)] + [hm(s, 10, KSEQ=0x352, **W, **T) for s in (5, 6, 7)] + [hm(s, 18, **W, **T) for s in (0, 1, 3)])
NEST = {'C12': [(5, 23, 0x5252, 0x0100), (5, 23, 0x2532, 0x0000), (6, 23, 0x5252, 0x1010), (8, 23, 0x2532, 0x1001), (3, 23, 0x3252, 0x0120), (5, 29, 0x352, 0x010), (6, 29, 0x352, 0x101), (8, 29, 0x352, 0x001)],
        'C16': [(5, 24, 0x25, 0x10), (6, 24, 0x25, 0x00), (8, 25, 0x25, 0x01), (5, 26, 0x25, 0x10), (6, 26, 0x35, 0x00), (5, 32, 0x5f, 0x10), (6, 32, 0x5f, 0x01), (7, 32, 0x5f, 0x00)],
        'C17': [(5, 27, 0x352ff, 0x10010), (6, 27, 0x355ff, 0x01101), (5, 28, 0x235f, 0x010f), (6, 28, 0x335f, 0x101f), (5, 30, 0x5f2, 0x101), (8, 30, 0x5f2, 0x010), (6, 31, 0x25f, 0x10f), (5, 33, 0xfff, 0x10f), (6, 33, 0xfff, 0x01f)]}
for c, l in NEST.items():
    REG[c]['runs'] += [hm(s, md, KSEQ=k, LSEQ=lv) for s, md, k, lv in l]
    REG['C18']['runs'] += [hm(s, md, KSEQ=k, LSEQ=lv, **W) for s, md, k, lv in l[::2]] + [hm(s, md, KSEQ=k, LSEQ=lv, **W, **T) for s, md, k, lv in l[1::2]]
def hl(sh, md, t=False, **p):
    n = {0: 'local(X, f)', 1: 'local(X, f o g)', 2: 'local(X, id + f)', 3: 'local(X, f) o local(Y, g)', 4: 'local(X, f) + local(Y, g)', 5: 'local(11, local(10, f))', 6: 'local(X, id)', 7: 'local(X, constant)'}[md]
    M = p.pop('MODES', 0b110001)
    return R('hloc', f'hloc-sh{sh}-md{md}' + ''.join(f'-{k}{v:x}' for k, v in sorted(p.items())) + (f'-M{M:x}' if M != 0b110001 else ''), params=dict(SHAPE=sh, MODE=md, MODES=M, **p), thorough_only=t, reach=['end'], budget=dict(quick=30, thorough=600),
             bounds=f'order {HSH[sh]}, {n}, every choice of levels' + ((', functions: ' + ', '.join(RK[int(c, 16)] for c in reversed(f"{p['KSEQ']:x}"))) if 'KSEQ' in p else '') + '; ' + hb_bounds(M, 0b111011, 2))
REG['C14'] = dict(runs=[hl(s, 0, KSEQ=k) for s in (1, 2, 3, 4, 6, 7, 8) for k in (2, 0)] + [hl(s, 0, KSEQ=5) for s in (1, 6)] + [hl(s, 0, KSEQ=3) for s in (4, 7)] + [hl(s, 0, KSEQ=4) for s in (6, 7)] + [hl(s, 1, KSEQ=0x52) for s in (1, 2, 7)] + [hl(s, 2, KSEQ=2) for s in (1, 3, 8)] + [hl(s, 3, KSEQ=0x52) for s in (3, 6)] +
                  [hl(6, 4, KSEQ=0x52)] + [hl(s, 5, KSEQ=2) for s in (4, 8)] + [hl(s, 6) for s in (1, 4)] + [hl(s, 7) for s in (1, 3, 8)] +
                  [hl(s, 0, True, KSEQ=2, MODES=0) for s in (1, 2, 3, 4, 6, 7, 8)] + [hl(s, 3, True, KSEQ=0x22) for s in (3, 6)] + [hl(s, 4, True, KSEQ=0x52) for s in (1, 2, 3, 4, 7, 8)] + [hl(s, 0, True, KSEQ=4) for s in (1, 2, 3, 4, 8)])
def hi(sh, v, t=False, **p):
    n = {0: 'a function at one identifier', 1: 'a function at every level', 2: 'a function at one identifier, then stop', 3: 'as the first, the other levels declared skipped', 4: 'a function at one level or none', 5: 'a function at exactly one level', 6: 'a filter at every level, declared selector', 7: 'empty on the terminal'}[v]
    M = p.pop('MODES', 0b110001)
    return R('hind', f'hind-sh{sh}-v{v}' + ''.join(f'-{k}{w:x}' for k, w in sorted(p.items())) + (f'-M{M:x}' if M != 0b110001 else ''), params=dict(SHAPE=sh, VARIANT=v, MODES=M, **p), thorough_only=t, reach=['end'], budget=dict(quick=30, thorough=600),
             bounds=f'order {HSH[sh]}, inductive definition: {n} (functions: {RK[p.get("KIND", 2)]}); ' + hb_bounds(M, 0b111011, 2))
REG['C15'] = dict(runs=[hi(s, v) for s in (0, 5) for v in range(8)] + [hi(9, 3)] + [hi(s, v) for s in (1, 2, 3, 4, 6, 7, 8) for v in (1, 5, 6)] + [hi(s, 4) for s in (1, 3, 7)] + [hi(s, 7) for s in (1, 4)] + [hi(6, 0)] +
                  [hi(s, v, True, MODES=0) for s in (0, 5, 1, 3, 4) for v in (1, 4, 5, 6)] + [hi(s, v, True, KIND=4) for s in (0, 5, 6, 7) for v in (1, 4, 5)])
def hd(sh, part, t=False):
    n = ['pairs of functions (filter declared or not, move), every level, built from two equal orders', 'every kind of combination of a move and a filter, built twice from two equal orders', 'eighteen expressions the constructors simplify, on a symbolic operand']
    return R('hid', f'hid-sh{sh}-p{part}', params=dict(SHAPE=sh, PART=part), thorough_only=t, reach=['end'] + (['same', 'different'] if part == 0 else []), bounds=f'order {HSH[sh]}: {n[part]}', budget=dict(quick=40, thorough=600))
REG['C19'] = dict(runs=[hd(s, 0) for s in (0, 1, 6)] + [hd(s, 1) for s in (0, 1, 3)] + [hd(s, 2) for s in (5, 6, 7)] + [hd(s, 0, True) for s in (3, 4)] + [hd(s, 2, True) for s in (0, 1, 3, 4)])
def orr(part, n, t=False, reach=('end',), **p):
    w = {0: f'every shape of at most {n} levels, symbolic distinct 32-bit identifiers, an artificial level or not', 1: f'every shape of 1 to {n} levels, any symbolic 32-bit identifiers, any symbolic identifier looked up',
         2: f'{n} actions (' + ', '.join('push;push nested;append;assign;construct from a list;construct with a nested builder;next;construct from a range'.split(';')[:p.get('ACTS', 8)]) + f') on three builders, symbolic 32-bit identifiers', 3: f'every shape of at most {n} levels and flat lists of at most {p.get("L", 8)}; 0 to 5 identifiers per hierarchy; symbolic identifiers'}[part]
    return R('orders', f'orders-{part}-{n}' + ''.join(f'-{k}{v}' for k, v in p.items()), params=dict(PART=part, N=n, **p), thorough_only=t, bounds=w, reach=list(reach), budget=dict(quick=90, thorough=900))
REG['C27'] = dict(runs=[orr(0, 5, reach=('end', 'artificial', 'same', 'shape')), orr(0, 7, True)])
REG['C28'] = dict(runs=[orr(1, 5, reach=('end', 'duplicate', 'notfound', 'found')), orr(1, 6, True)])
REG['C29'] = dict(runs=[orr(2, 2), orr(2, 3, ACTS=4), orr(2, 3, True), orr(2, 4, True, ACTS=3)])
REG['C30'] = dict(runs=[orr(3, 6, L=14, reach=('end', 'flatten', 'grouped')), orr(3, 7, True, L=30)])
def fo(n, e, it, w, t=False, **p):
    return R('force', f'force-{n}-{e}-{it}-w{w}' + ''.join(f'-{k}{v:x}' for k, v in p.items()), params=dict(N=n, E=e, IT=it, W=w, **p), thorough_only=t, reach=['end', 'iterated'], budget=dict(quick=60, thorough=900),
             bounds=f'{n} vertices' + ('' if p.get('CI') else ' with symbolic distinct identifiers') + f', every list of {e} hyperedges (any subsets, possibly empty' + (f'; fixed ones: {p["EFIX"]:x}' if 'EFIX' in p else '') + ')' + (f', {it} iterations' if p.get('CI') else f', 0 to {it} iterations') + ', reversed or not' + (', weights 1 to 3' if w else ''))
REG['C31'] = dict(runs=[fo(4, 2, 4, 0), fo(3, 3, 3, 0), fo(3, 2, 2, 1), fo(6, 3, 2, 0, CI=1, EFIX=0x3d), fo(6, 3, 3, 0, CI=1, EFIX=0x2c), fo(5, 2, 3, 0, True), fo(4, 3, 4, 0, True), fo(4, 2, 3, 1, True), fo(6, 3, 4, 0, True, CI=1), fo(8, 3, 3, 0, True, CI=1, EFIX=0xb9)])
def vw(part, cfg, shape, nx, t=False, **p):
    n = 'size' if part == 0 else 'paths'
    b = f"{SHAPES[shape]}; {nx} cubes; " + (f"flat_set valuations of {p.get('WIDE', 1)} symbolic {p.get('VB', 8)}-bit value(s)" + (', one value range per level' if p.get('SEP') else '') if cfg == 'FS' else 'bitset<8> valuations, all 256 masks' + (', singletons on some levels' if p.get('SING') else '')) + (', some levels concrete' if p.get('CONC') else '')
    return R('views', f'{n}-{cfg}-sh{shape}-{nx}' + ''.join(f'-{k}{v}' for k, v in p.items()), ['CFG=' + cfg], dict(PART=part, SHAPE=shape, NX=nx, **p), thorough_only=t, bounds=b, reach=['end'], budget=dict(quick=60, thorough=600))
for part, pid in ((0, 'C06'), (2, 'C07')):
    REG[pid] = dict(runs=[vw(part, 'FS', s, 3, SEP=1) for s in (1, 4, 5, 6, 7)] + [vw(part, 'FS', 9, 2, SEP=1), vw(part, 'FS', 2, 2, SEP=1), vw(part, 'FS', 8, 2), vw(part, 'FS', 1, 2, SEP=1, WIDE=2, t=True), vw(part, 'FS', 0, 2, WIDE=2), vw(part, 'FS', 0, 0), vw(part, 'BS', 0, 2), vw(part, 'BS', 1, 2, SING=1), vw(part, 'BS', 4, 2, SING=1), vw(part, 'BS', 7, 1),
                               vw(part, 'FS', 9, 3, True, SEP=1), vw(part, 'FS', 6, 4, True, SEP=1), vw(part, 'BS', 1, 2, True), vw(part, 'BS', 6, 2, True, SING=2)])
REG['C06']['runs'] += [R('views', f'size-big-{k}', ['CFG=BS', 'BIG'], dict(K=k), bounds=f'chains of {k} more levels of 8 values each (counts up to 2^{6 * k + 6}), two symbolic masks', reach=['end'], thorough_only=t, budget=dict(quick=60, thorough=600)) for k, t in ((22, False), (45, True))]
REG['C08'] = dict(runs=[R('build', f'build-{c}-vars', ['CFG=' + c], dict(PART=2), bounds='two levels (flat or nested) with the same symbolic valuation and successor and any two 8-bit variables', reach=['end', 'same', 'other'], thorough_only=c == 'BS', budget=dict(quick=60, thorough=600)) for c in ('FS', 'BS')] + [R('build', f'build-{c}-nodes', ['CFG=' + c], dict(PART=0), bounds='one or two levels: any valuation (' + v + '), any of three variables, successor zero, one or a level; nested or flat', reach=['end', 'empty', 'nonempty'], budget=dict(quick=60, thorough=600)) for c, v in (('FS', 'flat_set of 0 to 2 symbolic 8-bit values'), ('BS', 'bitset<8>, all masks'))] +
                       [R('build', f'build-{c}-order-{n}' + (f'-{few}' if few != 8 else ''), ['CFG=' + c], dict(PART=1, N=n, FEW=few), bounds=f'every shape of order of at most {n} levels, an artificial level or not; initial values: ' + v + (f' (the first {few} flat identifiers)' if few != 8 else ''), reach=['end', 'empty', 'nonempty'], thorough_only=t, budget=dict(quick=60, thorough=600))
                        for c, n, few, v, t in (('FS', 3, 8, '0 to 2 symbolic 8-bit values', False), ('FS', 5, 1, '0 to 2 symbolic 8-bit values', False), ('BS', 4, 8, 'all masks of bitset<8>', False), ('BS', 6, 8, 'all masks of bitset<8>', True), ('FS', 4, 8, '0 to 2 symbolic 8-bit values', True))])

def hf(sh, md, t=False, reach=('end', 'failed'), **p):
    n = {100: 'an inductive definition', 101: 'a sum whose operands are incompatible', 102: 'an initializer'}.get(md) or HMD[md]
    return R('hfail', f'hfail-sh{sh}-md{md}' + ''.join(f'-{k}{v:x}' for k, v in sorted(p.items())), params=dict(SHAPE=sh, MODE=md, **p), thorough_only=t, reach=list(reach), budget=dict(quick=40, thorough=600),
             bounds=f'order {HSH[sh]}, {n}' + (' rewritten' if p.get('REWRITE') else '') + ((', functions in order: ' + ', '.join(RK[int(c, 16)] for c in reversed(f"{p['KSEQ']:x}"))) if 'KSEQ' in p else '') + (f', failing at call 1 to {p.get("K", 4)}' if md < 101 else '') + '; ' + hb_bounds(0b110001, 0b111011, 2))
REG['C20'] = dict(runs=[hf(s, 0, KSEQ=k) for s, k in ((1, 2), (3, 3), (4, 2), (1, 3))] + [hf(s, 1, KSEQ=0x35) for s in (0, 1, 6)] + [hf(s, 2, KSEQ=0x35, LSEQ=0x10) for s in (0, 3, 7)] + [hf(s, 4, KSEQ=0x5, K=6) for s in (5, 6, 8)] + [hf(s, 5, KSEQ=0x35, LSEQ=0x01, K=6, REWRITE=1) for s in (5, 6)] +
                       [hf(s, 6, KSEQ=0x35f, LSEQ=0x10f) for s in (5, 7)] + [hf(s, 7, LSEQ=0xf1) for s in (5,)] + [hf(s, 100) for s in (0, 1, 3)] + [hf(s, 101, reach=('end', 'failed')) for s in (0, 1, 3, 6)] + [hf(s, 102) for s in (0, 1, 4)] +
                       [hf(6, 7, True, LSEQ=0xf1)] + [hf(s, 5, True, KSEQ=0x35, LSEQ=0x01, K=6, REWRITE=1) for s in (7, 8)] + [hf(s, 5, True, KSEQ=0x52, K=10, **r) for s in range(9) for r in ({}, W)] + [hf(s, 1, True, KSEQ=0x22, K=8) for s in range(9)] + [hf(s, 10, True, KSEQ=0x352, K=8) for s in (5, 6, 7)])
def tp(cfg, op0, ops, wide, t=False, late=0):
    v = 'one symbolic 7-bit value per level, ranges of the levels apart' if cfg == 'FS' else 'any mask of bitset<8> on the first level, one of two values on the second'
    return R('top', f'top-{cfg}-{op0}-{ops}-{wide}' + ('-late' if late else ''), ['CFG=' + cfg], dict(OP0=op0, OPS=ops, WIDE=wide, LATE=late), bounds='every pair of ten structures of at most two flat levels (different variables, flat against nested, a terminal against a level, at the root, inside a level or after it), ' + v + '; ' +
             {(0, 3): 'binary operations', (0, 5): 'binary operations and unions of three', (3, 2): 'unions of three', (5, 2): 'intersections of three'}[(op0, ops)] + (', the left operand made of two cubes' if wide else '') + (', the incompatible operand created last' if late else ''), reach=['end', 'raised', 'fine'], thorough_only=t, budget=dict(quick=120, thorough=900))
REG['C05'] = dict(runs=[tp('FS', 0, 5, 0), tp('BS', 0, 3, 0), tp('FS', 0, 3, 1), tp('FS', 5, 2, 0), tp('FS', 5, 2, 0, late=1), tp('FS', 3, 2, 0, True, late=1), tp('BS', 0, 5, 0, True), tp('BS', 5, 2, 0, True), tp('BS', 0, 3, 1, True), tp('FS', 3, 2, 1, True)])
def to(cfg, shape, nx, ny=0, t=False, reach=('end',), **p):
    b = f"{SHAPES[shape]}; {nx} cubes" + (f' minus {ny}' if ny else '') + '; ' + (f"flat_set valuations of {p.get('WIDE', 1)} symbolic {p.get('VB', 8)}-bit value(s)" + (', one value range per level' if p.get('SEP') else '') if cfg == 'FS' else 'bitset<8> valuations, all 256 masks' + (', singletons on some levels' if p.get('SING') else '')) + (', some levels concrete' if p.get('CONC') else '') + (', used as valuation and successor of another level' if p.get('TWIN') else '')
    return R('tools', f'tools-{cfg}-sh{shape}-{nx}-{ny}' + ''.join(f'-{k}{v}' for k, v in p.items()), ['CFG=' + cfg], dict(SHAPE=shape, NX=nx, NY=ny, **p), thorough_only=t, bounds=b, reach=list(reach), budget=dict(quick=60, thorough=600))
REG['C33'] = dict(runs=[to('FS', s, 3, SEP=1, reach=('end', 'shared')) for s in (1, 4, 5, 6, 7)] + [to('FS', s, 3, SEP=1, TWIN=1) for s in (1, 6)] + [to('FS', 9, 2, SEP=1), to('FS', 2, 2, 1, SEP=1), to('FS', 8, 2), to('FS', 0, 0), to('FS', 5, 2, SEP=1, TWIN=1), to('BS', 0, 2, 1), to('BS', 1, 2, 1, SING=1), to('BS', 4, 2, SING=1), to('BS', 7, 1, TWIN=1),
                        to('FS', 9, 3, t=True, SEP=1), to('FS', 6, 4, t=True, SEP=1), to('BS', 1, 2, t=True), to('BS', 6, 2, 1, t=True, SING=2)])
def ha(part, steps, t=False, **p):
    n = ['SDDs: copies, moves, swaps, assignments (also to itself and from a handle owned by the released data), containers, destructions', 'SDDs: the same and unions and differences', 'homomorphisms: copies, moves, swaps, compositions, evaluations, cache resets', 'sets of values: copies, moves, swaps, insertions, removals, unions, differences'][part]
    return R('handles', f'handles-{part}-{steps}' + ''.join(f'-{k}{v}' for k, v in p.items()), params=dict(PART=part, STEPS=steps, **p), thorough_only=t, bounds=f'{n}; every sequence of {steps} actions on {p.get("SLOTS", 3)} handles, symbolic values' + (', nested level' if p.get('NESTED') else ''), reach=['end'], budget=dict(quick=90, thorough=900))
REG['C23'] = dict(runs=[ha(0, 2), ha(0, 3, SLOTS=2, NESTED=1, ACTS=0x6d), ha(1, 2, ACTS=0x321), ha(1, 3, SLOTS=2, ACTS=0x306), ha(2, 2), ha(3, 2), ha(3, 3, SLOTS=2, ACTS=0x5b), ha(2, 3, SLOTS=2, ACTS=0x49), ha(0, 2, True, NESTED=1), ha(1, 2, True), ha(1, 2, NESTED=1, t=True), ha(0, 3, True, SLOTS=2), ha(0, 3, True), ha(1, 3, True, SLOTS=2), ha(2, 3, True), ha(3, 4, True, SLOTS=2)])
def ma(steps, nc=4, frm=0, acts=6, t=False):
    return R('managers', f'managers-{steps}-{nc}-{frm}-{acts}', params=dict(STEPS=steps, NCONF=nc, FROM=frm, ACTS=acts), thorough_only=t, reach=['end', 'refused', 'gone'], budget=dict(quick=90, thorough=900),
             bounds=f'every sequence of {steps} actions (initialize first, then initialize, destroy one copy, copy, use' + (', evaluate a homomorphism, assign/move' if acts > 4 else '') + ') on ' + {(4, 0): 'four configurations (flat_set shared by two, bitset<8> shared by two)', (2, 0): 'two configurations sharing flat_set', (2, 2): 'two configurations sharing bitset<8>'}[nc, frm] + '; symbolic values')
REG['C32'] = dict(runs=[ma(3), ma(4, 2, 0), ma(4, 2, 2), ma(4, t=True), ma(5, 2, 0, t=True), ma(6, 2, 2, 4, t=True)])
def cf(sh, md, t=False, **p):
    sz = lambda v: ', '.join(str(int(c) if c.isdigit() else [16, 32, 64, 256, 1024, 4096]['abcdef'.index(c)]) for c in reversed(f'{v:x}'[1:]))
    return R('config', f'config-sh{sh}-md{md}' + ''.join(f'-{k}{v:x}' for k, v in sorted(p.items())), params=dict(SHAPE=sh, MODE=md, MODES=0b110001 if t else 0b110101, **p), thorough_only=t, reach=['end'], budget=dict(quick=40, thorough=600),
             bounds=f"tables of {sz(p.get('TS', 0x1a421))} buckets, caches of {sz(p.get('CS', 0x1b210))} entries, buffer of {sz(p.get('AS', 0x1fc0))} bytes, in every combination; homomorphism cache reset before any of three evaluations; order {HSH[sh]}, {HMD[md]}" + (' rewritten' if p.get('REWRITE') else '') + ((', functions in order: ' + ', '.join(RK[int(c, 16)] for c in reversed(f"{p['KSEQ']:x}"))) if 'KSEQ' in p else '') + '; ' + hb_bounds(0b110001 if t else 0b110101, 0b111011, 2))
CFG_C = dict(TS=0x1a, CS=0x13210, AS=0x1f); CFG_T = dict(TS=0x18210, CS=0x1b, AS=0x1f); CFG_A = dict(TS=0x1a, CS=0x1b, AS=0x1c810); CFG_M = dict(TS=0x110, CS=0x120, AS=0x1c0)
REG['C22'] = dict(runs=[cf(5, 1, KSEQ=0x35, LSEQ=0x10, **CFG_C), cf(6, 4, KSEQ=0x5, **CFG_C), cf(5, 5, KSEQ=0x35, LSEQ=0x10, REWRITE=1, **CFG_C), cf(1, 2, KSEQ=0x35, LSEQ=0x20, **CFG_C), cf(7, 6, KSEQ=0x35f, LSEQ=0x100, **CFG_C),
                        cf(4, 1, KSEQ=0x35, LSEQ=0x01, **CFG_T), cf(6, 5, KSEQ=0x35, LSEQ=0x10, REWRITE=1, **CFG_T), cf(0, 10, KSEQ=0x535, LSEQ=0x210, **CFG_A), cf(6, 2, KSEQ=0x52, LSEQ=0x10, **CFG_A), cf(3, 12, KSEQ=0x35, LSEQ=0x20, **CFG_M), cf(8, 4, KSEQ=0x5, **CFG_M)] +
                       [cf(s, 5, True, KSEQ=0x52, LSEQ=0x10, REWRITE=1, **c) for s in (5, 6, 7, 8) for c in (CFG_C, CFG_M)] + [cf(s, 1, True, KSEQ=0x52, LSEQ=0x10, TS=0x1a421, CS=0x1b210, AS=0x1fc0) for s in (5, 6, 7)] + [cf(s, 10, True, KSEQ=0x352, LSEQ=0x210, **CFG_C) for s in (0, 1, 3, 4)])
def hs(part, b, t=False, reach=('end',), **p):
    return R('hash', f'hash-{part}' + ''.join(f'-{k}{v}' for k, v in p.items()), params=dict(PART=part, **p), thorough_only=t, bounds=b, reach=list(reach), budget=dict(quick=90, thorough=900))
REG['C11'] = dict(runs=[hs(0, 'all triples of bitset<8>, <16>, <32>, <64>'), hs(1, 'all triples of bitset<80> over three contents of the low word and three of the high one'), hs(2, 'flat_sets of two symbolic 4-bit values and SDDs of one or two levels of them, built in several ways; real hash functions', VB=4), hs(3, 'bitset<8> with two values, and SDDs of them', VB=3), hs(4, 'every pair of orders of eight shapes of at most three levels, symbolic 32-bit identifiers, artificial or not', reach=('end', 'same')), hs(5, 'five shapes of homomorphisms over two functions with symbolic 3-bit hashes'), hs(2, 'as before with 8-bit values', True, VB=8)])
def he(sh, part, md=0, t=False, reach=('end',), **p):
    M = p.get('MODES', 0b110001); b = f'order {HSH[sh]}: ' + ('identity, constants, their sums and compositions with a function on the last level (' + RK[p.get('KIND', 5)] + '), cons of any mask' if part == 0 else f'what if_then_else accepts as a predicate: {HMD[md]} with every choice of declared filters, filters and moves, and its effect' if part == 2 else f'image of a union, {HMD[md]}' + (' rewritten' if p.get('REWRITE') else '') + (', functions: ' + ', '.join(RK[int(c, 16)] for c in reversed(f"{p['KSEQ']:x}")) if 'KSEQ' in p else '')) + '; ' + hb_bounds(M, 0b111011, 2)
    return R('helem', f'helem-sh{sh}-p{part}-md{md}' + ''.join(f'-{k}{v:x}' for k, v in sorted(p.items())), params=dict(SHAPE=sh, PART=part, MODE=md, **p), thorough_only=t, bounds=b, reach=list(reach), budget=dict(quick=30, thorough=600))
REG['C12']['runs'] += [he(s, 0, reach=('end', 'cons')) for s in (0, 1, 2, 3, 5, 6)] + [he(7, 0)] + [he(s, 1, 1, KSEQ=0x52) for s in (0, 1)] + [he(s, 1, 2, KSEQ=0x32, LSEQ=0x10) for s in (3, 6)] + [he(5, 1, 5, KSEQ=0x52, LSEQ=0x10, REWRITE=1), he(8, 1, 4, KSEQ=2), he(7, 1, 6, KSEQ=0x35f, LSEQ=0x10f), he(6, 1, 7)] + \
  [he(6, 1, 5, True, KSEQ=0x52, LSEQ=0x10), he(4, 0, 0, True), he(8, 0, 0, True)] + [he(s, 0, 0, True, KIND=k, reach=('end',)) for s in range(9) for k in (2, 3, 4)] + [he(s, 1, md, True, KSEQ=0x522) for s in range(9) for md in (1, 2, 10)]
REG['C17']['runs'] += [he(s, 2, md, reach=('end', 'accepted', 'refused'), LSEQ=0x010) for s, md in ((5, 0), (6, 1), (7, 2), (5, 9), (6, 6), (8, 2), (5, 10))] + [he(s, 2, md, reach=('end', 'accepted', 'refused'), LSEQ=0x010, REWRITE=1) for s, md in ((6, 2), (5, 10))] + [he(s, 2, 4, reach=('end', 'accepted', 'refused')) for s in (5,)] + [he(6, 2, 7, reach=('end', 'accepted'), LSEQ=0x10, REWRITE=1)] + \
  [he(s, 2, md, True, reach=('end', 'accepted', 'refused')) for s in range(9) for md in (0, 1, 2)]
REG['C31']['runs'] += [R('force', f'force-dup-{n}', params=dict(N=n, DUP=1), reach=['end'] + (['refused'] if n > 1 else []), bounds=f'{n} vertices with any symbolic 32-bit identifiers', budget=dict(quick=30, thorough=60)) for n in (1, 4)]

def tx(label, defs, bounds, t=False, **p):
    return R('text', 'text-' + label + ''.join(f'-{k}{v}' for k, v in p.items()), defs, p, bounds=bounds, reach=['end'], thorough_only=t, budget=dict(quick=60, thorough=600))
def txs(cfg, shape, nx, dot, t=False, **p):
    return tx(('dot-' if dot else 'sdd-') + cfg, ['CFG=' + cfg], ('DOT export' if dot else 'stream output') + f' of SDDs: {SHAPES[shape]}; {nx} cubes; ' + ('flat_set valuations of ' + str(p.get('WIDE', 1)) + ' symbolic 8-bit value(s)' if cfg == 'FS' else 'bitset<8> valuations, all masks' + (', some levels concrete' if p.get('CONC') else '')), t, SHAPE=shape, NX=nx, DOT=dot, **p)
REG['C34'] = dict(runs=[tx('set', ['SETS=0'], 'flat_set<unsigned> of up to 4 symbolic 8-bit values', N=4), tx('set', ['SETS=0'], 'flat_set<unsigned> of up to 5 symbolic 8-bit values', True, N=5), tx('set', ['SETS=0'], 'the empty flat_set', N=0), tx('uset', ['SETS=1'], 'flat_set of a user type, up to 3 symbolic 8-bit values', N=3), tx('bits', ['SETS=2'], 'every bitset<8>'),
    tx('order', ['ORD'], 'every order of at most 4 levels, symbolic 32-bit identifiers, artificial levels', N=4), tx('order', ['ORD'], 'every order of at most 6 levels', True, N=6)] +
  [txs('FS', s, 2, d, SEP=1) for d in (0, 1) for s in (1, 4, 5, 6, 7, 8, 9)] + [txs('FS', s, 0, d) for d in (0, 1) for s in (1,)] + [txs('FS', 4, 1, d, SEP=1, WIDE=2) for d in (0, 1)] + [txs('FS', 1, 3, d, SEP=1) for d in (0, 1)] + [txs('BS', 1, 1, d, CONC=1) for d in (0, 1)] + [txs('BS', 1, 2, d, True, CONC=1) for d in (0, 1)] +
  [txs('FS', s, 3, d, True, SEP=1) for d in (0, 1) for s in (2, 4, 5, 6, 9)])
def txh(shape, md, dot, t=False, **p):
    what = {100: 'constant', 101: 'cons'}.get(md) or HMD[md]
    return tx('hom-dot' if dot else 'hom', ['HOMT'], ('DOT export' if dot else 'stream output') + f' of the homomorphism {what} on the order {HSH[shape]}; functions: any filter, any move of one value; every choice of levels', t, SHAPE=shape, MODE=md, DOT=dot, **p)
REG['C34']['runs'] += [txh(s, md, 0) for s, md in ((0, 1), (1, 2), (4, 0), (6, 4), (7, 6), (5, 7), (8, 9), (6, 13), (5, 10), (5, 100), (1, 100), (0, 101))] + [txh(s, md, 1) for s, md in ((0, 1), (1, 2), (4, 0), (6, 4), (7, 6), (8, 9), (6, 13), (5, 10), (5, 12))] + \
  [txh(s, md, d, True, KINDS=0b101111) for s in (0, 1, 3, 4, 5, 6, 7, 8) for md in (1, 2, 4, 5, 6, 9, 10, 12, 13, 15, 19) for d in (0, 1)]
