#!/usr/bin/env python3
"""Writes ../ucd17.inc (the reference model's Unicode 17 data) from two
independent Unicode 17 sources, neither of which is /repo:
  dump17.txt  Go 1.27's vendored x/net/idna + x/text (see dump.go.txt)
  node17.txt  Node 22's ICU 78 (see dump_node.js)
usage: build_refdata.py dump17.txt node17.txt
Where both expose a property (NFD, marks) they are required to agree.
"""
import sys
from pathlib import Path
go, node = sys.argv[1:3]
N = 0x110000
status = ['D'] * N; mapping = {}; join = ['U'] * N; virama = []; bidi = ['L'] * N; ccc = [0] * N; nfd = {}
for line in open(go):
    if line[0] == '#': continue
    c, st, mp, jt, vm, md, bd, cc, nf = line.rstrip('\n').split(';')
    c = int(c, 16)
    assert st in 'VMID' and len(st) == 1, line
    status[c] = st
    if st == 'M': mapping[c] = [int(x, 16) for x in mp.split()]
    join[c] = jt; bidi[c] = bd; ccc[c] = int(cc)
    if vm == '1': virama.append(c)
    nf = [int(x, 16) for x in nf.split()]
    if nf != [c]: nfd[c] = nf
mark = [0] * N; ids = [0] * N; idc = [0] * N; comp = []
nfc = {}
for line in open(node):
    c, m, s, k, nd, nc = line.rstrip('\n').split(';')
    c = int(c, 16); mark[c] = int(m); ids[c] = int(s); idc[c] = int(k)
    nd = [int(x, 16) for x in nd.split()]; nc = [int(x, 16) for x in nc.split()]
    assert nfd.get(c, [c]) == nd, hex(c)
    nfc[c] = nc
# Primary composites: those NFC keeps. The last step's pair is (NFC(all but the last), last).
def hangul(c): return 0xAC00 <= c < 0xAC00 + 11172
rev = {tuple(v): k for k, v in nfd.items() if nfc[k] == [k]}
for c, d in sorted(nfd.items()):
    if hangul(c) or nfc[c] != [c] or len(d) < 2: continue
    a = d[0] if len(d) == 2 else rev[tuple(d[:-1])]
    comp.append((a, d[-1], c))
assert len({(a, b) for a, b, _ in comp}) == len(comp)
def ranges(arr, skip):
    out = []; i = 0
    while i < N:
        v = arr[i]; j = i
        while j + 1 < N and arr[j + 1] == v: j += 1
        if v != skip: out.append((i, j, v))
        i = j + 1
    return out
BID = 'L R AL AN EN ES CS ET ON BN NSM B S WS Control LRO RLO LRE RLE PDF LRI RLI FSI PDI'.split()
o = ['// Generated by gen/build_refdata.py. Unicode 17.0.0.']
def emit(name, rows, ty):
    o.append(f'static const {ty} {name}[] = {{')
    line = ''
    for r in rows:
        s = ('{' + ','.join(str(x) for x in r) + '},') if isinstance(r, tuple) else f'{r},'
        if len(line) + len(s) > 118: o.append(line); line = ''
        line += s
    if line: o.append(line)
    o.append('};')
emit('kStatus', [(a, b, 'VMI'.index(v)) for a, b, v in ranges(status, 'D')], 'Rng')
pool = []; rows = []
for c in sorted(mapping): rows.append((c, len(pool), len(mapping[c]))); pool += mapping[c]
emit('kMapPool', pool, 'uint32_t'); emit('kMap', rows, 'Seq')
emit('kJoin', [(a, b, "LDTR".index(v)) for a, b, v in ranges(join, 'U')], 'Rng')
emit('kVirama', virama, 'uint32_t')
emit('kBidi', [(a, b, BID.index(v)) for a, b, v in ranges(bidi, 'L')], 'Rng')
emit('kMark', ranges(mark, 0), 'Rng')
emit('kIdStart', ranges(ids, 0), 'Rng'); emit('kIdContinue', ranges(idc, 0), 'Rng')
emit('kCcc', ranges(ccc, 0), 'Rng')
pool = []; rows = []
for c in sorted(nfd):
    if hangul(c): continue
    rows.append((c, len(pool), len(nfd[c]))); pool += nfd[c]
emit('kNfdPool', pool, 'uint32_t'); emit('kNfd', rows, 'Seq')
emit('kComp', [tuple(x) for x in comp], 'Cmp')
Path(__file__).resolve().parent.parent.joinpath('ucd17.inc').write_text('\n'.join(o) + '\n')
print('mapped', len(mapping), 'comp', len(comp), 'virama', len(virama))
assert sorted(virama) == [c for c in range(N) if ccc[c] == 9], 'virama != ccc 9'
