#!/usr/bin/env python3
"""How the "fix:" commit that brings the normalization, bidi and combining
sections of src/table_blob.inc to Unicode 17 was made (not run by any check).
usage: regen_blob.py REPO dump17.txt node17.txt
Existing entries are kept; only what differs from Unicode 17 changes.
"""
import sys
repo, go, node = sys.argv[1:4]
sys.path.insert(0, repo + '/scripts')
import pack_tables as pt
N = 0x110000
s = pt.load_blob_sections()
st = ['D'] * N; bidi = [None] * N; ccc = [0] * N; nfd = {}; nfc = {}; mark = [0] * N
for line in open(go):
    if line[0] == '#': continue
    f = line.rstrip('\n').split(';'); c = int(f[0], 16)
    st[c] = f[1]; bidi[c] = f[6]; ccc[c] = int(f[7]); d = [int(x, 16) for x in f[8].split()]
    if d != [c]: nfd[c] = d
for line in open(node):
    f = line.rstrip('\n').split(';'); c = int(f[0], 16); mark[c] = int(f[1]); nfc[c] = [int(x, 16) for x in f[5].split()]
hangul = lambda c: 0xAC00 <= c < 0xAC00 + 11172
# --- decompositions: keep (flags, data), add missing canonical ones
idx, blk, dat = s['decomposition_index'], s['decomposition_block'], s['decomposition_data']
dec = {}
for c in range(N):
    r = idx[c >> 8] * 257 + c % 256
    a, e = blk[r], blk[r + 1]
    if (e >> 2) > (a >> 2): dec[c] = (a & 3, dat[a >> 2:e >> 2])
added = changed = 0
for c, d in nfd.items():
    if hangul(c): continue
    if c not in dec or dec[c][0] & 1: dec[c] = (0, d); added += 1
    elif dec[c][1] != d: print('changed', hex(c), dec[c], d); dec[c] = (dec[c][0], d); changed += 1
print('decompositions added', added, 'changed', changed, 'extra', [hex(c) for c in dec if not dec[c][0] & 1 and c not in nfd])
pages = {}; nidx = []; nblk = []; ndat = [dat[0]]
def row(cells):
    t = tuple(cells)
    if t not in pages: pages[t] = len(pages); nblk.extend(t)
    return pages[t]
def decrow(p):
    cells = []; flags_run = 0
    for c in range(p * 256, p * 256 + 256):
        if c in dec:
            fl, d = dec[c]; cells.append(len(ndat) << 2 | fl); ndat.extend(d)
        else: cells.append(len(ndat) << 2)
    cells.append(len(ndat) << 2)
    return cells
# row 0 stays a used row; pages without entries share one row at the data's start
empty = None
for p in range(N >> 8):
    if any((p << 8) <= c < (p << 8) + 256 for c in ()) or any(c in dec for c in range(p << 8, (p << 8) + 256)): nidx.append(row(decrow(p)))
    else:
        nidx.append(row([0] * 257))
s['decomposition_index'], s['decomposition_block'], s['decomposition_data'] = nidx, nblk, ndat
drows = len(pages)
# --- ccc
pages = {}; nidx = []; nblk = []
for p in range(N >> 8): nidx.append(row(ccc[p << 8:(p << 8) + 256]))
s['ccc_index'], s['ccc_block'] = nidx, nblk
crows = len(pages)
# --- composition
rev = {tuple(v): k for k, v in nfd.items() if nfc[k] == [k]}
comp = {}
for c, d in nfd.items():
    if hangul(c) or nfc[c] != [c] or len(d) < 2: continue
    comp.setdefault(d[0] if len(d) == 2 else rev[tuple(d[:-1])], []).append((d[-1], c))
pages = {}; nidx = []; nblk = []; ndat = [s['composition_data'][0]]
for p in range(N >> 8):
    if not any(c in comp for c in range(p << 8, (p << 8) + 256)): nidx.append(row([0] * 257)); continue
    cells = []
    for c in range(p << 8, (p << 8) + 256):
        cells.append(len(ndat))
        for a, b in sorted(comp.get(c, [])): ndat += [a, b]
    cells.append(len(ndat))
    nidx.append(row(cells))
s['composition_index'], s['composition_block'], s['composition_data'] = nidx, nblk, ndat
prows = len(pages)
s['_meta'] = {'decomposition_block_rows': drows, 'ccc_block_rows': crows, 'composition_block_rows': prows}
# --- combining (General_Category=M) and bidi ranges
flat = []; c = 0
while c < N:
    if mark[c]:
        j = c
        while j + 1 < N and mark[j + 1]: j += 1
        flat += [c, j]; c = j
    c += 1
s['combining_flat'] = flat
E = 'NONE BN CS ES ON EN L R NSM AL AN ET WS RLO LRO PDF RLE RLI FSI PDI LRI B S LRE'.split()
d = [0] * N
for a, b, v in zip(s['dir_start'], s['dir_final'], s['dir_value']):
    for c in range(a, b + 1): d[c] = v
for c in range(N):
    if bidi[c] and st[c] != 'D': d[c] = E.index(bidi[c])  # code points IDNA cannot carry keep their old entry
ds, df, dv = [], [], []; c = 0
while c < N:
    j = c
    while j + 1 < N and d[j + 1] == d[c]: j += 1
    if d[c]: ds.append(c); df.append(j); dv.append(d[c])
    c = j + 1
s['dir_start'], s['dir_final'], s['dir_value'] = ds, df, dv
print('rows', drows, crows, prows, 'dirs', len(ds), 'marks', len(flat) // 2, 'data', len(s['decomposition_data']), len(s['composition_data']))
pt.write_blob(s)
