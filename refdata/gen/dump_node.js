// Dumps, per code point, the properties Node's bundled ICU (Unicode 17) exposes.
// cp;M;ID_Start;ID_Continue;NFD;NFC   (run: node dump_node.js OUT)
const fs = require('fs');
if (process.versions.unicode !== '17.0') throw new Error('need Unicode 17 ICU, have ' + process.versions.unicode);
const hex = s => [...s].map(c => c.codePointAt(0).toString(16).toUpperCase()).join(' ');
const out = [];
const M = /^\p{M}$/u, S = /^\p{ID_Start}$/u, C = /^\p{ID_Continue}$/u;
for (let c = 0; c <= 0x10FFFF; c++) {
  if (c >= 0xD800 && c <= 0xDFFF) continue;
  const s = String.fromCodePoint(c);
  out.push([c.toString(16).toUpperCase(), +M.test(s), +S.test(s), +C.test(s), hex(s.normalize('NFD')), hex(s.normalize('NFC'))].join(';'));
}
fs.writeFileSync(process.argv[2], out.join('\n') + '\n');
