// Development-time comparison of the reference model with another engine:
//   mc dump C01 quick | node tools/node_compare.js
const rl = require('readline').createInterface({input: process.stdin});
let n = 0, agree = 0; const diff = new Map();
rl.on('line', l => {
  const [kind, want, hex] = l.split(' ');
  if (want === '-' || !hex) return;
  n++;
  const b = Buffer.from(hex, 'hex');
  let ok; try { ok = WebAssembly.validate(b) } catch (e) { ok = false }
  if (ok === (want === 'accept')) { agree++; return }
  let why = '';
  if (!ok) { try { new WebAssembly.Module(b) } catch (e) { why = String(e.message).replace(/@\+\d+/, '').replace(/\d+/g, 'N').slice(0, 110) } }
  const key = (ok ? 'node accepts, model says ' + want : 'node rejects (' + why + ')');
  const d = diff.get(key) || {count: 0, ex: hex}; d.count++; if (hex.length < d.ex.length) d.ex = hex; diff.set(key, d);
});
rl.on('close', () => {
  console.log(`${n} compared, ${agree} agree`);
  for (const [k, d] of [...diff].sort((a, b) => b[1].count - a[1].count).slice(0, 40)) console.log(`  ${d.count}  ${k}  e.g. ${d.ex.slice(0, 160)}`);
});
