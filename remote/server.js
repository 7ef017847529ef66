// Carries out calls of the WebAssembly interface for the simulator, one per line.
const fs = require('fs'), crypto = require('crypto');
let s = 0n;
const M = (1n << 64n) - 1n;
function next() {
  s = (s + 0x9e3779b97f4a7c15n) & M;
  let z = s;
  z = ((z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n) & M;
  z = ((z ^ (z >> 27n)) * 0x94d049bb133111ebn) & M;
  return Number((z ^ (z >> 31n)) & 0xffn);
}
const fill = b => { for (let i = 0; i < b.length; i++) b[i] = next(); return b; };
crypto.randomFillSync = fill;
try { Object.defineProperty(globalThis, 'crypto', { value: { getRandomValues: fill } }); } catch (e) {}
if (crypto.webcrypto) try { crypto.webcrypto.getRandomValues = fill; } catch (e) {}
const m = require(process.argv[2]);
const arg = x => x === null ? undefined : x.b !== undefined ? new Uint8Array(Buffer.from(x.b, 'hex')) : x.s !== undefined ? x.s : x.n;
const val = r => r === undefined ? [] : r instanceof Uint8Array ? [{ b: Buffer.from(r).toString('hex') }] : typeof r === 'string' ? [{ s: r }] : [{ n: r }];
let rest = '';
const buf = Buffer.alloc(1 << 16);
for (;;) {
  let n;
  try { n = fs.readSync(0, buf, 0, buf.length, null); } catch (e) { if (e.code === 'EAGAIN') continue; throw e; }
  if (n === 0) break;
  rest += buf.toString('latin1', 0, n);
  for (let i; (i = rest.indexOf('\n')) >= 0;) {
    const q = JSON.parse(Buffer.from(rest.slice(0, i), 'latin1').toString('utf8'));
    rest = rest.slice(i + 1);
    s = BigInt(q.e);
    let r;
    try { r = { v: val(m[q.f](...q.a.map(arg))) }; }
    catch (e) { r = e instanceof WebAssembly.RuntimeError ? { crash: String(e) } : { err: String(e && e.message || e) }; }
    let o = Buffer.from(JSON.stringify(r) + '\n');
    while (o.length) {
      try { o = o.subarray(fs.writeSync(1, o)); } catch (e) { if (e.code !== 'EAGAIN') throw e; }
    }
  }
}
