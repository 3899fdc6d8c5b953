// Loads the repository's JavaScript client (transpiled into a scratch folder, with a small stand-in for umi) and hands it to the demonstration.
const fs = require('fs'), path = require('path'), os = require('os');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const SRC = path.join(process.cwd(), 'clients/js/src');
const OUT = fs.mkdtempSync(path.join(os.tmpdir(), 'jsdemo.'));
process.on('exit', () => fs.rmSync(OUT, { recursive: true, force: true }));
(function walk(d, o) {
  fs.mkdirSync(o, { recursive: true });
  for (const f of fs.readdirSync(d)) {
    const p = path.join(d, f);
    if (fs.statSync(p).isDirectory()) walk(p, path.join(o, f));
    else if (f.endsWith('.ts')) fs.writeFileSync(path.join(o, f.replace(/\.ts$/, '.js')), ts.transpileModule(fs.readFileSync(p, 'utf8'), { compilerOptions: { module: 'CommonJS', target: 'ES2022' } }).outputText);
  }
})(SRC, path.join(OUT, 'src'));
const N = path.join(OUT, 'node_modules/@metaplex-foundation/umi'); fs.mkdirSync(N, { recursive: true });
const ser = `
const int = n => () => ({ fixedSize: n, serialize: v => { let x = BigInt(v); const b = []; for (let i = 0; i < n; i++) { b.push(Number(x & 255n)); x >>= 8n; } if (x) throw new Error('range'); return b; }, deserialize: (b, o) => { let x = 0n; for (let i = n - 1; i >= 0; i--) x = x * 256n + BigInt(b[o + i]); return [n > 4 ? x : Number(x), o + n]; } });
exports.u8 = int(1); exports.u16 = int(2); exports.u32 = int(4); exports.u64 = int(8); exports.u128 = int(16);
const A = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
exports.un58 = s => { let n = 0n; for (const c of s) n = n * 58n + BigInt(A.indexOf(c)); const b = []; for (let i = 0; i < 32; i++) { b.unshift(Number(n & 255n)); n >>= 8n; } return b; };
exports.to58 = b => { let n = 0n; for (const x of b) n = n * 256n + BigInt(x); let s = ''; while (n) { s = A[Number(n % 58n)] + s; n /= 58n; } for (const x of b) { if (x) break; s = '1' + s; } return s; };
exports.publicKey = () => ({ fixedSize: 32, serialize: v => exports.un58(typeof v === 'string' ? v : v.publicKey), deserialize: (b, o) => [exports.to58(b.slice(o, o + 32)), o + 32] });
exports.struct = fields => ({ fixedSize: fields.reduce((a, [, s]) => a === null || s.fixedSize === null ? null : a + s.fixedSize, 0), serialize: v => fields.flatMap(([k, s]) => s.serialize(v[k])), deserialize: (b, o = 0) => { const r = {}; for (const [k, s] of fields) [r[k], o] = s.deserialize(b, o); return [r, o]; } });
exports.array = (s, { size }) => ({ fixedSize: size * s.fixedSize, serialize: v => v.flatMap(x => s.serialize(x)), deserialize: (b, o) => { const r = []; for (let i = 0; i < size; i++) { let x; [x, o] = s.deserialize(b, o); r.push(x); } return [r, o]; } });
exports.option = s => ({ fixedSize: null, serialize: v => v === null || v === undefined || v.__option === 'None' ? [0] : [1, ...s.serialize(v.__option === 'Some' ? v.value : v)], deserialize: (b, o) => b[o] ? (([x, p]) => [{ __option: 'Some', value: x }, p])(s.deserialize(b, o + 1)) : [{ __option: 'None' }, o + 1] });
exports.scalarEnum = e => ({ fixedSize: 1, serialize: v => [typeof v === 'number' ? v : e[v]], deserialize: (b, o) => [b[o], o + 1] });
exports.mapSerializer = (s, f, g) => ({ ...s, serialize: v => s.serialize(f(v)), deserialize: (b, o) => { const [v, p] = s.deserialize(b, o); return [g ? g(v) : v, p]; } });
`;
fs.writeFileSync(path.join(N, 'serializers.js'), ser);
fs.writeFileSync(path.join(N, 'index.js'), `
exports.isPda = v => Array.isArray(v) && v.length === 2; exports.isSigner = v => !!v && typeof v === 'object' && 'signMessage' in v;
exports.publicKey = v => typeof v === 'string' ? v : Array.isArray(v) ? v[0] : v.publicKey;
exports.transactionBuilder = items => ({ items, getInstructions: () => items.map(i => i.instruction) });
exports.ProgramError = class extends Error { constructor(m, program, cause) { super(m); this.program = program; this.cause = cause; } };
exports.some = v => ({ __option: 'Some', value: v }); exports.none = () => ({ __option: 'None' });
exports.assertAccountExists = () => {};
exports.deserializeAccount = (raw, s) => { const { data, ...header } = raw; return { ...s.deserialize(data, 0)[0], publicKey: raw.publicKey, header }; };
exports.gpaBuilder = (context, program) => ({ program, fields: {}, filters: [], registerFields(f) { return { ...this, fields: f }; }, deserializeUsing(d) { return { ...this, using: d }; }, where(k, v) { const [o, s] = this.fields[k]; return { ...this, filters: [...this.filters, { offset: o, bytes: s.serialize(v) }] }; } });
`);
const client = require(path.join(OUT, 'src/index.js'));
const S = require(path.join(N, 'serializers.js'));
const pk = n => S.to58(Array.from({ length: 32 }, (_, i) => (n * 7 + i) % 251 + 1));
const signer = n => ({ publicKey: pk(n), signMessage() {} });
const context = { payer: { publicKey: pk(200), signMessage() {} }, identity: { publicKey: pk(201), signMessage() {} }, programs: { getPublicKey: (n, d) => d, get: () => ({}) } };
function check(c, m) { if (!c) { console.log('BROKEN: ' + m); process.exit(1); } }
module.exports = { client, S, pk, signer, context, check };
