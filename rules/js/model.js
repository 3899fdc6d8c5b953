// Derives, from the syntax trees of the JavaScript client's current sources, what each of its functions yields on
// arbitrary inputs: values are propagated through the tree, inputs stay symbolic; nothing of the client is executed.
const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs'), path = require('path');
const ROOT = process.argv[2], SPEC = JSON.parse(fs.readFileSync(process.argv[3], 'utf8'));
class Undecided extends Error {}
class Thrown extends Error { constructor(v) { super('throw'); this.v = v; } }
class Ret { constructor(v) { this.v = v; } }
class Brk {} class Cnt {}
class Sym { constructor(p, tag, pk) { this.path = p; this.tag = tag; this.pk = pk; } }
class Clo { constructor(n, env, self) { this.n = n; this.env = env; this.self = self; } }
class Cls { constructor(n, env, base) { this.n = n; this.env = env; this.base = base; } }
class Nat { constructor(f, nm) { this.f = f; this.nm = nm; } }
class Ser { constructor(k, a) { this.k = k; this.a = a; } }
const und = (m, n) => { throw new Undecided(m + (n ? ' at ' + where(n) : '')); };
const where = n => { const s = n.getSourceFile(); const p = s.getLineAndCharacterOfPosition(n.getStart(s)); return path.relative(ROOT, s.fileName) + ':' + (p.line + 1); };
class Env {
  constructor(up) { this.up = up; this.v = new Map(); }
  find(k) { let e = this; while (e) { if (e.v.has(k)) return e; e = e.up; } return null; }
  get(k, n) { const e = this.find(k); if (!e) und('unknown name ' + k, n); const x = e.v.get(k); return x instanceof Lazy ? x.get() : x; }
  set(k, v, n) { const e = this.find(k); if (!e) und('unknown name ' + k, n); e.v.set(k, v); }
  def(k, v) { this.v.set(k, v); }
}
class Lazy { constructor(f) { this.get = f; } }
let steps = 0;
const mods = new Map();
// program addresses asked for by name: 'name fallback' -> place
const LOOKUPS = new Map();
// ------------------------------------------------------------------ the libraries the client is written against
const ser = (k) => new Nat((a) => new Ser(k, a[0] === undefined ? null : plain(a[0])), k);
function plain(o) { if (o && typeof o === 'object' && !(o instanceof Ser)) { const r = {}; for (const k of Object.keys(o)) if (k !== 'description') r[k] = o[k]; return Object.keys(r).length ? r : null; } return o; }
function nondefault(k, o) {
  // the options of a serializer that change its bytes
  if (!o || typeof o !== 'object') return null;
  const r = {};
  for (const [a, v] of Object.entries(o)) {
    if (a === 'description' || v === undefined) continue;
    if (a === 'fixed' && v === false) continue;
    if (a === 'endian' && v instanceof Sym && /Endian\.Little$/.test(v.path)) continue;
    if ((a === 'prefix' && k === 'option' || a === 'size' && k === 'scalarEnum') && v instanceof Ser && v.k === 'u8' && !nondefault('u8', v.a)) continue;
    r[a] = v;
  }
  return Object.keys(r).length ? r : null;
}
function kind(s) {
  if (!(s instanceof Ser)) und('not a serializer');
  const o = s.k !== 'struct' ? nondefault(s.k, s.a) : null;
  switch (s.k) {
    case 'struct': return 'struct';
    case 'option': return 'option<' + kind(s.inner) + '>' + (nondefault(s.k, s.o) ? '!' : '');
    case 'array': return kind(s.inner) + 'x' + (s.o && typeof s.o.size === 'number' && Object.keys(nondefault(s.k, s.o) || {}).length === 1 ? s.o.size : '?');
    case 'scalarEnum': return 'enum:' + s.names.join(',') + (nondefault(s.k, s.o) ? '!' : '');
    case 'map': return kind(s.inner);
    default: return s.k + (o ? '!' + JSON.stringify(o, (k, v) => typeof v === 'bigint' ? String(v) : v) : '');
  }
}
function serialize(s, v, n) {
  if (!(s instanceof Ser)) und('not a serializer', n);
  if (s.k === 'map') return serialize(s.inner, call(s.f, [v], n), n);
  if (s.k === 'struct') {
    if (s.o) und('struct options', n);
    let out = [];
    for (const [nm, x] of s.fields) {
      const val = get(v, nm, n);
      if (x.k === 'struct' || x.k === 'map') out = out.concat(serialize(x, val, n)); else out.push({ field: nm, kind: kind(x), value: show(val) });
    }
    return out;
  }
  return [{ field: null, kind: kind(s), value: show(v) }];
}
const UMI = {
  isSigner: new Nat(([v]) => v instanceof Sym ? v.tag === 'signer' : und('isSigner')),
  isPda: new Nat(([v]) => v instanceof Sym ? v.tag === 'pda' : Array.isArray(v)),
  isPublicKey: new Nat(([v]) => v instanceof Sym ? v.tag === 'pk' : und('isPublicKey')),
  publicKey: new Nat(([v], n) => typeof v === 'string' ? new Sym('key:' + v, 'pk', v) : v instanceof Sym && ['pk', 'signer', 'pda'].includes(v.tag) ? new Sym(v.path, 'pk', v.pk) : und('publicKey', n)),
  transactionBuilder: new Nat(([x]) => ({ builder: x === undefined ? [] : x })),
  gpaBuilder: new Nat(([c, p]) => { const o = { gpa: true, program: p, fields: null, using: null }; o.registerFields = new Nat(([f]) => { o.fields = f; return o; }); o.deserializeUsing = new Nat(([f]) => { o.using = f; return o; }); return o; }),
  deserializeAccount: new Nat(([raw, s]) => ({ decoded: s, raw })),
  assertAccountExists: new Nat(([a]) => { if (a && a.exists === false) throw new Thrown(a); }),
  ProgramError: new Cls(null, null, null),
  some: new Nat(([v]) => ({ __kind: 'Some', value: v })), none: new Nat(() => ({ __kind: 'None' })),
};
const SERS = { mapSerializer: new Nat((a) => { const s = new Ser('map'); s.inner = a[0]; s.f = a[1]; return s; }),
  struct: new Nat(([f, o]) => { const s = new Ser('struct'); if (!Array.isArray(f)) und('struct fields'); s.fields = f; s.o = plain(o); return s; }),
  option: new Nat(([x, o]) => { const s = new Ser('option'); s.inner = x; s.o = plain(o); return s; }),
  nullable: new Nat(([x, o]) => { const s = new Ser('option'); s.inner = x; s.o = plain(o); return s; }),
  array: new Nat(([x, o]) => { const s = new Ser('array'); s.inner = x; s.o = plain(o); return s; }),
  scalarEnum: new Nat(([e, o]) => { const s = new Ser('scalarEnum'); s.names = []; for (const k of Object.keys(e)) if (typeof e[k] === 'number') s.names[e[k]] = k; s.o = plain(o); return s; }) };
for (const k of ['u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'bool', 'string', 'bytes', 'publicKey', 'unit']) SERS[k] = ser(k);
function external(name) {
  if (name === '@metaplex-foundation/umi') return UMI;
  if (name === '@metaplex-foundation/umi/serializers') return SERS;
  return null;
}
const GLOBAL = new Env(null);
const method = f => new Nat(f);
GLOBAL.def('undefined', undefined);
GLOBAL.def('Object', { values: method(([o]) => Object.values(rec(o))), keys: method(([o]) => Object.keys(rec(o))), entries: method(([o]) => Object.entries(rec(o))), assign: method(([t, ...r]) => Object.assign(t, ...r.map(rec))), freeze: method(([o]) => o), fromEntries: method(([e]) => Object.fromEntries(e)) });
GLOBAL.def('Array', { isArray: method(([x]) => Array.isArray(x)), from: method(([x, f], n) => f ? Array.from(x, (y, i) => call(f, [y, i], n)) : Array.from(x)), of: method(a => a) });
GLOBAL.def('Map', new Nat(() => und('Map call'), 'Map'));
GLOBAL.def('Set', new Nat(() => und('Set call'), 'Set'));
GLOBAL.def('Error', new Cls(null, null, null));
GLOBAL.def('Number', method(([x]) => typeof x === 'object' ? und('Number') : Number(x)));
GLOBAL.def('BigInt', method(([x]) => typeof x === 'object' ? und('BigInt') : BigInt(x)));
GLOBAL.def('Boolean', method(([x]) => truth(x)));
GLOBAL.def('String', method(([x]) => typeof x === 'object' ? und('String') : String(x)));
GLOBAL.def('Math', { max: method(a => a.every(x => typeof x === 'number') ? Math.max(...a) : und('max')), min: method(a => a.every(x => typeof x === 'number') ? Math.min(...a) : und('min')) });
function rec(o) { if (o instanceof Sym || o instanceof Ser || o === null || typeof o !== 'object') und('object listing of an opaque value'); return o; }
// a condition on an arbitrary input is taken both ways; each way is reported with what it supposes
let FORK = null;
function decide(p, q) {
  const k = p + ' ' + q;
  if (FORK.taken.has(k)) return FORK.taken.get(k);
  for (const [j, v] of FORK.taken) if (v && j.startsWith(p + ' is ') && q.startsWith('is ')) return false;
  for (const [j, v] of FORK.taken) if (v && j.startsWith(p + ' is ') && q === 'truthy') return !['0', '', 'false'].includes(j.slice(p.length + 4));
  if (FORK.taken.has(p + ' truthy') && ['is 0', 'is ', 'is false'].includes(q) && FORK.taken.get(p + ' truthy')) return false;
  if (FORK.taken.has(p + ' truthy') && !['is 0', 'is ', 'is false'].includes(q) && !FORK.taken.get(p + ' truthy')) return false;
  if (FORK.taken.size > 6) und('too many conditions on inputs');
  FORK.todo.push(new Map([...FORK.taken, [k, false]]));
  FORK.taken.set(k, true);
  return true;
}
function ways(f) {
  const todo = [new Map()], r = [];
  while (todo.length) {
    if (r.length > 32) return { undecided: 'too many conditions on inputs' };
    FORK = { taken: todo.pop(), todo };
    let x; try { x = attempt(f); } finally { var t = FORK.taken; FORK = null; }
    x.suppose = Object.fromEntries(t); r.push(x);
  }
  r[0].more = r.slice(1);
  return r[0];
}
function truth(v, n) {
  if (v instanceof Sym) { if (['pk', 'signer', 'pda', 'obj'].includes(v.tag)) return true; if (FORK && v.tag === 'any') return decide(v.path, 'truthy'); und('condition on an arbitrary value ' + v.path, n); }
  return !!v;
}
function same(a, b, n) {
  if (a === b) return true;
  if (a === null || a === undefined || b === null || b === undefined) return false;
  if (a instanceof Sym || b instanceof Sym) {
    if (a instanceof Sym && b instanceof Sym && a.path === b.path) return true;
    const [x, y] = a instanceof Sym ? [a, b] : [b, a];
    if (FORK && x.tag === 'any' && ['number', 'bigint', 'string', 'boolean'].includes(typeof y)) return decide(x.path, 'is ' + String(y));
    und('comparison of arbitrary values', n);
  }
  return false;
}
function show(v) {
  if (v === undefined) return 'undefined'; if (v === null) return 'null';
  if (v instanceof Sym) return v.pk ? 'key:' + v.pk : v.path;
  if (typeof v === 'string' || typeof v === 'number' || typeof v === 'boolean') return v;
  if (typeof v === 'bigint') return Number(v);
  if (v instanceof Ser) return { serializer: kind(v) };
  if (Array.isArray(v)) return v.map(show);
  if (typeof v === 'object') { const o = {}; for (const k of Object.keys(v)) o[k] = v[k] instanceof Nat || v[k] instanceof Clo ? 'function' : show(v[k]); return o; }
  return String(v);
}
function get(o, k, n) {
  if (o === undefined || o === null) und('property ' + String(k) + ' of nothing', n);
  if (o instanceof Sym) return member(o, k);
  if (o instanceof Ser) { if (k === 'serialize') return new Nat(([v], m) => ({ bytes: serialize(o, v, m) })); und('serializer.' + k, n); }
  if (Array.isArray(o)) return arr(o, k, n);
  if (o instanceof Map) {
    if (k === 'get') return new Nat(([x]) => x instanceof Sym ? und('map lookup') : o.get(x)); if (k === 'set') return new Nat(([x, y]) => { o.set(x, y); return o; });
    if (k === 'has') return new Nat(([x]) => x instanceof Sym ? und('map lookup') : o.has(x)); if (k === 'size') return o.size;
    if (k === 'entries') return new Nat(() => [...o.entries()]); if (k === 'keys') return new Nat(() => [...o.keys()]); if (k === 'values') return new Nat(() => [...o.values()]);
    und('Map.' + k, n);
  }
  if (typeof o === 'string') { if (k === 'length') return o.length; und('string.' + k, n); }
  if (o instanceof Clo || o instanceof Nat) { if (k === 'call') return new Nat(([t, ...a], m) => call(o, a, m, t)); if (k === 'apply') return new Nat(([t, a], m) => call(o, a || [], m, t)); if (k === 'bind') return new Nat(([t, ...p]) => new Nat((a, m) => call(o, p.concat(a), m, t))); und('function.' + k, n); }
  if (o instanceof Cls) und('static member', n);
  if (typeof o === 'object') {
    if (Object.prototype.hasOwnProperty.call(o, k)) return o[k];
    return undefined;
  }
  und('property ' + String(k), n);
}
function member(o, k) {
  if (o.path === 'context' && (k === 'payer' || k === 'identity')) return new Sym('context.' + k, 'signer');
  if (o.path === 'context') return new Sym('context.' + k, 'obj');
  if ((o.tag === 'signer' || o.tag === 'obj') && k === 'publicKey') return new Sym(o.path + (o.tag === 'signer' ? '' : '.publicKey'), 'pk', o.pk);
  return new Sym(o.path + '.' + String(k), 'any');
}
function arr(a, k, n) {
  if (typeof k === 'number') return a[k];
  if (k === 'length') return a.length;
  const c = (f, ...x) => call(f, x, n);
  const M = {
    push: x => a.push(...x), unshift: x => a.unshift(...x), pop: () => a.pop(), shift: () => a.shift(), slice: x => a.slice(...x), splice: x => a.splice(...x), concat: x => a.concat(...x), reverse: () => a.reverse(), flat: x => a.flat(...x),
    map: ([f]) => a.map((v, i) => c(f, v, i, a)), filter: ([f]) => a.filter((v, i) => truth(c(f, v, i, a), n)), forEach: ([f]) => { a.forEach((v, i) => c(f, v, i, a)); }, flatMap: ([f]) => a.flatMap((v, i) => c(f, v, i, a)),
    reduce: x => x.length > 1 ? a.reduce((p, v, i) => c(x[0], p, v, i, a), x[1]) : a.reduce((p, v, i) => c(x[0], p, v, i, a)),
    some: ([f]) => a.some((v, i) => truth(c(f, v, i, a), n)), every: ([f]) => a.every((v, i) => truth(c(f, v, i, a), n)), find: ([f]) => a.find((v, i) => truth(c(f, v, i, a), n)), findIndex: ([f]) => a.findIndex((v, i) => truth(c(f, v, i, a), n)),
    sort: ([f]) => a.sort(f ? (x, y) => { const r = c(f, x, y); return typeof r === 'number' ? r : und('sort order', n); } : undefined), entries: () => [...a.entries()], keys: () => [...a.keys()], values: () => a.slice(), includes: ([x]) => a.some(y => same(x, y, n)), indexOf: ([x]) => a.findIndex(y => same(x, y, n)), join: x => a.some(v => typeof v === 'object') ? und('join', n) : a.join(...x), fill: x => a.fill(...x), at: ([i]) => a.at(i),
  };
  M.toSorted = ([f]) => arr(a.slice(), 'sort', n).f([f]);
  if (Object.prototype.hasOwnProperty.call(M, k)) return new Nat(M[k]);
  und('array.' + String(k), n);
}
function call(f, args, n, self) {
  if (++steps > 200000) und('too many steps', n);
  if (f instanceof Nat) return f.f(args, n);
  if (f instanceof Sym) {
    if (f.path === 'context.programs.getPublicKey') {
      const p = args[1]; const pk = typeof p === 'string' ? p : p instanceof Sym ? p.pk : undefined;
      const nm = args[0] instanceof Sym ? und('program name', n) : String(args[0]);
      if (pk !== undefined) LOOKUPS.set(nm + ' ' + pk, n ? where(n) : '');
      return pk === undefined ? new Sym('program:' + nm, 'pk') : new Sym('program:' + nm, 'pk', pk);
    }
    if (f.path === 'context.programs.get') return new Sym('registered:' + (args[0] instanceof Sym ? und('program name', n) : args[0]), 'obj');
    return new Sym(f.path + '()', 'obj');
  }
  if (!(f instanceof Clo)) und('call of an unknown function', n);
  const e = new Env(f.env), d = f.n;
  if (!ts.isArrowFunction(d)) { e.def('this', self !== undefined ? self : f.self); e.def('arguments', args); }
  d.parameters.forEach((p, i) => {
    if (p.name.kind === ts.SyntaxKind.Identifier && p.name.text === 'this') und('this parameter', p);
    let v = p.dotDotDotToken ? args.slice(i) : args[i];
    if (v === undefined && p.initializer) v = ev(p.initializer, e);
    bind(p.name, v, e);
  });
  if (!d.body) und('no body', d);
  let r;
  if (!ts.isBlock(d.body)) r = ev(d.body, e);
  else { const c = block(d.body.statements, e); r = c instanceof Ret ? c.v : undefined; }
  if (d.modifiers && d.modifiers.some(m => m.kind === ts.SyntaxKind.AsyncKeyword)) return { promise: r };
  return r;
}
function construct(c, args, n) {
  if (c instanceof Nat && c.nm === 'Map') { const m = new Map(); for (const [k, v] of args[0] || []) m.set(k, v); return m; }
  if (c instanceof Nat && c.nm === 'Set') und('Set', n);
  if (!(c instanceof Cls)) und('construction', n);
  const o = { __class: c };
  init(c, o, args, n); return o;
}
function init(c, o, args, n) {
  if (!c.n) { o.superArgs = args; return; }
  const ctor = c.n.members.find(m => ts.isConstructorDeclaration(m));
  const fields = () => { for (const m of c.n.members) if (ts.isPropertyDeclaration(m) && !(m.modifiers || []).some(x => x.kind === ts.SyntaxKind.StaticKeyword)) { const e = new Env(c.env); e.def('this', o); o[nameOf(m.name, e)] = m.initializer ? ev(m.initializer, e) : undefined; } };
  for (const m of c.n.members) if (ts.isMethodDeclaration(m) && m.body) o[nameOf(m.name, c.env)] = new Clo(m, c.env, o);
  if (!c.base) fields();
  if (!ctor) { if (c.base) { init(c.base, o, args, n); fields(); } return; }
  const e = new Env(c.env); e.def('this', o);
  e.def('super', new Nat((a, m) => { init(c.base, o, a, m); fields(); }));
  ctor.parameters.forEach((p, i) => { bind(p.name, args[i] === undefined && p.initializer ? ev(p.initializer, e) : args[i], e); });
  block(ctor.body.statements, e);
}
function nameOf(p, e) {
  if (ts.isIdentifier(p) || ts.isStringLiteral(p) || ts.isNumericLiteral(p)) return p.text;
  if (ts.isComputedPropertyName(p)) { const k = ev(p.expression, e); if (typeof k === 'string' || typeof k === 'number') return k; }
  und('property name', p);
}
function bind(p, v, e) {
  if (ts.isIdentifier(p)) { e.def(p.text, v); return; }
  if (ts.isArrayBindingPattern(p)) { if (!Array.isArray(v)) und('array pattern', p); p.elements.forEach((x, i) => { if (ts.isOmittedExpression(x)) return; let y = x.dotDotDotToken ? v.slice(i) : v[i]; if (y === undefined && x.initializer) y = ev(x.initializer, e); bind(x.name, y, e); }); return; }
  if (ts.isObjectBindingPattern(p)) {
    const used = new Set();
    for (const x of p.elements) {
      if (x.dotDotDotToken) { const r = {}; for (const k of Object.keys(rec(v))) if (!used.has(k)) r[k] = v[k]; bind(x.name, r, e); continue; }
      const k = x.propertyName ? nameOf(x.propertyName, e) : x.name.text; used.add(k);
      let y = get(v, k, p); if (y === undefined && x.initializer) y = ev(x.initializer, e); bind(x.name, y, e);
    }
    return;
  }
  und('pattern', p);
}
function hoist(list, e) {
  for (const s of list) if (ts.isFunctionDeclaration(s) && s.name && s.body) e.def(s.name.text, new Clo(s, e));
}
function block(list, e) {
  hoist(list, e);
  for (const s of list) { const c = stmt(s, e); if (c) return c; }
  return null;
}
function stmt(s, e) {
  if (++steps > 200000) und('too many steps', s);
  const K = ts.SyntaxKind;
  switch (s.kind) {
    case K.VariableStatement: decls(s.declarationList, e); return null;
    case K.ExpressionStatement: ev(s.expression, e); return null;
    case K.ReturnStatement: return new Ret(s.expression ? ev(s.expression, e) : undefined);
    case K.IfStatement: return truth(ev(s.expression, e), s) ? stmt(s.thenStatement, e) : s.elseStatement ? stmt(s.elseStatement, e) : null;
    case K.Block: return block(s.statements, new Env(e));
    case K.ThrowStatement: throw new Thrown(ev(s.expression, e));
    case K.BreakStatement: return new Brk(); case K.ContinueStatement: return new Cnt();
    case K.EmptyStatement: case K.FunctionDeclaration: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.ImportDeclaration: case K.ExportDeclaration: return null;
    case K.ClassDeclaration: e.def(s.name.text, cls(s, e)); return null;
    case K.EnumDeclaration: e.def(s.name.text, enumOf(s, e)); return null;
    case K.ForOfStatement: {
      let it = ev(s.expression, e); if (it instanceof Map) it = [...it.entries()]; if (!Array.isArray(it)) und('iteration', s);
      for (const v of it) { const x = new Env(e); bindInit(s.initializer, v, x); const c = stmt(s.statement, x); if (c instanceof Brk) break; if (c instanceof Ret) return c; } return null;
    }
    case K.ForInStatement: { for (const v of Object.keys(rec(ev(s.expression, e)))) { const x = new Env(e); bindInit(s.initializer, v, x); const c = stmt(s.statement, x); if (c instanceof Brk) break; if (c instanceof Ret) return c; } return null; }
    case K.ForStatement: {
      const x = new Env(e); if (s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) decls(s.initializer, x); else ev(s.initializer, x); }
      while (!s.condition || truth(ev(s.condition, x), s)) { if (++steps > 200000) und('too many steps', s); const c = stmt(s.statement, new Env(x)); if (c instanceof Brk) break; if (c instanceof Ret) return c; if (s.incrementor) ev(s.incrementor, x); } return null;
    }
    case K.WhileStatement: while (truth(ev(s.expression, e), s)) { if (++steps > 200000) und('too many steps', s); const c = stmt(s.statement, new Env(e)); if (c instanceof Brk) break; if (c instanceof Ret) return c; } return null;
    case K.SwitchStatement: {
      const v = ev(s.expression, e); const x = new Env(e); let on = false;
      for (const pass of [0, 1]) { for (const cl of s.caseBlock.clauses) { if (!on) { if (ts.isDefaultClause(cl)) { if (pass) on = true; } else if (!pass && same(v, ev(cl.expression, x), cl)) on = true; } if (on) { const c = block(cl.statements, x); if (c instanceof Brk) return null; if (c) return c; } } if (on) break; } return null;
    }
  }
  und('statement ' + K[s.kind], s);
}
function bindInit(i, v, e) { if (ts.isVariableDeclarationList(i)) bind(i.declarations[0].name, v, e); else assign(i, v, e); }
function decls(l, e) { for (const d of l.declarations) bind(d.name, d.initializer ? ev(d.initializer, e) : undefined, e); }
function cls(s, e) {
  let base = null;
  for (const h of s.heritageClauses || []) if (h.token === ts.SyntaxKind.ExtendsKeyword) base = ev(h.types[0].expression, e);
  return new Cls(s, e, base);
}
function enumOf(s, e) { const o = {}; let i = 0; for (const m of s.members) { if (m.initializer) i = ev(m.initializer, e); const k = nameOf(m.name, e); o[k] = i; if (typeof i === 'number') o[i] = k; i = typeof i === 'number' ? i + 1 : undefined; } return o; }
function assign(t, v, e) {
  if (ts.isIdentifier(t)) { e.set(t.text, v, t); return; }
  if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) {
    const o = ev(t.expression, e); const k = ts.isPropertyAccessExpression(t) ? t.name.text : ev(t.argumentExpression, e);
    if (o === null || typeof o !== 'object' || o instanceof Sym || o instanceof Ser || k instanceof Sym) und('assignment', t);
    o[k] = v; return;
  }
  if (ts.isParenthesizedExpression(t) || ts.isAsExpression(t) || ts.isNonNullExpression(t)) return assign(t.expression, v, e);
  und('assignment', t);
}
function bin(k, a, b, n) {
  const K = ts.SyntaxKind;
  switch (k) {
    case K.EqualsEqualsEqualsToken: return same(a, b, n); case K.ExclamationEqualsEqualsToken: return !same(a, b, n);
    case K.EqualsEqualsToken: return (a === null || a === undefined) ? (b === null || b === undefined) : same(a, b, n);
    case K.ExclamationEqualsToken: return (a === null || a === undefined) ? !(b === null || b === undefined) : !same(a, b, n);
  }
  if (typeof a === 'object' || typeof b === 'object' || a === undefined || b === undefined) und('arithmetic', n);
  switch (k) {
    case K.PlusToken: return a + b; case K.MinusToken: return a - b; case K.AsteriskToken: return a * b; case K.SlashToken: return a / b; case K.PercentToken: return a % b;
    case K.LessThanToken: return a < b; case K.GreaterThanToken: return a > b; case K.LessThanEqualsToken: return a <= b; case K.GreaterThanEqualsToken: return a >= b;
    case K.BarToken: return a | b; case K.AmpersandToken: return a & b; case K.LessThanLessThanToken: return a << b; case K.GreaterThanGreaterThanToken: return a >> b; case K.CaretToken: return a ^ b;
  }
  und('operator', n);
}
function ev(n, e) {
  if (++steps > 200000) und('too many steps', n);
  const K = ts.SyntaxKind;
  switch (n.kind) {
    case K.NumericLiteral: return Number(n.text); case K.BigIntLiteral: return BigInt(n.text.replace(/n$/, '').replace(/_/g, ''));
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return n.text;
    case K.TrueKeyword: return true; case K.FalseKeyword: return false; case K.NullKeyword: return null;
    case K.Identifier: return e.get(n.text, n); case K.ThisKeyword: return e.get('this', n);
    case K.SuperKeyword: return e.get('super', n);
    case K.ParenthesizedExpression: case K.AsExpression: case K.SatisfiesExpression: case K.NonNullExpression: case K.TypeAssertionExpression: return ev(n.expression, e);
    case K.VoidExpression: ev(n.expression, e); return undefined;
    case K.AwaitExpression: { const v = ev(n.expression, e); return v && typeof v === 'object' && 'promise' in v ? v.promise : v; }
    case K.TemplateExpression: { let r = n.head.text; for (const s of n.templateSpans) { const v = ev(s.expression, e); if (typeof v === 'object') und('template', n); r += String(v) + s.literal.text; } return r; }
    case K.ArrowFunction: case K.FunctionExpression: return new Clo(n, e);
    case K.ClassExpression: return cls(n, e);
    case K.ArrayLiteralExpression: { const r = []; for (const x of n.elements) { if (ts.isSpreadElement(x)) { const v = ev(x.expression, e); if (!Array.isArray(v)) und('spread', x); r.push(...v); } else r.push(ev(x, e)); } return r; }
    case K.ObjectLiteralExpression: {
      const o = {};
      for (const p of n.properties) {
        if (ts.isPropertyAssignment(p)) o[nameOf(p.name, e)] = ev(p.initializer, e);
        else if (ts.isShorthandPropertyAssignment(p)) o[p.name.text] = e.get(p.name.text, p);
        else if (ts.isSpreadAssignment(p)) { const v = ev(p.expression, e); if (v !== null && v !== undefined && v !== false) Object.assign(o, rec(v)); }
        else if (ts.isMethodDeclaration(p)) o[nameOf(p.name, e)] = new Clo(p, e, o);
        else und('object member', p);
      }
      return o;
    }
    case K.PropertyAccessExpression: { const o = ev(n.expression, e); if (n.questionDotToken && (o === null || o === undefined)) return undefined; return get(o, n.name.text, n); }
    case K.ElementAccessExpression: { const o = ev(n.expression, e); const k = ev(n.argumentExpression, e); if (k instanceof Sym) und('index', n); return get(o, k, n); }
    case K.CallExpression: {
      const args = []; const f = n.expression;
      let self; let fn;
      if (ts.isPropertyAccessExpression(f) || ts.isElementAccessExpression(f)) { self = ev(f.expression, e); if (f.questionDotToken && (self === null || self === undefined)) return undefined; fn = get(self, ts.isPropertyAccessExpression(f) ? f.name.text : ev(f.argumentExpression, e), n); }
      else fn = ev(f, e);
      for (const x of n.arguments) { if (ts.isSpreadElement(x)) args.push(...ev(x.expression, e)); else args.push(ev(x, e)); }
      return call(fn, args, n, self);
    }
    case K.NewExpression: return construct(ev(n.expression, e), (n.arguments || []).map(x => ev(x, e)), n);
    case K.ConditionalExpression: return truth(ev(n.condition, e), n) ? ev(n.whenTrue, e) : ev(n.whenFalse, e);
    case K.TypeOfExpression: { const v = ev(n.expression, e); if (v instanceof Sym) und('typeof', n); return v instanceof Clo || v instanceof Nat ? 'function' : typeof v; }
    case K.PrefixUnaryExpression: {
      if (n.operator === K.ExclamationToken) return !truth(ev(n.operand, e), n);
      if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) { const v = ev(n.operand, e) + (n.operator === K.PlusPlusToken ? 1 : -1); assign(n.operand, v, e); return v; }
      const v = ev(n.operand, e); if (typeof v === 'object') und('unary', n);
      return n.operator === K.MinusToken ? -v : n.operator === K.PlusToken ? +v : n.operator === K.TildeToken ? ~v : und('unary', n);
    }
    case K.PostfixUnaryExpression: { const v = ev(n.operand, e); if (typeof v !== 'number') und('unary', n); assign(n.operand, v + (n.operator === K.PlusPlusToken ? 1 : -1), e); return v; }
    case K.DeleteExpression: { const t = n.expression; const o = ev(t.expression, e); delete o[ts.isPropertyAccessExpression(t) ? t.name.text : ev(t.argumentExpression, e)]; return true; }
    case K.BinaryExpression: {
      const k = n.operatorToken.kind;
      if (k === K.EqualsToken) { const v = ev(n.right, e); if (ts.isArrayLiteralExpression(n.left) || ts.isObjectLiteralExpression(n.left)) und('destructuring assignment', n); assign(n.left, v, e); return v; }
      if (k === K.QuestionQuestionToken) { const v = ev(n.left, e); return v === null || v === undefined ? ev(n.right, e) : v; }
      if (k === K.BarBarToken) { const v = ev(n.left, e); return truth(v, n) ? v : ev(n.right, e); }
      if (k === K.AmpersandAmpersandToken) { const v = ev(n.left, e); return truth(v, n) ? ev(n.right, e) : v; }
      if (k === K.CommaToken) { ev(n.left, e); return ev(n.right, e); }
      if (k === K.QuestionQuestionEqualsToken) { const v = ev(n.left, e); if (v === null || v === undefined) { const r = ev(n.right, e); assign(n.left, r, e); return r; } return v; }
      if (k === K.BarBarEqualsToken) { const v = ev(n.left, e); if (!truth(v, n)) { const r = ev(n.right, e); assign(n.left, r, e); return r; } return v; }
      if (k === K.PlusEqualsToken) { const v = bin(K.PlusToken, ev(n.left, e), ev(n.right, e), n); assign(n.left, v, e); return v; }
      if (k === K.MinusEqualsToken) { const v = bin(K.MinusToken, ev(n.left, e), ev(n.right, e), n); assign(n.left, v, e); return v; }
      if (k === K.InKeyword) { const a = ev(n.left, e), b = ev(n.right, e); if (b instanceof Sym) und('in', n); return a in b; }
      if (k === K.InstanceOfKeyword) und('instanceof', n);
      return bin(k, ev(n.left, e), ev(n.right, e), n);
    }
  }
  und('expression ' + K[n.kind], n);
}
// ------------------------------------------------------------------ modules
function resolve(from, spec) {
  const b = path.resolve(path.dirname(from), spec);
  for (const p of [b + '.ts', path.join(b, 'index.ts'), b]) if (fs.existsSync(p) && fs.statSync(p).isFile()) return p;
  throw new Undecided('module ' + spec + ' of ' + from);
}
function load(file) {
  let m = mods.get(file);
  if (m) return m;
  const sf = ts.createSourceFile(file, fs.readFileSync(file, 'utf8'), ts.ScriptTarget.ES2022, true);
  if (sf.parseDiagnostics && sf.parseDiagnostics.length) throw new Undecided('syntax of ' + file);
  m = { file, sf, env: new Env(GLOBAL), stars: [], reex: new Map(), done: false, run: false };
  mods.set(file, m);
  for (const s of sf.statements) {
    if (ts.isImportDeclaration(s) && s.importClause) {
      const sp = s.moduleSpecifier.text;
      const from = k => { const x = external(sp); if (x) { if (!(k in x)) return new Sym('umi:' + k, 'any'); return x[k]; } if (sp[0] !== '.') und('module ' + sp, s); return exported(load(resolve(file, sp)), k); };
      const nb = s.importClause.namedBindings;
      if (nb && ts.isNamedImports(nb)) for (const i of nb.elements) m.env.def(i.name.text, new Lazy(() => from((i.propertyName || i.name).text)));
      else if (nb) m.env.def(nb.name.text, new Lazy(() => und('namespace import', s)));
    }
    if (ts.isExportDeclaration(s) && s.moduleSpecifier) {
      const sp = s.moduleSpecifier.text;
      if (!s.exportClause) m.stars.push(sp); else if (ts.isNamedExports(s.exportClause)) for (const i of s.exportClause.elements) m.reex.set(i.name.text, [sp, (i.propertyName || i.name).text]);
    } else if (ts.isExportDeclaration(s) && s.exportClause && ts.isNamedExports(s.exportClause)) for (const i of s.exportClause.elements) m.reex.set(i.name.text, [null, (i.propertyName || i.name).text]);
  }
  return m;
}
function exportsOf(m, seen = new Set()) {
  if (seen.has(m)) return new Set(); seen.add(m);
  const r = new Set(m.reex.keys());
  for (const s of m.sf.statements) if (s.modifiers && s.modifiers.some(x => x.kind === ts.SyntaxKind.ExportKeyword)) {
    if (s.name) r.add(s.name.text); else if (s.declarationList) for (const d of s.declarationList.declarations) if (ts.isIdentifier(d.name)) r.add(d.name.text);
  }
  for (const sp of m.stars) if (sp[0] === '.') for (const k of exportsOf(load(resolve(m.file, sp)), seen)) r.add(k);
  return r;
}
function exported(m, k, seen = new Set()) {
  if (seen.has(m)) return undefined; seen.add(m);
  if (m.reex.has(k)) { const [sp, kk] = m.reex.get(k); if (sp === null) { run(m); return m.env.get(kk); } return exported(load(resolve(m.file, sp)), kk, seen); }
  run(m);
  if (m.env.v.has(k)) return m.env.get(k);
  for (const sp of m.stars) if (sp[0] === '.') { const v = exported(load(resolve(m.file, sp)), k, seen); if (v !== undefined) return v; }
  return undefined;
}
function run(m) { if (m.run) return; m.run = true; block(m.sf.statements, m.env); }
function typeDecl(root, name, seen = new Set()) {
  for (const m of mods.values()) for (const s of m.sf.statements) if ((ts.isTypeAliasDeclaration(s) || ts.isInterfaceDeclaration(s)) && s.name.text === name) return [m, s];
  return null;
}
function typeMembers(t) {
  // name -> {optional, text} of an object type, through intersections and aliases
  if (ts.isTypeLiteralNode(t) || ts.isInterfaceDeclaration(t)) { const o = {}; for (const p of t.members) if (ts.isPropertySignature(p)) o[p.name.text] = { optional: !!p.questionToken, type: p.type }; return o; }
  if (ts.isIntersectionTypeNode(t)) return Object.assign({}, ...t.types.map(typeMembers));
  if (ts.isParenthesizedTypeNode(t)) return typeMembers(t.type);
  if (ts.isTypeReferenceNode(t)) {
    const nm = t.typeName.getText();
    if (nm === 'PickPartial') { const o = typeMembers(t.typeArguments[0]); const k = t.typeArguments[1]; const ks = (ts.isUnionTypeNode(k) ? k.types : [k]).map(x => x.literal ? x.literal.text : und('PickPartial', t)); for (const x of ks) if (o[x]) o[x] = { ...o[x], optional: true }; return o; }
    const d = typeDecl(null, nm); if (!d) und('type ' + nm, t);
    return ts.isInterfaceDeclaration(d[1]) ? typeMembers(d[1]) : typeMembers(d[1].type);
  }
  und('type', t);
}
function accountTag(t) {
  const parts = (ts.isUnionTypeNode(t) ? t.types : [t]).map(x => x.getText());
  if (parts.every(p => p === 'Signer')) return 'signer';
  if (parts.every(p => /^(PublicKey|Pda)(<.*>)?$/.test(p))) return 'pk';
  return null;
}
// ------------------------------------------------------------------ the report
function attempt(f) { steps = 0; try { return f(); } catch (x) { if (x instanceof Undecided) return { undecided: x.message }; if (x instanceof Thrown) return { throws: true }; return { undecided: 'analysis: ' + x.message + (process.env.JSDEBUG ? x.stack : '') }; } }
const out = {};
const idx = load(path.join(ROOT, 'index.ts'));
const all = attempt(() => [...exportsOf(idx)]);
out.exports = all;
function fn(name) { const f = exported(idx, name); return f; }
const ctx = () => new Sym('context', 'obj');
out.instructions = {};
for (const [name, sp] of Object.entries(SPEC.instructions)) {
  out.instructions[name] = attempt(() => {
    const f = fn(name);
    if (f === undefined) return { missing: true };
    if (!(f instanceof Clo)) und('not a function');
    const p = f.n.parameters[1]; const mem = p && p.type ? typeMembers(p.type) : {};
    const tags = {}; for (const a of sp.accounts) { if (!mem[a]) tags[a] = 'missing'; else tags[a] = accountTag(mem[a].type) || 'other'; }
    const optional = Object.keys(mem).filter(k => mem[k].optional);
    const mk = (absent, plain) => { const o = {}; for (const k of Object.keys(mem)) if (!absent.includes(k)) o[k] = sp.accounts.includes(k) ? new Sym('input.' + k, tags[k] === 'signer' ? 'signer' : plain) : new Sym('input.' + k, mem[k].type && accountTag(mem[k].type) === 'pk' ? 'pk' : 'any'); return o; };
    const go = (absent, plain = 'pk') => ways(() => {
      const r = call(f, [ctx(), mk(absent, plain)], f.n);
      const b = r && r.builder; if (!Array.isArray(b)) und('not a transaction builder');
      return { items: b.map(x => ({ keys: show(x.instruction.keys), programId: show(x.instruction.programId), data: x.instruction.data && x.instruction.data.bytes ? x.instruction.data.bytes : und('instruction data'), signers: show(x.signers), bytes: show(x.bytesCreatedOnChain) })) };
    });
    const can = optional.filter(k => sp.accounts.includes(k)), some = {};
    // every other choice of accounts left out
    if (can.length > 1 && can.length < 7) for (let i = 1; i < (1 << can.length) - 1; i++) { const gone = can.filter((_, j) => i >> j & 1); some[gone.join('+')] = go(gone); }
    return { where: where(f.n), tags, optional, full: go([]), derived: go([], 'pda'), defaults: go(can), some };
  });
}
out.accounts = {};
for (const a of SPEC.accounts) {
  // an account source in which the listed addresses do not exist
  const src = gone => { const one = k => ({ exists: !gone.includes(show(k)), publicKey: k, raw: true }); return { rpc: { getAccount: new Nat(([k]) => ({ promise: one(k) })), getAccounts: new Nat(([ks]) => ({ promise: ks.map(one) })) }, programs: new Sym('context.programs', 'obj') }; };
  const got = d => d === null || d === undefined ? null : Array.isArray(d) ? d.map(got) : d && d.decoded && d.raw && d.raw.raw ? show(d.raw.publicKey) + ':' + d.decoded.fields.map(([n, y]) => n + '=' + kind(y)).join(',') : und('not a decoded account');
  const fetching = (nm, many) => attempt(() => {
    const f = fn(nm + a); if (!f) return { missing: true };
    const run = (ks, gone) => { const x = ks.map(k => new Sym(k, 'pk')); try { const r = call(f, [src(gone), many ? x : x[0]], f.n); return got(r && typeof r === 'object' && 'promise' in r ? r.promise : r); } catch (z) { if (z instanceof Thrown) return 'fails'; throw z; } };
    return { where: where(f.n), present: run(many ? ['p1', 'p2', 'p3'] : ['p1'], []), absent: run(many ? ['p1', 'p2', 'p3'] : ['p1'], many ? ['p2'] : ['p1']) };
  });
  out.accounts[a] = {
    fetch: fetching('fetch', false), safeFetch: fetching('safeFetch', false), fetchAll: fetching('fetchAll', true), safeFetchAll: fetching('safeFetchAll', true),
    serializer: attempt(() => { const f = fn('get' + a + 'AccountDataSerializer'); if (!f) return { missing: true }; const s = call(f, [], f.n); let x = s; while (x instanceof Ser && x.k === 'map') x = x.inner; if (!(x instanceof Ser) || x.k !== 'struct') und('struct'); return { where: where(f.n), fields: x.fields.map(([n, y]) => [n, kind(y)]), mapped: s.k === 'map' }; }),
    size: attempt(() => { const f = fn('get' + a + 'Size'); if (!f) return { missing: true }; return { where: where(f.n), size: call(f, [], f.n) }; }),
    gpa: attempt(() => { const f = fn('get' + a + 'GpaBuilder'); if (!f) return { missing: true }; const g = call(f, [ctx()], f.n); if (!g || !g.fields) und('gpa fields'); const fs_ = {}; for (const k of Object.keys(g.fields)) fs_[k] = [g.fields[k][0], kind(g.fields[k][1])]; const dec = call(g.using, [new Sym('raw', 'obj')], f.n); return { where: where(f.n), fields: fs_, program: show(g.program), decoded: dec && dec.decoded ? kind(dec.decoded) + ':' + dec.decoded.fields.map(x => x[0] + '=' + kind(x[1])).join(',') : null }; }),
    decode: attempt(() => { const f = fn('deserialize' + a); if (!f) return { missing: true }; const d = call(f, [new Sym('raw', 'obj')], f.n); return { where: where(f.n), fields: d.decoded.fields.map(([n, y]) => [n, kind(y)]) }; }),
  };
}
out.errors = {};
for (const [c, e] of SPEC.errors) {
  out.errors[e] = attempt(() => {
    const f = fn('getMplxRewardsErrorFromCode'), g = fn('getMplxRewardsErrorFromName'); if (!f || !g) return { missing: true };
    const one = (h, x) => { const o = call(h, [x, new Sym('program', 'obj'), new Sym('cause', 'obj')], h.n); return o === null || o === undefined ? null : { name: show(o.name), code: show(o.code), msg: o.superArgs ? show(o.superArgs[0]) : null }; };
    return { where: where(f.n), code: one(f, c), name: one(g, e) };
  });
}
out.errorBeyond = attempt(() => { const f = fn('getMplxRewardsErrorFromCode'); if (!f) return { missing: true }; const o = call(f, [SPEC.errors.length, new Sym('program', 'obj'), undefined], f.n); return { nothing: o === null || o === undefined }; });
out.enums = {};
for (const e of SPEC.enums) out.enums[e] = attempt(() => { const o = fn(e); if (!o) return { missing: true }; const f = fn('get' + e + 'Serializer'); if (!f) return { missing: true }; const names = []; for (const k of Object.keys(o)) if (typeof o[k] === 'number') names[o[k]] = k; return { where: where(f.n), names, serializer: kind(call(f, [], f.n)) }; });
out.program = {
  id: attempt(() => { const v = fn('MPLX_REWARDS_PROGRAM_ID'); return v === undefined ? { missing: true } : { id: show(v) }; }),
  def: attempt(() => { const f = fn('createMplxRewardsProgram'); if (!f) return { missing: true }; const o = call(f, [], f.n); const er = call(o.getErrorFromCode, [1, undefined], f.n, o); return { where: where(f.n), id: show(o.publicKey), name: show(o.name), err: er ? show(er.name) : null, clusters: attempt(() => ({ on: ['mainnet-beta', 'devnet', 'testnet', 'localnet', 'custom'].map(c => !!truth(call(o.isOnCluster, [c], f.n, o))) })) }; }),
  get: attempt(() => { const f = fn('getMplxRewardsProgram'); if (!f) return { missing: true }; const o = call(f, [ctx(), undefined], f.n); return { where: where(f.n), got: show(o) }; }),
  lookup: attempt(() => { const f = fn('getMplxRewardsProgramId'); if (!f) return { missing: true }; const o = call(f, [ctx()], f.n); return { where: where(f.n), id: show(o) }; }),
};
out.program.plugin = attempt(() => { const f = fn('Rewards'); if (!f) return { missing: true }; const o = call(f, [], f.n); const added = []; const umi = { programs: { add: new Nat(([p]) => { added.push(show(p.publicKey)); }) } }; call(o.install, [umi], f.n, o); return { where: where(f.n), added }; });
out.lookups = [...LOOKUPS.entries()].map(([k, w]) => [...k.split(' '), w]);
process.stdout.write(JSON.stringify(out));
