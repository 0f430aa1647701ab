// A small software WebGL: what the page's drawing code uses, with the errors browsers report for what they refuse.
// Shaders are interpreted. Anything it does not know sets `unknown`, and the picture is then not judged by pixels.

const C = {
  ZERO: 0, ONE: 1, NO_ERROR: 0, INVALID_ENUM: 0x500, INVALID_VALUE: 0x501, INVALID_OPERATION: 0x502,
  POINTS: 0, LINES: 1, LINE_LOOP: 2, LINE_STRIP: 3, TRIANGLES: 4, TRIANGLE_STRIP: 5, TRIANGLE_FAN: 6,
  DEPTH_BUFFER_BIT: 0x100, STENCIL_BUFFER_BIT: 0x400, COLOR_BUFFER_BIT: 0x4000,
  ARRAY_BUFFER: 0x8892, ELEMENT_ARRAY_BUFFER: 0x8893, STREAM_DRAW: 0x88e0, STATIC_DRAW: 0x88e4, DYNAMIC_DRAW: 0x88e8,
  BYTE: 0x1400, UNSIGNED_BYTE: 0x1401, SHORT: 0x1402, UNSIGNED_SHORT: 0x1403, INT: 0x1404, UNSIGNED_INT: 0x1405, FLOAT: 0x1406,
  ALPHA: 0x1906, RGB: 0x1907, RGBA: 0x1908, LUMINANCE: 0x1909, LUMINANCE_ALPHA: 0x190a,
  FRAGMENT_SHADER: 0x8b30, VERTEX_SHADER: 0x8b31, COMPILE_STATUS: 0x8b81, LINK_STATUS: 0x8b82, VALIDATE_STATUS: 0x8b83,
  TEXTURE_2D: 0xde1, TEXTURE0: 0x84c0, TEXTURE_MAG_FILTER: 0x2800, TEXTURE_MIN_FILTER: 0x2801, TEXTURE_WRAP_S: 0x2802, TEXTURE_WRAP_T: 0x2803,
  NEAREST: 0x2600, LINEAR: 0x2601, NEAREST_MIPMAP_NEAREST: 0x2700, LINEAR_MIPMAP_NEAREST: 0x2701, NEAREST_MIPMAP_LINEAR: 0x2702, LINEAR_MIPMAP_LINEAR: 0x2703,
  REPEAT: 0x2901, CLAMP_TO_EDGE: 0x812f, MIRRORED_REPEAT: 0x8370,
  UNPACK_ALIGNMENT: 0xcf5, UNPACK_FLIP_Y_WEBGL: 0x9240, UNPACK_PREMULTIPLY_ALPHA_WEBGL: 0x9241, UNPACK_COLORSPACE_CONVERSION_WEBGL: 0x9243,
  MAX_TEXTURE_SIZE: 0xd33, MAX_VIEWPORT_DIMS: 0xd3a, VIEWPORT: 0xba2, BLEND: 0xbe2, DEPTH_TEST: 0xb71, CULL_FACE: 0xb44, SCISSOR_TEST: 0xc11, DITHER: 0xbd0,
  LOW_FLOAT: 0x8df0, MEDIUM_FLOAT: 0x8df1, HIGH_FLOAT: 0x8df2, FRAMEBUFFER: 0x8d40, CONTEXT_LOST_WEBGL: 0x9242,
  SRC_ALPHA: 0x302, ONE_MINUS_SRC_ALPHA: 0x303,
};
for (let i = 1; i < 16; i++) C["TEXTURE" + i] = 0x84c0 + i;
const C2 = {
  RED: 0x1903, RG: 0x8227, HALF_FLOAT: 0x140b, R8: 0x8229, R16F: 0x822d, R32F: 0x822e, RG8: 0x822b, RG16F: 0x822f, RG32F: 0x8230,
  RGB8: 0x8051, RGBA8: 0x8058, RGB16F: 0x881b, RGBA16F: 0x881a, RGB32F: 0x8815, RGBA32F: 0x8814, TEXTURE_BASE_LEVEL: 0x813c, TEXTURE_MAX_LEVEL: 0x813d,
  TEXTURE_WRAP_R: 0x8072, UNPACK_ROW_LENGTH: 0xcf2, UNPACK_SKIP_ROWS: 0xcf3, UNPACK_SKIP_PIXELS: 0xcf4, TEXTURE_SWIZZLE_R: 0x8e42,
};
const FORMATS2 = (() => {
  // internal format: [format, types]
  const t = new Map();
  const add = (i, f, ...ty) => t.set(i, [...(t.get(i) ?? []), ...ty.map((x) => [f, x])]);
  const U = C.UNSIGNED_BYTE, F = C.FLOAT, H = C2.HALF_FLOAT;
  for (const f of [C.RGBA, C.RGB, C.LUMINANCE, C.LUMINANCE_ALPHA, C.ALPHA]) add(f, f, U);
  add(C2.R8, C2.RED, U), add(C2.R16F, C2.RED, H, F), add(C2.R32F, C2.RED, F);
  add(C2.RG8, C2.RG, U), add(C2.RG16F, C2.RG, H, F), add(C2.RG32F, C2.RG, F);
  add(C2.RGB8, C.RGB, U), add(C2.RGB16F, C.RGB, H, F), add(C2.RGB32F, C.RGB, F);
  add(C2.RGBA8, C.RGBA, U), add(C2.RGBA16F, C.RGBA, H, F), add(C2.RGBA32F, C.RGBA, F);
  return t;
})();
const NCOMP = new Map([[C2.RED, 1], [C2.RG, 2], [C.RGB, 3], [C.RGBA, 4], [C.LUMINANCE, 1], [C.ALPHA, 1], [C.LUMINANCE_ALPHA, 2]]);

class Unknown extends Error {}
const nope = (what) => {
  throw new Unknown(what);
};

// ---- shading language -------------------------------------------------------------------------
const TYPES = /^(void|bool|int|uint|float|vec2|vec3|vec4|ivec2|ivec3|ivec4|uvec2|bvec2|bvec3|bvec4|sampler2D)$/;
const SIZE = { vec2: 2, vec3: 3, vec4: 4, ivec2: 2, ivec3: 3, ivec4: 4, uvec2: 2, bvec2: 2, bvec3: 3, bvec4: 4 };
const QUAL = new Set(["const", "attribute", "varying", "uniform", "in", "out", "inout", "highp", "mediump", "lowp", "flat", "smooth", "invariant", "centroid"]);
function lex(src) {
  src = src.replace(/\/\*[\s\S]*?\*\//g, " ").replace(/\/\/[^\n]*/g, "");
  const defs = new Map(), lines = [];
  for (const l of src.split("\n")) {
    const m = /^\s*#\s*(\w+)\s*(.*)$/.exec(l);
    if (!m) lines.push(l);
    else if (m[1] === "define") {
      const d = /^(\w+)\s+(.*)$/.exec(m[2].trim());
      if (!d || /^\w+\(/.test(m[2])) nope("macro " + l);
      defs.set(d[1], d[2]);
    } else if (m[1] === "if" || m[1] === "elif" || m[1] === "else") nope("conditional compilation");
  }
  let text = lines.join("\n");
  for (let k = 0; k < 4; k++) for (const [n, v] of defs) text = text.replace(new RegExp(`\\b${n}\\b`, "g"), v);
  const out = [];
  const re = /\s+|((?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[fFuU]?|[A-Za-z_]\w*|\+\+|--|[-+*\/<>=!]=|&&|\|\||[-+*\/%<>=!?:;,.(){}\[\]])/gy;
  while (re.lastIndex < text.length) {
    const at = re.lastIndex, m = re.exec(text);
    if (!m) nope("character " + text[at]);
    if (m[1]) out.push(m[1]);
  }
  return out;
}
// values: numbers, booleans, arrays (vectors; GLSL arrays are objects {arr})
const isv = Array.isArray;
const map = (f, ...a) => {
  const n = Math.max(...a.map((x) => (isv(x) ? x.length : 1)));
  if (!a.some(isv)) return f(...a);
  return Array.from({ length: n }, (_, i) => f(...a.map((x) => (isv(x) ? x[i] : x))));
};
const B = {
  radians: (x) => (x * Math.PI) / 180, sin: Math.sin, cos: Math.cos, tan: Math.tan, exp: Math.exp, exp2: (x) => 2 ** x, log: Math.log, log2: Math.log2, sqrt: Math.sqrt,
  inversesqrt: (x) => 1 / Math.sqrt(x), abs: Math.abs, sign: Math.sign, floor: Math.floor, ceil: Math.ceil, fract: (x) => x - Math.floor(x), round: Math.round, trunc: Math.trunc,
  pow: (x, y) => x ** y, mod: (x, y) => x - y * Math.floor(x / y), min: (a, b) => (b < a ? b : a), max: (a, b) => (a < b ? b : a),
  clamp: (x, a, b) => (x < a ? a : x > b ? b : x), mix: (a, b, t) => (typeof t === "boolean" ? (t ? b : a) : a * (1 - t) + b * t), step: (e, x) => (x < e ? 0 : 1),
  smoothstep: (a, b, x) => {
    const t = Math.min(Math.max((x - a) / (b - a), 0), 1);
    return t * t * (3 - 2 * t);
  },
  isnan: Number.isNaN, lessThan: (a, b) => a < b, greaterThan: (a, b) => a > b, lessThanEqual: (a, b) => a <= b, greaterThanEqual: (a, b) => a >= b,
};
const BV = {
  dot: (a, b) => (isv(a) ? a.reduce((s, x, i) => s + x * b[i], 0) : a * b), length: (a) => Math.hypot(...[a].flat()), distance: (a, b) => Math.hypot(...[map((x, y) => x - y, a, b)].flat()),
  any: (a) => a.some(Boolean), all: (a) => a.every(Boolean),
};
const SW = { x: 0, y: 1, z: 2, w: 3, r: 0, g: 1, b: 2, a: 3, s: 0, t: 1, p: 2, q: 3 };
class Discard extends Error {}
class Shader {
  constructor(src) {
    this.es3 = /^\s*#version 300 es/.test(src);
    this.t = lex(src);
    this.p = 0;
    this.globals = []; // {q: Set, type, name, init}
    this.fns = new Map();
    while (this.p < this.t.length) this.top();
  }
  peek(k = 0) {
    return this.t[this.p + k];
  }
  eat(x) {
    if (this.t[this.p] !== x) throw new SyntaxError(`expected ${x}, found ${this.t[this.p]}`);
    this.p++;
  }
  is(x) {
    if (this.t[this.p] === x) {
      this.p++;
      return true;
    }
    return false;
  }
  top() {
    if (this.is(";")) return;
    if (this.is("precision")) {
      while (!this.is(";")) this.p++;
      return;
    }
    if (this.is("layout")) while (!this.is(")")) this.p++;
    const q = new Set();
    while (QUAL.has(this.peek())) q.add(this.t[this.p++]);
    const type = this.t[this.p++];
    if (!TYPES.test(type)) nope("type " + type);
    const name = this.t[this.p++];
    if (this.is("(")) {
      const params = [];
      while (!this.is(")")) {
        this.is(",");
        const pq = new Set();
        while (QUAL.has(this.peek())) pq.add(this.t[this.p++]);
        if (pq.has("out") || pq.has("inout")) nope("out parameter");
        const pt = this.t[this.p++];
        if (pt === "void") continue;
        params.push({ type: pt, name: this.t[this.p++] });
        if (this.peek() === "[") nope("array parameter");
      }
      if (this.is(";")) return;
      if (this.fns.has(name)) nope("overloading");
      this.fns.set(name, { type, params, body: this.block() });
      return;
    }
    this.p--;
    for (const d of this.declarators(type)) this.globals.push({ q, ...d });
  }
  declarators(type) {
    const out = [];
    let dims0 = null;
    if (this.is("[")) {
      dims0 = this.peek() === "]" ? { e: "none" } : this.expr();
      this.eat("]");
    }
    do {
      const name = this.t[this.p++];
      let dims = dims0;
      if (this.is("[")) {
        dims = this.peek() === "]" ? { e: "none" } : this.expr();
        this.eat("]");
      }
      out.push({ type, name, dims, init: this.is("=") ? this.assign() : null });
    } while (this.is(","));
    this.eat(";");
    return out;
  }
  block() {
    this.eat("{");
    const s = [];
    while (!this.is("}")) s.push(this.stmt());
    return { s: "block", body: s };
  }
  stmt() {
    const k = this.peek();
    if (k === "{") return this.block();
    if (this.is(";")) return { s: "block", body: [] };
    if (this.is("if")) {
      this.eat("(");
      const c = this.expr();
      this.eat(")");
      const a = this.stmt();
      return { s: "if", c, a, b: this.is("else") ? this.stmt() : null };
    }
    if (this.is("for")) {
      this.eat("(");
      const init = this.is(";") ? null : this.stmt();
      const c = this.peek() === ";" ? null : this.expr();
      this.eat(";");
      const inc = this.peek() === ")" ? null : this.expr();
      this.eat(")");
      return { s: "for", init, c, inc, body: this.stmt() };
    }
    if (this.is("while")) {
      this.eat("(");
      const c = this.expr();
      this.eat(")");
      return { s: "for", init: null, c, inc: null, body: this.stmt() };
    }
    if (this.is("return")) {
      const e = this.peek() === ";" ? null : this.expr();
      this.eat(";");
      return { s: "return", e };
    }
    if (k === "break" || k === "continue" || k === "discard") {
      this.p++;
      this.eat(";");
      return { s: k };
    }
    if (QUAL.has(k) || (TYPES.test(k) && this.peek(1) !== "(" && !(this.peek(1) === "[" && this.t.indexOf("]", this.p) >= 0 && this.t[this.t.indexOf("]", this.p) + 1] === "("))) {
      while (QUAL.has(this.peek())) this.p++;
      const type = this.t[this.p++];
      if (!TYPES.test(type)) nope("type " + type);
      return { s: "decl", d: this.declarators(type) };
    }
    const e = this.expr();
    this.eat(";");
    return { s: "expr", e };
  }
  expr() {
    let e = this.assign();
    while (this.is(",")) e = { e: "seq", a: e, b: this.assign() };
    return e;
  }
  assign() {
    const l = this.tern();
    const op = this.peek();
    if (["=", "+=", "-=", "*=", "/="].includes(op)) {
      this.p++;
      return { e: "set", op, l, r: this.assign() };
    }
    return l;
  }
  tern() {
    const c = this.bin(0);
    if (!this.is("?")) return c;
    const a = this.assign();
    this.eat(":");
    return { e: "?", c, a, b: this.assign() };
  }
  bin(l) {
    const LV = [["||"], ["&&"], ["==", "!="], ["<", ">", "<=", ">="], ["+", "-"], ["*", "/", "%"]];
    if (l === LV.length) return this.unary();
    let a = this.bin(l + 1);
    while (LV[l].includes(this.peek())) a = { e: "bin", op: this.t[this.p++], a, b: this.bin(l + 1) };
    return a;
  }
  unary() {
    if (["-", "+", "!"].includes(this.peek())) return { e: "un", op: this.t[this.p++], a: this.unary() };
    if (this.peek() === "++" || this.peek() === "--") {
      const op = this.t[this.p++] === "++" ? "+=" : "-=";
      return { e: "set", op, l: this.unary(), r: { e: "num", v: 1, int: true } };
    }
    let a = this.prim();
    for (;;) {
      if (this.is(".")) {
        const f = this.t[this.p++];
        if (f === "length" && this.is("(")) {
          this.eat(")");
          a = { e: "len", a };
        } else a = { e: "sw", a, f };
      } else if (this.is("[")) {
        a = { e: "ix", a, i: this.expr() };
        this.eat("]");
      } else if (this.peek() === "++" || this.peek() === "--") {
        const op = this.t[this.p++] === "++" ? "+=" : "-=";
        a = { e: "post", l: a, op };
      } else return a;
    }
  }
  prim() {
    const k = this.t[this.p++];
    if (k === "(") {
      const e = this.expr();
      this.eat(")");
      return e;
    }
    if (/^[\d.]/.test(k)) return { e: "num", v: parseFloat(k), int: /^\d+[uU]?$/.test(k) };
    if (k === "true" || k === "false") return { e: "num", v: k === "true", int: false };
    if (!/^[A-Za-z_]/.test(k)) throw new SyntaxError("unexpected " + k);
    let array = false;
    if (TYPES.test(k) && this.is("[")) {
      if (this.peek() !== "]") this.expr();
      this.eat("]");
      array = true;
    }
    if (this.is("(")) {
      const a = [];
      while (!this.is(")")) {
        a.push(this.assign());
        this.is(",");
      }
      return { e: "call", f: k, a, array };
    }
    return { e: "var", n: k };
  }

  // ---- execution
  run(env, sample) {
    this.sample = sample;
    this.steps = 0;
    const g = new Map();
    this.scopes = [g];
    for (const d of this.globals) {
      if (d.q.has("const") || d.init) this.declare(d);
      else if (d.name in env) g.set(d.name, env[d.name]);
      else this.declare(d);
    }
    for (const k of ["gl_FragCoord"]) if (k in env) g.set(k, env[k]);
    g.set("gl_Position", [0, 0, 0, 1]);
    g.set("gl_FragColor", [0, 0, 0, 0]);
    g.set("gl_PointSize", 1);
    if (!this.fns.has("main")) throw new SyntaxError("no main");
    this.call("main", []);
    return g;
  }
  declare(d) {
    let v;
    if (d.dims) {
      const n = d.init ? null : this.ev(d.dims);
      v = d.init ? { arr: [...this.ev(d.init).arr] } : { arr: Array.from({ length: n }, () => this.zero(d.type)) };
    } else {
      v = d.init ? this.ev(d.init) : this.zero(d.type);
      if (isv(v)) v = [...v];
    }
    this.scopes[this.scopes.length - 1].set(d.name, v);
  }
  zero(t) {
    return SIZE[t] ? new Array(SIZE[t]).fill(0) : t === "bool" ? false : 0;
  }
  scope(n) {
    for (let i = this.scopes.length - 1; i >= 0; i--) if (this.scopes[i].has(n)) return this.scopes[i];
    throw new SyntaxError(`undeclared ${n}`);
  }
  call(name, args) {
    const f = this.fns.get(name);
    const old = this.scopes;
    this.scopes = [old[0], new Map(f.params.map((p, i) => [p.name, isv(args[i]) ? [...args[i]] : args[i]]))];
    const r = this.ex(f.body);
    this.scopes = old;
    return r?.k === "return" ? r.v : undefined;
  }
  ex(s) {
    if (++this.steps > 100000) nope("very long shader");
    switch (s.s) {
      case "block": {
        this.scopes.push(new Map());
        let r;
        for (const x of s.body) if ((r = this.ex(x))) break;
        this.scopes.pop();
        return r;
      }
      case "decl":
        for (const d of s.d) this.declare(d);
        return;
      case "expr":
        this.ev(s.e);
        return;
      case "if":
        return this.ev(s.c) ? this.ex(s.a) : s.b ? this.ex(s.b) : undefined;
      case "for": {
        this.scopes.push(new Map());
        let out;
        if (s.init) this.ex(s.init);
        while (!s.c || this.ev(s.c)) {
          const r = this.ex(s.body);
          if (r?.k === "break") break;
          if (r?.k === "return") {
            out = r;
            break;
          }
          if (s.inc) this.ev(s.inc);
        }
        this.scopes.pop();
        return out;
      }
      case "return":
        return { k: "return", v: s.e ? this.ev(s.e) : undefined };
      case "discard":
        throw new Discard();
      default:
        return { k: s.s };
    }
  }
  store(l, v) {
    if (isv(v)) v = [...v];
    if (l.e === "var") this.scope(l.n).set(l.n, v);
    else if (l.e === "ix") {
      const a = this.ev(l.a);
      (a.arr ?? a)[this.ev(l.i)] = v;
      if (isv(a)) this.store(l.a, a);
    } else if (l.e === "sw") {
      const a = [...this.ev(l.a)];
      [...l.f].forEach((c, i) => (a[SW[c]] = isv(v) ? v[i] : v));
      this.store(l.a, a);
    } else throw new SyntaxError("not assignable");
  }
  ev(x) {
    switch (x.e) {
      case "num":
        return x.v;
      case "var":
        return this.scope(x.n).get(x.n);
      case "seq":
        this.ev(x.a);
        return this.ev(x.b);
      case "?":
        return this.ev(x.c) ? this.ev(x.a) : this.ev(x.b);
      case "un": {
        const a = this.ev(x.a);
        return x.op === "!" ? !a : x.op === "-" ? map((v) => -v, a) : a;
      }
      case "bin":
        return this.op(x.op, x.a, x.b);
      case "set": {
        const v = x.op === "=" ? this.ev(x.r) : this.op(x.op[0], x.l, x.r);
        this.store(x.l, v);
        return v;
      }
      case "post": {
        const v = this.ev(x.l);
        this.store(x.l, map((a) => a + (x.op === "+=" ? 1 : -1), v));
        return v;
      }
      case "sw": {
        const a = this.ev(x.a);
        const v = [...x.f].map((c) => (SW[c] === undefined ? nope("field " + x.f) : a[SW[c]]));
        return v.length === 1 ? v[0] : v;
      }
      case "len":
        return this.ev(x.a).arr?.length ?? this.ev(x.a).length;
      case "ix": {
        const a = this.ev(x.a);
        return (a.arr ?? a)[this.ev(x.i)];
      }
      case "call": {
        const a = x.a.map((y) => this.ev(y));
        if (x.array) return { arr: a };
        if (this.fns.has(x.f)) return this.call(x.f, a);
        if (TYPES.test(x.f)) {
          const flat = a.flat().map(Number);
          const n = SIZE[x.f] ?? 1;
          const cv = x.f[0] === "i" || x.f[0] === "u" ? Math.trunc : x.f[0] === "b" ? Boolean : (v) => v;
          if (n === 1) return cv(flat[0]);
          if (flat.length === 1) return new Array(n).fill(cv(flat[0]));
          if (flat.length < n) throw new SyntaxError("too few components");
          return flat.slice(0, n).map(cv);
        }
        if (x.f === "texture2D" || x.f === "texture") {
          if ((x.f === "texture") !== this.es3) throw new SyntaxError(`${x.f} is of another language version`);
          return this.sample(a[0], a[1]);
        }
        if (x.f === "texelFetch" || x.f === "textureSize") {
          if (!this.es3) throw new SyntaxError(`${x.f} is of another language version`);
          return this.sample(a[0], a[1], x.f);
        }
        if (B[x.f]) return map(B[x.f], ...a);
        if (BV[x.f]) return BV[x.f](...a);
        return nope("function " + x.f);
      }
    }
    return nope("expression");
  }
  int(e) {
    // whether an expression is an integer, as far as division is concerned
    if (e.e === "num") return e.int;
    if (e.e === "call") return /^u?int$|textureSize/.test(e.f) || /^[iu]vec/.test(e.f);
    if (e.e === "bin") return this.int(e.a) && this.int(e.b);
    return false;
  }
  op(o, ea, eb) {
    if (o === "&&") return this.ev(ea) && this.ev(eb);
    if (o === "||") return this.ev(ea) || this.ev(eb);
    const a = this.ev(ea), b = this.ev(eb);
    switch (o) {
      case "+":
        return map((x, y) => x + y, a, b);
      case "-":
        return map((x, y) => x - y, a, b);
      case "*":
        return map((x, y) => x * y, a, b);
      case "/":
        return map((x, y) => (this.int(ea) && this.int(eb) ? Math.trunc(x / y) : x / y), a, b);
      case "%":
        return map((x, y) => x % y, a, b);
      case "<":
        return a < b;
      case ">":
        return a > b;
      case "<=":
        return a <= b;
      case ">=":
        return a >= b;
      case "==":
        return isv(a) ? a.every((v, i) => v === b[i]) : a === b;
      case "!=":
        return isv(a) ? a.some((v, i) => v !== b[i]) : a !== b;
    }
    return nope("operator " + o);
  }
}

/** Parsing takes longer than everything else here. */
const compiled = new Map();

// ---- the context ------------------------------------------------------------------------------
/** `size()` is the canvas size, `onDraw(pixels or null)` is told the new picture (top row first). */
export function makeGL(version, canvas, size, onDraw) {
  const two = version === "webgl2";
  const K = two ? { ...C, ...C2 } : C;
  const st = { unknown: null, err: 0, last: null };
  const fail = (e) => {
    if (!st.err) st.err = e;
    st.last = e;
  };
  const ext = new Set();
  let units = {}, unit = 0, prog = null, arrayBuf = null, elemBuf = null, vp = null, clearColor = [0, 0, 0, 0], flip = false;
  const attribs = [];
  let frame = null;
  const pic = () => {
    const { w, h } = size();
    if (!frame || frame.w !== w || frame.h !== h) frame = { w, h, data: new Float64Array(w * h * 4) };
    return frame;
  };
  const show = () => {
    const f = pic();
    const data = new Uint8ClampedArray(f.w * f.h * 4);
    for (let y = 0; y < f.h; y++)
      for (let x = 0; x < f.w * 4; x++) data[y * f.w * 4 + x] = Math.round(Math.min(Math.max(f.data[(f.h - 1 - y) * f.w * 4 + x], 0), 1) * 255);
    onDraw({ w: f.w, h: f.h, data, unknown: st.unknown, images: Object.values(units).map((t) => t?.image).filter(Boolean), uniforms: Object.values(prog?.uniforms ?? {}) });
  };
  const guard = (f) => (...a) => {
    try {
      return f(...a);
    } catch (e) {
      if (e instanceof Unknown) st.unknown = e.message;
      else throw e;
    }
  };
  const typed = (type, d) => (type === C.FLOAT ? d instanceof Float32Array || d?.constructor?.name === "Float32Array" : /^Uint8(Clamped)?Array$/.test(d?.constructor?.name ?? ""));
  function upload(tex, w, h, ifmt, fmt, type, data) {
    if (fmt === undefined || type === undefined || ifmt === undefined || !NCOMP.has(fmt)) return fail(C.INVALID_ENUM);
    if (two) {
      const ok = FORMATS2.get(ifmt);
      if (!ok) return fail(C.INVALID_VALUE);
      if (!ok.some(([f, t]) => f === fmt && t === type)) return fail(C.INVALID_OPERATION);
    } else {
      if (ifmt !== fmt) return fail(C.INVALID_OPERATION);
      if (type === C.FLOAT) {
        if (!ext.has("OES_texture_float")) return fail(C.INVALID_ENUM);
      } else if (type !== C.UNSIGNED_BYTE) return nope("texture type");
    }
    const n = NCOMP.get(fmt);
    if (type !== C.FLOAT && type !== C.UNSIGNED_BYTE) return nope("texture type");
    if (w < 0 || h < 0 || w > 16384 || h > 16384) return fail(C.INVALID_VALUE);
    if (data) {
      if (!typed(type, data)) return fail(C.INVALID_OPERATION);
      const per = n * (type === C.FLOAT ? 4 : 1);
      const row = Math.ceil((w * per) / tex.align) * tex.align;
      if (data.byteLength < row * (h - 1) + w * per) return fail(C.INVALID_OPERATION);
      const esz = type === C.FLOAT ? 1 : 1;
      const stride = (type === C.FLOAT ? row / 4 : row) * esz;
      const px = [];
      for (let y = 0; y < h; y++)
        for (let x = 0; x < w; x++) {
          const yy = flip ? h - 1 - y : y;
          const c = Array.from({ length: n }, (_, k) => data[yy * stride + x * n + k] / (type === C.FLOAT ? 1 : 255));
          px.push(fmt === C.LUMINANCE ? [c[0], c[0], c[0], 1] : fmt === C.ALPHA ? [0, 0, 0, c[0]] : fmt === C.LUMINANCE_ALPHA ? [c[0], c[0], c[0], c[1]] : [c[0] ?? 0, c[1] ?? 0, c[2] ?? 0, c[3] ?? 1]);
        }
      tex.image = { w, h, px, float: type === C.FLOAT, data: Array.from(data) };
    } else tex.image = { w, h, px: Array.from({ length: w * h }, () => [0, 0, 0, 0]), float: type === C.FLOAT, data: null };
  }
  let align = 4;
  function sample(u, at, how) {
    const tex = units[u];
    const im = tex?.image;
    const black = [0, 0, 0, 1];
    if (!im || !im.w || !im.h) return how === "textureSize" ? [0, 0] : black;
    if (how === "textureSize") return [im.w, im.h];
    const P = tex.params;
    const min = P[C.TEXTURE_MIN_FILTER] ?? C.NEAREST_MIPMAP_LINEAR, mag = P[C.TEXTURE_MAG_FILTER] ?? C.LINEAR;
    const ws = P[C.TEXTURE_WRAP_S] ?? C.REPEAT, wt = P[C.TEXTURE_WRAP_T] ?? C.REPEAT;
    const pot = (n) => (n & (n - 1)) === 0;
    if (min !== C.NEAREST && min !== C.LINEAR && !tex.mips) return black;
    if (!two && (!pot(im.w) || !pot(im.h)) && (ws !== C.CLAMP_TO_EDGE || wt !== C.CLAMP_TO_EDGE || (min !== C.NEAREST && min !== C.LINEAR))) return black;
    if (im.float && (min !== C.NEAREST || mag !== C.NEAREST) && !ext.has("OES_texture_float_linear")) return black;
    if (how === "texelFetch") return im.px[at[1] * im.w + at[0]] ?? [0, 0, 0, 0];
    const wrap = (i, n, m) => (m === C.CLAMP_TO_EDGE ? Math.min(Math.max(i, 0), n - 1) : m === C.REPEAT ? ((i % n) + n) % n : nope("mirrored texture"));
    const px = (x, y) => im.px[wrap(y, im.h, wt) * im.w + wrap(x, im.w, ws)];
    if (mag === C.NEAREST) return [...px(Math.floor(at[0] * im.w), Math.floor(at[1] * im.h))];
    const fx = at[0] * im.w - 0.5, fy = at[1] * im.h - 0.5, x = Math.floor(fx), y = Math.floor(fy), a = fx - x, b = fy - y;
    return [0, 1, 2, 3].map((k) => (px(x, y)[k] * (1 - a) + px(x + 1, y)[k] * a) * (1 - b) + (px(x, y + 1)[k] * (1 - a) + px(x + 1, y + 1)[k] * a) * b);
  }
  function draw(mode, idx) {
    const f = pic();
    if (!prog?.linked) return fail(C.INVALID_OPERATION);
    const verts = [];
    for (const i of idx) {
      const env = { ...prog.uniforms };
      for (const d of prog.vs.globals)
        if (d.q.has("attribute") || d.q.has("in")) {
          const a = attribs[prog.locs[d.name]];
          if (!a?.on) {
            env[d.name] = SIZE[d.type] ? [0, 0, 0, 1].slice(0, SIZE[d.type]) : 0;
            continue;
          }
          const b = a.buf?.data;
          if (!b) return fail(C.INVALID_OPERATION);
          const at = (a.offset + i * (a.stride || a.size * 4)) / 4;
          if (at + a.size > b.length) return fail(C.INVALID_OPERATION);
          const v = [0, 0, 0, 1];
          for (let k = 0; k < a.size; k++) v[k] = b[at + k];
          env[d.name] = SIZE[d.type] ? v.slice(0, SIZE[d.type]) : v[0];
        }
      const g = prog.vs.run(env, sample);
      const p = g.get("gl_Position");
      const out = {};
      for (const d of prog.vs.globals) if (d.q.has("varying") || d.q.has("out")) out[d.name] = g.get(d.name);
      if (p[3] !== 1) nope("perspective");
      const v = vp ?? [0, 0, f.w, f.h];
      verts.push({ x: v[0] + ((p[0] + 1) / 2) * v[2], y: v[1] + ((p[1] + 1) / 2) * v[3], out });
    }
    const tris = [];
    if (mode === C.TRIANGLE_STRIP) for (let i = 2; i < verts.length; i++) tris.push([verts[i - 2], verts[i - 1], verts[i]]);
    else if (mode === C.TRIANGLES) for (let i = 2; i < verts.length; i += 3) tris.push([verts[i - 2], verts[i - 1], verts[i]]);
    else if (mode === C.TRIANGLE_FAN) for (let i = 2; i < verts.length; i++) tris.push([verts[0], verts[i - 1], verts[i]]);
    else nope("primitive");
    const done = new Uint8Array(f.w * f.h);
    const fragOut = prog.fs.globals.find((d) => d.q.has("out"))?.name ?? "gl_FragColor";
    const v = vp ?? [0, 0, f.w, f.h];
    for (const [a, b, c] of tris) {
      const area = (b.x - a.x) * (c.y - a.y) - (c.x - a.x) * (b.y - a.y);
      if (area === 0) continue;
      for (let y = 0; y < f.h; y++)
        for (let x = 0; x < f.w; x++) {
          if (done[y * f.w + x] || x < v[0] || y < v[1] || x >= v[0] + v[2] || y >= v[1] + v[3]) continue;
          const X = x + 0.5, Y = y + 0.5;
          const wa = ((b.x - X) * (c.y - Y) - (c.x - X) * (b.y - Y)) / area;
          const wb = ((c.x - X) * (a.y - Y) - (a.x - X) * (c.y - Y)) / area;
          const wc = 1 - wa - wb;
          if (wa < -1e-9 || wb < -1e-9 || wc < -1e-9) continue;
          const env = { ...prog.uniforms, gl_FragCoord: [X, Y, 0.5, 1] };
          for (const n in a.out) env[n] = map((p, q, r) => p * wa + q * wb + r * wc, a.out[n], b.out[n], c.out[n]);
          try {
            const col = prog.fs.run(env, sample).get(fragOut);
            f.data.set(col, (y * f.w + x) * 4);
          } catch (e) {
            if (!(e instanceof Discard)) throw e;
          }
          done[y * f.w + x] = 1;
        }
    }
    show();
  }
  const setUniform = (loc, v) => {
    if (!loc) return;
    if (!prog || loc.p !== prog) return fail(C.INVALID_OPERATION);
    prog.uniforms[loc.name] = v;
  };
  const impl = {
    canvas,
    resized: () => {
      frame = null;
    },
    get drawingBufferWidth() {
      return size().w;
    },
    get drawingBufferHeight() {
      return size().h;
    },
    getExtension: (n) => {
      const ok = two ? ["OES_texture_float_linear", "EXT_color_buffer_float"] : ["OES_texture_float", "OES_texture_float_linear"];
      if (!ok.includes(n)) return null;
      ext.add(n);
      return {};
    },
    getSupportedExtensions: () => (two ? ["OES_texture_float_linear"] : ["OES_texture_float", "OES_texture_float_linear"]),
    getError: () => {
      const e = st.err;
      st.err = 0;
      return e;
    },
    isContextLost: () => false,
    getParameter: (p) => (p === C.MAX_TEXTURE_SIZE ? 16384 : p === C.MAX_VIEWPORT_DIMS ? Int32Array.of(16384, 16384) : null),
    getContextAttributes: () => ({}),
    getShaderPrecisionFormat: () => ({ precision: 23, rangeMin: 127, rangeMax: 127 }),
    createShader: (kind) => (kind === C.VERTEX_SHADER || kind === C.FRAGMENT_SHADER ? { kind, src: "" } : (fail(C.INVALID_ENUM), null)),
    shaderSource: (s, t) => {
      s.src = String(t).trimStart().startsWith("#version") ? String(t) : String(t);
    },
    compileShader: guard((s) => {
      try {
        if (/^\s*#version 300 es/.test(s.src) && !two) throw new SyntaxError("version");
        if (!compiled.has(s.src)) compiled.set(s.src, new Shader(s.src));
        s.code = compiled.get(s.src);
        s.log = "";
      } catch (e) {
        s.code = null;
        s.log = String(e.message);
        if (e instanceof Unknown) throw e;
      }
    }),
    getShaderParameter: (s, p) => (p === C.COMPILE_STATUS ? !!s.code : true),
    getShaderInfoLog: (s) => s.log ?? "",
    deleteShader: () => {},
    createProgram: () => ({ uniforms: {}, shaders: [], locs: {}, linked: false }),
    attachShader: (p, s) => void p.shaders.push(s),
    detachShader: (p, s) => void (p.shaders = p.shaders.filter((x) => x !== s)),
    bindAttribLocation: (p, i, n) => void (p.locs[n] = i),
    linkProgram: (p) => {
      p.vs = p.shaders.find((s) => s.kind === C.VERTEX_SHADER)?.code;
      p.fs = p.shaders.find((s) => s.kind === C.FRAGMENT_SHADER)?.code;
      p.linked = !!p.vs && !!p.fs && p.vs.es3 === p.fs.es3;
      p.uniforms = {};
      if (!p.linked) return;
      let k = 0;
      for (const d of p.vs.globals)
        if (d.q.has("attribute") || (d.q.has("in") && p.vs.es3)) {
          const used = new Set(Object.values(p.locs));
          if (!(d.name in p.locs)) {
            while (used.has(k)) k++;
            p.locs[d.name] = k++;
          }
        }
      for (const s of [p.vs, p.fs]) for (const d of s.globals) if (d.q.has("uniform")) p.uniforms[d.name] = s.zero(d.type);
    },
    getProgramParameter: (p, q) => (q === C.LINK_STATUS || q === C.VALIDATE_STATUS ? p.linked : null),
    getProgramInfoLog: () => "",
    validateProgram: () => {},
    deleteProgram: () => {},
    useProgram: (p) => {
      if (p && !p.linked) return fail(C.INVALID_OPERATION);
      prog = p;
    },
    getAttribLocation: (p, n) => (p.linked ? p.locs[n] ?? -1 : (fail(C.INVALID_OPERATION), -1)),
    getUniformLocation: (p, n) => (!p.linked ? (fail(C.INVALID_OPERATION), null) : n in p.uniforms ? { p, name: n } : null),
    uniform1f: (l, v) => setUniform(l, Math.fround(v)),
    uniform1i: (l, v) => setUniform(l, Math.trunc(v)),
    uniform2f: (l, a, b) => setUniform(l, [a, b].map(Math.fround)),
    uniform3f: (l, a, b, c) => setUniform(l, [a, b, c].map(Math.fround)),
    uniform4f: (l, a, b, c, d) => setUniform(l, [a, b, c, d].map(Math.fround)),
    uniform2i: (l, a, b) => setUniform(l, [a, b]),
    uniform1fv: (l, v) => (v.length === 1 ? setUniform(l, Math.fround(v[0])) : setUniform(l, { arr: Array.from(v, Math.fround) })),
    uniform2fv: (l, v) => setUniform(l, Array.from(v, Math.fround)),
    createBuffer: () => ({ data: null }),
    deleteBuffer: () => {},
    bindBuffer: (t, b) => {
      if (t === C.ARRAY_BUFFER) arrayBuf = b;
      else if (t === C.ELEMENT_ARRAY_BUFFER) elemBuf = b;
      else fail(C.INVALID_ENUM);
    },
    bufferData: (t, d) => {
      const b = t === C.ARRAY_BUFFER ? arrayBuf : t === C.ELEMENT_ARRAY_BUFFER ? elemBuf : null;
      if (!b) return fail(C.INVALID_OPERATION);
      b.data = typeof d === "number" ? new Float32Array(d / 4) : d.slice();
    },
    bufferSubData: (t, at, d) => {
      const b = t === C.ARRAY_BUFFER ? arrayBuf : elemBuf;
      if (!b?.data) return fail(C.INVALID_OPERATION);
      b.data.set(d, at / b.data.BYTES_PER_ELEMENT);
    },
    createVertexArray: () => ({}),
    bindVertexArray: () => {},
    enableVertexAttribArray: (i) => {
      if (!(i >= 0)) return fail(C.INVALID_VALUE);
      (attribs[i] ??= {}).on = true;
    },
    disableVertexAttribArray: (i) => void ((attribs[i] ??= {}).on = false),
    vertexAttribPointer: (i, size, type, _norm, stride, offset) => {
      if (!(i >= 0)) return fail(C.INVALID_VALUE);
      if (type !== C.FLOAT) {
        st.unknown = "attribute type";
        return;
      }
      if (!arrayBuf) return fail(C.INVALID_OPERATION);
      Object.assign((attribs[i] ??= {}), { buf: arrayBuf, size, stride, offset });
    },
    createTexture: () => ({ params: {}, image: null, align: 4 }),
    deleteTexture: (t) => {
      for (const u in units) if (units[u] === t) units[u] = null;
    },
    activeTexture: (u) => {
      if (!(u >= C.TEXTURE0 && u < C.TEXTURE0 + 16)) return fail(C.INVALID_ENUM);
      unit = u - C.TEXTURE0;
    },
    bindTexture: (t, tex) => {
      if (t !== C.TEXTURE_2D) return fail(C.INVALID_ENUM);
      units[unit] = tex;
    },
    texParameteri: (t, p, v) => {
      if (t !== C.TEXTURE_2D || p === undefined || v === undefined) return fail(C.INVALID_ENUM);
      if (!units[unit]) return fail(C.INVALID_OPERATION);
      units[unit].params[p] = v;
    },
    pixelStorei: (p, v) => {
      if (p === C.UNPACK_ALIGNMENT) align = v;
      else if (p === C.UNPACK_FLIP_Y_WEBGL) flip = !!v;
      else if (p !== C.UNPACK_PREMULTIPLY_ALPHA_WEBGL && p !== C.UNPACK_COLORSPACE_CONVERSION_WEBGL) st.unknown = "pixelStorei";
    },
    texImage2D: guard((...a) => {
      const tex = units[unit];
      if (a[0] !== C.TEXTURE_2D) return fail(C.INVALID_ENUM);
      if (!tex) return fail(C.INVALID_OPERATION);
      if (a.length < 9) nope("texture from an element");
      if (a[1] !== 0 || a[5] !== 0) nope("texture level");
      tex.align = align;
      upload(tex, a[3], a[4], a[2], a[6], a[7], a[8]);
      if (tex.image) Object.assign(tex, { ifmt: a[2] });
    }),
    texStorage2D: guard((_t, _levels, ifmt, w, h) => {
      const tex = units[unit];
      if (!tex) return fail(C.INVALID_OPERATION);
      const f = FORMATS2.get(ifmt);
      if (!f || ifmt === C.RGBA || ifmt === C.RGB) return fail(C.INVALID_ENUM);
      upload(tex, w, h, ifmt, f[0][0], f[0][1], null);
      tex.ifmt = ifmt;
    }),
    texSubImage2D: guard((...a) => {
      const tex = units[unit];
      if (!tex?.image) return fail(C.INVALID_OPERATION);
      const [, level, x, y, w, h, fmt, type, data] = a;
      if (level !== 0 || x !== 0 || y !== 0 || w !== tex.image.w || h !== tex.image.h) {
        if (x + w > tex.image.w || y + h > tex.image.h) return fail(C.INVALID_VALUE);
        nope("part of a texture");
      }
      tex.align = align;
      upload(tex, w, h, tex.ifmt, fmt, type, data);
    }),
    generateMipmap: () => {
      if (units[unit]) units[unit].mips = true;
    },
    viewport: (x, y, w, h) => void (vp = [x, y, w, h]),
    clearColor: (...c) => void (clearColor = c),
    clear: (m) => {
      if (m & C.COLOR_BUFFER_BIT) {
        const f = pic();
        for (let i = 0; i < f.w * f.h; i++) f.data.set(clearColor, i * 4);
      }
    },
    enable: (k) => {
      if (k === C.BLEND || k === C.SCISSOR_TEST || k === C.CULL_FACE) st.unknown = "enable";
    },
    disable: () => {},
    flush: () => {},
    finish: () => {},
    scissor: () => {},
    blendFunc: () => {},
    drawArrays: guard((mode, first, n) => {
      try {
        draw(mode, Array.from({ length: n }, (_, i) => first + i));
      } catch (e) {
        if (e instanceof Unknown) {
          st.unknown = e.message;
          show();
        } else throw e;
      }
    }),
    drawElements: guard((mode, n, _type, off) => {
      if (!elemBuf?.data) return fail(C.INVALID_OPERATION);
      const e = elemBuf.data, s = off / e.BYTES_PER_ELEMENT;
      try {
        draw(mode, Array.from(e.slice(s, s + n)));
      } catch (x) {
        if (x instanceof Unknown) {
          st.unknown = x.message;
          show();
        } else throw x;
      }
    }),
  };
  return new Proxy(impl, {
    get(t, k) {
      if (k in t) return t[k];
      if (typeof k !== "string") return undefined;
      if (/^[A-Z][A-Z0-9_]*$/.test(k)) return K[k];
      return () => {
        st.unknown = "gl." + k;
        return null;
      };
    },
  });
}
