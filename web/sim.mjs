// Deterministic world for the web parts: choice streams, virtual clock, pending operations, history.
// All asynchrony of the code under test comes from promises the world settles, one at a time,
// in an order and with an outcome drawn from the seed.

export const WORK = 0, FAULT = 1, SCHED = 2;

export function hashText(s, seed = 0) {
  let a = 0xdeadbeef ^ seed, b = 0x41c6ce57 ^ seed;
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    a = Math.imul(a ^ c, 2654435761);
    b = Math.imul(b ^ c, 1597334677);
  }
  a = Math.imul(a ^ (a >>> 16), 2246822507) ^ Math.imul(b ^ (b >>> 13), 3266489909);
  b = Math.imul(b ^ (b >>> 16), 2246822507) ^ Math.imul(a ^ (a >>> 13), 3266489909);
  return 4294967296 * (2097151 & b) + (a >>> 0);
}

function generator(seed) {
  // sfc32
  let a = seed >>> 0, b = Math.floor(seed / 4294967296) >>> 0, c = 0x9e3779b9, d = 1;
  const next = () => {
    const t = (((a + b) | 0) + d) | 0;
    d = (d + 1) | 0;
    a = b ^ (b >>> 9);
    b = (c + (c << 3)) | 0;
    c = (c << 21) | (c >>> 11);
    c = (c + t) | 0;
    return t >>> 0;
  };
  for (let i = 0; i < 12; i++) next();
  return next;
}

export class Violation extends Error {
  constructor(cls, msg) {
    super(msg);
    this.cls = cls;
  }
}
export class HarnessError extends Error {}

const realImmediate = setImmediate;
/** Lets every microtask that can run, run. */
export const drain = () => new Promise((r) => realImmediate(r));

export class World {
  constructor(seed, replay, { trace = false, thorough = false } = {}) {
    this.gen = [0, 1, 2].map((k) => generator(hashText(seed + ":" + k)));
    this.replay = replay;
    this.pos = [0, 0, 0];
    this.streams = [[], [], []];
    this.spans = [];
    this.thorough = thorough;
    this.tracing = trace;
    this.lines = [];
    this.h = 17;
    this.order = 17;
    this.now = 0;
    this.pending = [];
    this.serial = 0;
    this.steps = 0;
    this.counts = {};
    this.faults = {};
    this.nontrivial = 0;
    this.reordered = 0;
    this.states = 17;
    this.failed = null;
  }
  draw(stream, n) {
    if (n <= 1) return 0;
    let v;
    if (this.replay) {
      v = (this.replay[stream][this.pos[stream]++] ?? 0) % n;
    } else {
      v = this.gen[stream]() % n;
    }
    this.streams[stream].push(v);
    return v;
  }
  w(n) {
    return this.draw(WORK, n);
  }
  range(lo, hi) {
    return lo + this.w(hi - lo + 1);
  }
  pick(xs) {
    return xs[this.w(xs.length)];
  }
  /** true with probability num/den; false is the simple alternative */
  chance(stream, num, den) {
    return this.draw(stream, den) >= den - num;
  }
  async span(f) {
    const at = this.streams[0].length;
    const r = await f();
    this.spans.push([at, this.streams[0].length]);
    return r;
  }
  event(text) {
    this.h = hashText(text, this.h | 0);
    if (this.tracing && this.lines.length < 2000) this.lines.push(`${this.now.toFixed(0).padStart(6)} ms  ${text}`);
  }
  count(k) {
    this.counts[k] = (this.counts[k] ?? 0) + 1;
  }
  fault(k) {
    this.faults[k] = (this.faults[k] ?? 0) + 1;
  }
  state(text) {
    this.states = hashText(text, this.states | 0);
  }
  /** Remembered rather than only thrown: code under test may swallow what is thrown into it. */
  violate(cls, msg) {
    const v = new Violation(cls, msg);
    if (!this.failed) {
      this.failed = v;
      this.event(`VIOLATION ${cls}: ${msg}`);
    }
    throw v;
  }
  latency(kind) {
    // 0: at once; otherwise from instant to hours, by orders of magnitude
    const m = this.draw(SCHED, 5);
    if (m === 0) return 0;
    return (1 + this.draw(SCHED, 9)) * 10 ** (m - 1) * (kind === "long" ? 10 : 1);
  }
  /** An operation of the environment. `act` runs when it completes and decides the outcome. */
  op(what, act, { kind = "short", delay = null, owner = null } = {}) {
    const id = ++this.serial;
    const due = this.now + (delay ?? this.latency(kind));
    let resolve, reject;
    const p = new Promise((a, b) => {
      resolve = a;
      reject = b;
    });
    this.pending.push({ id, due, what, act, resolve, reject, owner });
    this.event(`start #${id} ${what}`);
    return p;
  }
  timer(ms, f, owner) {
    const id = ++this.serial;
    const due = this.now + Math.max(0, Number(ms) || 0);
    this.pending.push({ id, due, what: "timer", act: f, resolve: () => {}, reject: () => {}, owner });
    return id;
  }
  cancel(id) {
    this.pending = this.pending.filter((p) => p.id !== id);
  }
  /** Drops what belongs to a killed context: its promises never settle. */
  drop(owner) {
    this.pending = this.pending.filter((p) => p.owner !== owner);
  }
  nextDue() {
    return this.pending.reduce((m, p) => Math.min(m, p.due), Infinity);
  }
  /** Completes the operation that is due first. */
  async step() {
    let best = null;
    for (const p of this.pending) if (!best || p.due < best.due || (p.due === best.due && p.id < best.id)) best = p;
    if (!best) return false;
    if (this.pending.some((p) => p.id < best.id)) {
      this.reordered++;
      this.nontrivial++;
    }
    this.pending.splice(this.pending.indexOf(best), 1);
    this.now = Math.max(this.now, best.due);
    this.steps++;
    if (this.steps > 20000) this.violate("livelock", "more than 20000 completed operations in one run");
    this.order = hashText(`${best.what}#${best.id}`, this.order | 0);
    let out;
    try {
      out = [best.act(), true];
    } catch (e) {
      if (e instanceof Violation || e instanceof HarnessError) throw e;
      out = [e, false];
    }
    this.event(`finish #${best.id} ${best.what}${out[1] ? "" : " failed: " + (out[0]?.message ?? out[0])}`);
    (out[1] ? best.resolve : best.reject)(out[0]);
    await drain();
    if (this.failed) throw this.failed;
    return true;
  }
}

/** Exceptions as browsers raise them. */
export class DOMErr extends Error {
  constructor(name, msg) {
    super(msg);
    this.name = name;
  }
}
