// C20: the service worker with a simulated network, cache store, lifecycle and crashes.
import vm from "node:vm";
import fs from "node:fs";
import { DOMErr, drain, FAULT, hashText, WORK } from "./sim.mjs";

const FILE = "/repo/web-spectrogram/sw.js";
const ORIGIN = "https://viewer.test";
const LISTED = ["/", "/index.html", "/app.mjs", "/manifest.json"];
const abs = (u) => new URL(u, ORIGIN + "/sw.js").href;
const keyOf = (u, ignoreSearch) => {
  const x = new URL(u);
  x.hash = "";
  if (ignoreSearch) x.search = "";
  return x.href;
};
let script = null;

/** Classes and store of one browser profile; what it holds outlives worker processes. */
function makeBrowser(world) {
  const net = { online: true, version: 1, offline: false, log: [], faulty: false };
  const store = { caches: new Map() }; // name -> Map(url -> record)
  const watch = { attempt: null, judgeMatch: true };
  class Headers {
    constructor(init) {
      this.m = new Map();
      if (init instanceof Headers) for (const [k, v] of init.m) this.m.set(k, v);
      else if (init) for (const [k, v] of Array.isArray(init) ? init : Object.entries(init)) this.m.set(k.toLowerCase(), String(v));
    }
    get(k) {
      return this.m.get(k.toLowerCase()) ?? null;
    }
    has(k) {
      return this.m.has(k.toLowerCase());
    }
    set(k, v) {
      this.m.set(k.toLowerCase(), String(v));
    }
    append(k, v) {
      this.m.set(k.toLowerCase(), String(v));
    }
    delete(k) {
      this.m.delete(k.toLowerCase());
    }
    forEach(f) {
      this.m.forEach((v, k) => f(v, k, this));
    }
    [Symbol.iterator]() {
      return this.m[Symbol.iterator]();
    }
  }
  class Body {
    use() {
      if (this.bodyUsed) return Promise.reject(new TypeError("Body has already been consumed."));
      if (this._body !== null) this.bodyUsed = true;
      return Promise.resolve(this._body ?? "");
    }
    text() {
      return this.use();
    }
    json() {
      return this.use().then(JSON.parse);
    }
    arrayBuffer() {
      return this.use().then((t) => new TextEncoder().encode(t).buffer);
    }
    blob() {
      return this.use().then((t) => ({ size: t.length, text: async () => t }));
    }
    get body() {
      return this._body === null ? null : { locked: this.bodyUsed };
    }
  }
  class Request extends Body {
    constructor(input, init = {}) {
      super();
      const from = input instanceof Request ? input : null;
      if (from?.bodyUsed && init.body === undefined) throw new TypeError("Cannot construct a Request with a Request object that has already been used.");
      this.url = from ? from.url : abs(String(input));
      this.method = (init.method ?? from?.method ?? "GET").toUpperCase();
      this.headers = new Headers(init.headers ?? from?.headers);
      this.mode = init.mode ?? from?.mode ?? "cors";
      this.credentials = init.credentials ?? from?.credentials ?? "same-origin";
      this.cache = init.cache ?? from?.cache ?? "default";
      this.redirect = init.redirect ?? from?.redirect ?? "follow";
      this.destination = from?.destination ?? "";
      this._body = init.body ?? from?._body ?? null;
      if (from && from._body !== null && init.body === undefined) from.bodyUsed = true;
      this.bodyUsed = false;
      if ((this.method === "GET" || this.method === "HEAD") && this._body !== null) throw new TypeError("Request with GET/HEAD method cannot have body.");
    }
    clone() {
      if (this.bodyUsed) throw new TypeError("Request body is already used");
      const r = new Request(this.url, { method: this.method, headers: this.headers, mode: this.mode, credentials: this.credentials, cache: this.cache, redirect: this.redirect, body: this._body ?? undefined });
      r.destination = this.destination;
      return r;
    }
  }
  class Response extends Body {
    constructor(body = null, init = {}) {
      super();
      this._body = body === undefined ? null : body;
      this.status = init.status ?? 200;
      if (this.status < 200 && this.status !== 0) throw new RangeError("status");
      this.statusText = init.statusText ?? "";
      this.headers = new Headers(init.headers);
      this.type = "default";
      this.url = "";
      this.redirected = false;
      this.bodyUsed = false;
    }
    get ok() {
      return this.status >= 200 && this.status <= 299;
    }
    clone() {
      if (this.bodyUsed) throw new TypeError("Response body is already used");
      const r = new Response(this._body, this);
      r.status = this.status;
      r.type = this.type;
      r.url = this.url;
      r.serial = this.serial;
      return r;
    }
    static error() {
      const r = Object.create(Response.prototype);
      Object.assign(r, { _body: null, status: 0, statusText: "", headers: new Headers(), type: "error", url: "", bodyUsed: false });
      return r;
    }
    static redirect(url, status = 302) {
      return new Response(null, { status, headers: { location: url } });
    }
    static json(x, init) {
      return new Response(JSON.stringify(x), init);
    }
  }
  let serial = 0;
  const answer = (req) => {
    const path = new URL(req.url).pathname;
    const status = new URL(req.url).origin === ORIGIN && (LISTED.includes(path) || path.startsWith("/pkg/") || path.startsWith("/api/")) ? 200 : 404;
    const r = new Response(req.method === "HEAD" ? null : `${req.method} ${req.url} v${net.version} ${req._body ?? ""}`, { status, headers: { "content-type": "text/plain" } });
    r.type = "basic";
    r.url = req.url;
    r.serial = ++serial;
    return r;
  };
  const aborted = (sig) => sig?.aborted;
  /** One exchange with the server. */
  const network = (req, why, owner, purpose) =>
    world.op(
      `${why} ${req.method} ${req.url.replace(ORIGIN, "")}`,
      () => {
        const entry = { method: req.method, url: req.url, headers: [...req.headers].sort().join(";"), body: req._body, purpose, owner };
        net.log.push(entry);
        const fail = (what) => {
          world.fault(what);
          entry.failed = true;
          if (watch.attempt?.owner === owner && watch.attempt.open) watch.attempt.failures.push(`${what} ${req.url}`);
          throw new TypeError("Failed to fetch");
        };
        if (!net.online) fail("request while offline");
        const kind = net.faulty ? world.draw(FAULT, 8) : 0;
        if (kind === 7) fail("network failure");
        const r = answer(req);
        if (kind === 6 || kind === 5) {
          world.fault(kind === 6 ? "server error" : "partial answer");
          r.status = kind === 6 ? world.pickFrom([500, 503, 404, 429]) : 206;
          r._body = "error page " + r.serial;
        }
        if (!r.ok || r.status === 206) {
          if (purpose === "install" && watch.attempt?.owner === owner && watch.attempt.open) watch.attempt.failures.push(`status ${r.status} for ${req.url}`);
        }
        entry.response = r;
        entry.copy = { status: r.status, body: r._body, serial: r.serial };
        return r;
      },
      { owner, kind: "long" },
    );
  const storeOp = (what, act, owner) =>
    world.op(
      what,
      () => {
        if (store.faulty && world.draw(FAULT, 10) === 9) {
          world.fault("store failure: " + what.split(" ")[0]);
          if (watch.attempt?.owner === owner && watch.attempt.open) watch.attempt.failures.push(`store failure: ${what}`);
          if (watch.open) watch.open.storeFailed = true;
          throw new DOMErr("QuotaExceededError", "store failed");
        }
        return act();
      },
      { owner },
    );
  const record = (req, resp) => ({ method: req.method, url: req.url, status: resp.status, body: resp._body, headers: resp.headers, serial: resp.serial, type: resp.type });
  const revive = (rec) => {
    const r = new Response(rec.body, { headers: rec.headers });
    r.status = rec.status;
    r.type = rec.type;
    r.url = rec.url;
    r.serial = rec.serial;
    r.fromStore = true;
    return r;
  };
  const lookup = (m, req, o = {}) => {
    if (req.method !== "GET" && !o.ignoreMethod) return undefined;
    for (const [u, rec] of m) if (keyOf(u, o.ignoreSearch) === keyOf(req.url, o.ignoreSearch)) return revive(rec);
    return undefined;
  };
  const asRequest = (x) => (x instanceof Request ? x : new Request(String(x)));
  const api = (owner) => {
    class Cache {
      constructor(name) {
        this.name = name;
      }
      map() {
        return store.caches.get(this.name) ?? new Map();
      }
      addAll(list) {
        let reqs;
        try {
          reqs = [...list].map(asRequest);
          for (const r of reqs) if (r.method !== "GET") throw new TypeError("method");
        } catch (e) {
          return Promise.reject(e);
        }
        const got = reqs.map((r) =>
          network(r, "download", owner, "install").then((resp) => {
            if (!resp.ok || resp.status === 206) throw new TypeError("Request failed");
            return resp;
          }),
        );
        return Promise.all(got).then((rs) =>
          storeOp(
            `put-all ${reqs.length}`,
            () => {
              rs.forEach((r, i) => this.map().set(keyOf(reqs[i].url), record(reqs[i], r)));
            },
            owner,
          ),
        );
      }
      add(x) {
        return this.addAll([x]);
      }
      put(x, resp) {
        let req;
        try {
          req = asRequest(x);
          if (req.method !== "GET") throw new TypeError("method");
          if (resp.status === 206) throw new TypeError("partial");
          if (resp.bodyUsed) throw new TypeError("body used");
        } catch (e) {
          return Promise.reject(e);
        }
        const rec = record(req, resp);
        resp.bodyUsed = resp._body !== null;
        return storeOp(`put ${req.url.replace(ORIGIN, "")}`, () => void this.map().set(keyOf(req.url), rec), owner);
      }
      match(x, o) {
        return storeOp(`match`, () => lookup(this.map(), asRequest(x), o), owner);
      }
      matchAll(x, o) {
        return storeOp(`matchAll`, () => (x === undefined ? [...this.map().values()].map(revive) : [lookup(this.map(), asRequest(x), o)].filter(Boolean)), owner);
      }
      delete(x, o = {}) {
        return storeOp(`delete`, () => this.map().delete(keyOf(asRequest(x).url, o.ignoreSearch)), owner);
      }
      keys() {
        return storeOp(`keys`, () => [...this.map().keys()].map((u) => new Request(u)), owner);
      }
    }
    const caches = {
      open: (name) =>
        storeOp(
          `open ${name}`,
          () => {
            if (!store.caches.has(String(name))) store.caches.set(String(name), new Map());
            return new Cache(String(name));
          },
          owner,
        ),
      match: (x, o = {}) =>
        storeOp(
          `match`,
          () => {
            const req = asRequest(x);
            for (const [name, m] of store.caches) {
              if (o.cacheName !== undefined && o.cacheName !== name) continue;
              const r = lookup(m, req, o);
              if (r) return r;
            }
            return undefined;
          },
          owner,
        ),
      has: (name) => storeOp(`has`, () => store.caches.has(String(name)), owner),
      delete: (name) => storeOp(`delete ${name}`, () => store.caches.delete(String(name)), owner),
      keys: () => storeOp(`keys`, () => [...store.caches.keys()], owner),
    };
    return { caches, fetch: (x, init) => {
      let req;
      try {
        req = x instanceof Request && !init ? x : new Request(x, init);
        if (req.bodyUsed) throw new TypeError("Request body is already used");
      } catch (e) {
        return Promise.reject(e);
      }
      if (aborted(init?.signal)) return Promise.reject(new DOMErr("AbortError", "aborted"));
      if (req._body !== null) req.bodyUsed = true;
      return network(req, "fetch", owner, watch.attempt?.owner === owner && watch.attempt.open ? "install" : "page");
    } };
  };
  return { net, store, watch, api, Headers, Request, Response };
}

function boot(world, br, owner) {
  script ??= new vm.Script(fs.readFileSync(FILE, "utf8"), { filename: FILE });
  const handlers = {};
  const log = () => {};
  const { caches, fetch } = br.api(owner);
  const g = {
    caches,
    fetch,
    Headers: br.Headers,
    Request: br.Request,
    Response: br.Response,
    URL,
    URLSearchParams,
    console: { log, warn: log, error: log, info: log, debug: log },
    location: new URL(ORIGIN + "/sw.js"),
    registration: { scope: ORIGIN + "/", navigationPreload: { enable: async () => {} } },
    clients: { claim: () => world.op("claim", () => {}, { owner }), matchAll: async () => [] },
    skipWaiting: () => world.op("skipWaiting", () => {}, { owner }),
    addEventListener: (t, f) => void (handlers[t] ??= []).push(f),
    setTimeout: (f, ms, ...a) => world.timer(ms, () => f(...a), owner),
    clearTimeout: (id) => world.cancel(id),
    queueMicrotask,
    AbortController,
    TextEncoder,
    TextDecoder,
    performance: { now: () => world.now },
  };
  g.self = g;
  const c = vm.createContext(g);
  vm.runInContext("Math.random = () => 0.5; Date.now = () => 0;", c);
  script.runInContext(c);
  return {
    owner,
    fire(type, ev) {
      const list = [...(handlers[type] ?? [])];
      if (typeof g["on" + type] === "function") list.push(g["on" + type]);
      for (const f of list) {
        try {
          typeof f === "function" ? f.call(g, ev) : f.handleEvent(ev);
        } catch (e) {
          world.event(`${type} handler threw ${e?.message}`);
          ev.threw = e;
        }
      }
    },
  };
}

/** An event whose life is extended by promises, as in the specification. */
function extendable(props) {
  const st = { pending: 0, total: 0, failed: null, active: true };
  return {
    st,
    ev: {
      ...props,
      waitUntil(p) {
        if (!st.active && st.pending === 0) throw new DOMErr("InvalidStateError", "event is over");
        st.pending++;
        st.total++;
        Promise.resolve(p).then(
          () => st.pending--,
          (e) => {
            st.pending--;
            st.failed ??= e ?? new Error("rejected");
          },
        );
      },
    },
  };
}

export async function worker(world) {
  world.pickFrom = (xs) => xs[world.draw(FAULT, xs.length)];
  const br = makeBrowser(world);
  const { net, store, watch } = br;
  let epoch = 0;
  let active = null; // running worker that controls pages
  let installed = 0; // successful installations
  const complete = new Set(); // serials of answers stored by attempts that stored everything
  const open = []; // requests in progress
  const start = () => boot(world, br, { epoch: ++epoch });
  const storedSerial = (path) => {
    for (const m of store.caches.values()) {
      const r = m.get(keyOf(abs(path)));
      if (r) return r;
    }
    return null;
  };

  const kill = (w, why) => {
    world.fault("worker killed");
    world.event(`worker killed (${why})`);
    world.drop(w.owner);
    for (let i = open.length - 1; i >= 0; i--) if (open[i].owner === w.owner) open.splice(i, 1);
  };

  let attempt = null;
  const beginInstall = async () => {
    const w = start();
    const { ev, st } = extendable({ type: "install", addRoutes: async () => {} });
    attempt = { w, st, owner: w.owner, open: true, failures: [], from: net.log.length, n: ++attempts };
    watch.attempt = attempt;
    world.event(`install ${attempt.n} begins (server has version ${net.version})`);
    w.fire("install", ev);
    st.active = false;
    await drain();
    if (ev.threw) {
      attempt.open = false;
      world.violate("install", `the install handler threw: ${ev.threw.message}`);
    }
  };
  let attempts = 0;
  const judgeStored = (a) => {
    // which of this attempt's downloads are in the store now
    const mine = new Map(net.log.slice(a.from).filter((e) => e.owner === a.owner && e.copy).map((e) => [e.copy.serial, e]));
    const missing = [];
    const serials = [];
    for (const p of LISTED) {
      const r = storedSerial(p);
      if (!r) missing.push(`${p} is not stored`);
      else if (!mine.has(r.serial)) missing.push(`${p} is an answer of an earlier installation`);
      else if (r.status !== 200 || mine.get(r.serial).url !== abs(p)) missing.push(`${p} holds another answer (status ${r.status})`);
      else serials.push(r.serial);
    }
    return { missing, serials };
  };
  const settleInstall = () => {
    if (!attempt?.open) return;
    const { st } = attempt;
    // attempts are complete once all of it is in the store, whether or not the event has ended
    const j = judgeStored(attempt);
    if (!j.missing.length) j.serials.forEach((s) => complete.add(s));
    if (st.pending > 0) return;
    attempt.open = false;
    const a = attempt;
    if (st.failed) {
      world.event(`install ${a.n} failed: ${st.failed?.message}`);
      world.count("install failed");
      if (!a.failures.length) world.violate("install", `installation failed although nothing went wrong: ${st.failed?.message}`);
      kill(a.w, "redundant");
      if (active && j.missing.length && j.serials.length) {
        // the running worker serves from the same store: it must not be half of each
        world.violate("mixed", `a failed installation replaced some of the stored assets (${j.missing.join(", ")})`);
      }
      return;
    }
    world.event(`install ${a.n} succeeded`);
    world.count("install succeeded");
    if (j.missing.length)
      world.violate("incomplete", `the installation succeeded although ${j.missing.join(", ")}${a.failures.length ? "; what failed: " + a.failures.join(", ") : ""}`);
    if (a.failures.length) world.violate("incomplete", `the installation succeeded although this failed: ${a.failures.join(", ")}`);
    installed++;
    if (active) {
      // requests the old worker is answering are left to finish
      retired.push(active);
    }
    active = a.w;
    const { ev, st: s2 } = extendable({ type: "activate" });
    active.fire("activate", ev);
    s2.active = false;
  };
  const retired = [];

  const PATHS = ["/", "/index.html", "/app.mjs", "/manifest.json", "/pkg/web_spectrogram.js", "/pkg/web_spectrogram_bg.wasm", "/api/save", "/missing.txt", "/index.html?lang=en", "/app.mjs?v=2", "/other/index.html", "/sw.js"];
  const FOREIGN = ["https://cdn.test/app.mjs", "https://viewer.test:8443/index.html"];
  const ask = async () => {
    const k = world.w(10);
    const url = k < 8 ? world.pick(PATHS) : k === 8 ? world.pick(FOREIGN) : world.pick(LISTED) + "#top";
    const method = world.pick(["GET", "GET", "GET", "GET", "HEAD", "POST"]);
    const headers = world.w(4) === 3 ? { "x-token": "t" + world.w(3) } : {};
    const req = new br.Request(url, { method, headers, body: method === "POST" ? "data" + world.w(9) : undefined });
    req.mode = url === "/" || url.includes("index.html") ? "navigate" : "cors";
    const u = new URL(req.url);
    const listed = method === "GET" && u.origin === ORIGIN && u.search === "" && LISTED.includes(u.pathname);
    const r = { id: ++asked, url: req.url, method, listed, owner: active.owner, from: net.log.length, headers: [...req.headers].sort().join(";"), body: req._body, settled: false, answered: false, storeFailed: false };
    world.event(`request ${r.id} ${method} ${url}${net.online ? "" : " (offline)"}`);
    world.count(listed ? "request for a listed asset" : "other request");
    let over = false;
    const { ev, st } = extendable({
      type: "fetch",
      request: req,
      clientId: "page",
      resultingClientId: "",
      isReload: false,
      preloadResponse: Promise.resolve(undefined),
      respondWith(p) {
        if (over || r.answered) throw new DOMErr("InvalidStateError", "respondWith");
        r.answered = true;
        Promise.resolve(p).then(
          (x) => {
            r.settled = true;
            r.value = x;
          },
          (e) => {
            r.settled = true;
            r.error = e ?? new Error("rejected");
          },
        );
      },
    });
    open.push(r);
    active.fire("fetch", ev);
    over = true;
    st.active = false;
    if (!r.answered) {
      // the browser asks the network itself
      r.answered = true;
      br.api(active.owner).fetch(req).then(
        (x) => {
          r.settled = true;
          r.value = x;
        },
        (e) => {
          r.settled = true;
          r.error = e;
        },
      );
    }
    await drain();
  };
  let asked = 0;
  const judge = () => {
    for (let i = open.length - 1; i >= 0; i--) {
      const r = open[i];
      if (!r.settled) continue;
      open.splice(i, 1);
      const what = `${r.method} ${r.url.replace(ORIGIN, "")}`;
      const x = r.value;
      const failed = r.error !== undefined || !(x instanceof br.Response) || x.type === "error" || x.bodyUsed;
      world.event(`answer to request ${r.id}: ${failed ? "failure " + (r.error?.message ?? (x?.bodyUsed ? "body already used" : String(x))) : x.status + " " + x._body}`);
      if (r.storeFailed) {
        world.count("request during a store failure");
        if (!failed && r.listed && x.status === 200 && !(x._body ?? "").startsWith(`GET ${r.url.split("#")[0]}`)) world.violate("wrong", `${what} was answered with ${x._body}`);
        continue;
      }
      if (r.listed) {
        if (failed) world.violate("unserved", `${what} failed although the offline shell is installed${net.online ? "" : " (the network is down)"}: ${r.error?.message ?? x}`);
        if (!complete.has(x.serial) || x.status !== 200 || !x._body.startsWith(`GET ${r.url.split("#")[0]} v`))
          world.violate("unserved", `${what} was not answered from the completely installed shell but with "${x._body}" (status ${x.status})`);
        continue;
      }
      const mine = net.log.slice(r.from).filter((e) => e.owner === r.owner && e.purpose === "page" && e.url.split("#")[0] === r.url.split("#")[0]);
      if (failed) {
        if (!mine.some((e) => e.failed)) world.violate("other", `${what} failed (${r.error?.message ?? (x?.bodyUsed ? "the body was already used" : x)}) although the network did not fail`);
        continue;
      }
      const e = mine.find((e) => e.copy?.serial === x.serial);
      if (!e) world.violate("other", `${what} was not answered with the network's answer but with "${x._body}" (status ${x.status})`);
      if (e.copy.status !== x.status || e.copy.body !== x._body) world.violate("other", `${what}: the network answered ${e.copy.status} "${e.copy.body}", the page got ${x.status} "${x._body}"`);
      if (e.method !== r.method || e.headers !== r.headers || e.body !== r.body)
        world.violate("other", `${what} reached the server as ${e.method} with headers "${e.headers}" and body ${e.body}; asked with headers "${r.headers}" and body ${r.body}`);
    }
  };
  const markStoreFailures = () => {
    // a store failure is attributed to every request that was open
    if (watch.open?.storeFailed) {
      for (const r of open) r.storeFailed = true;
    }
    watch.open = {};
  };
  const step = async () => {
    watch.open = {};
    const more = await world.step();
    markStoreFailures();
    settleInstall();
    await drain();
    judge();
    if (world.failed) throw world.failed;
    world.state(`${installed}/${attempt?.open ?? false}/${open.length}/${net.online}/${store.caches.size}`);
    return more;
  };
  const begin = async (f) => {
    watch.open = {};
    await f();
    markStoreFailures();
    settleInstall();
    judge();
  };

  net.faulty = world.chance(FAULT, 1, 2);
  store.faulty = world.chance(FAULT, 1, 3);
  const n = world.range(2, world.thorough ? 30 : 14);
  for (let i = 0; i < n; i++) {
    let stop = false;
    await world.span(async () => {
      const wait = [0, 1, 3, 99][world.w(4)];
      for (let k = 0; k < wait && (await step()); k++);
      const act = world.w(12);
      if (!active && !attempt?.open) return begin(beginInstall);
      if (act < 6) {
        if (active) {
          await begin(ask);
          if (open.length > 1 || attempt?.open || !net.online) world.nontrivial++;
        }
      } else if (act === 6) {
        net.online = !net.online;
        world.event(net.online ? "network is back" : "network is down");
        if (!net.online) world.fault("network goes down");
      } else if (act === 7) {
        net.version++;
        world.event(`server now has version ${net.version}`);
      } else if (act === 8) {
        if (!attempt?.open) await begin(beginInstall);
      } else if (act === 9 && world.chance(FAULT, 1, 2)) {
        if (attempt?.open && world.w(2)) {
          const a = attempt;
          a.open = false;
          kill(a.w, "during installation");
          world.nontrivial++;
        } else if (active) {
          kill(active, "idle or busy");
          active = start();
          world.nontrivial++;
        }
      } else if (act === 10) {
        stop = world.w(2) === 1;
      }
    });
    if (stop) break;
  }
  while (await step());
  // Faults stop. Everything must settle, and then the shell can be installed and is served.
  if (attempt?.open) world.violate("stuck", "the installation neither succeeded nor failed although nothing is pending");
  if (open.length) world.violate("stuck", `${open.length} requests were never answered although nothing is pending`);
  net.faulty = false;
  store.faulty = false;
  net.online = true;
  if (!installed) {
    await begin(beginInstall);
    while (await step());
    if (!installed) world.violate("stuck", "without faults the installation does not succeed");
  }
  net.online = false;
  world.event("network is down");
  for (const p of LISTED) {
    const req = new br.Request(p);
    const keep = world.pick;
    world.pick = () => p;
    const kw = world.w;
    world.w = () => 0;
    await begin(async () => {
      // draws are overridden so that this asks for exactly this asset
      world.pick = (xs) => (xs.includes(p) ? p : xs[0]);
      await ask();
    });
    world.pick = keep;
    world.w = kw;
    while (await step());
    void req;
  }
  if (open.length) world.violate("stuck", "requests for listed assets were never answered");
}
void hashText;
void WORK;
