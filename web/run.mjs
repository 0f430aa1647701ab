// Seeded search over the web parts: run | replay. Output format as the Rust simulator's.
import { spawnSync, fork } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { fileURLToPath } from "node:url";

const self = fileURLToPath(import.meta.url);
if (!vm.SourceTextModule) {
  const r = spawnSync(process.execPath, ["--no-warnings", "--experimental-vm-modules", self, ...process.argv.slice(2)], { stdio: "inherit" });
  process.exit(r.status ?? 2);
}
const { World, Violation, HarnessError, hashText } = await import("./sim.mjs");
const SCENARIOS = {
  C19: [["viewer", async (w) => (await import("./viewer.mjs")).viewer(w)]],
  C20: [["worker", async (w) => (await import("./worker.mjs")).worker(w)]],
};
let rejections = 0;
process.on("unhandledRejection", () => rejections++);

const args = process.argv.slice(2);
const get = (k, d) => (args.includes(k) ? args[args.indexOf(k) + 1] : d);
const esc = (s) => String(s).replace(/\\/g, "\\\\").replace(/\n/g, "\\n").replace(/\t/g, "\\t");
const now = () => performance.now() / 1000;

const scenario = (prop, name) => SCENARIOS[prop].find((s) => s[0] === name)[1];
async function execute(prop, name, seed, replay, opts) {
  const world = new World(seed, replay, opts);
  let out = { kind: "ok" };
  try {
    await scenario(prop, name)(world);
    if (world.failed) throw world.failed;
  } catch (e) {
    const v = world.failed ?? e;
    if (v instanceof Violation) out = { kind: "violation", cls: v.cls, msg: v.message };
    else if (e instanceof SyntaxError || e?.code === "ERR_VM_MODULE_LINK_FAILURE") out = { kind: "violation", cls: "script", msg: `the script does not load: ${e.message}` };
    else out = { kind: "harness", msg: e?.stack ?? String(e) };
  }
  return [out, world];
}
const digest = (w) => `${w.h}/${w.order}/${w.steps}/${w.streams.map((s) => s.length)}`;
const runSeed = (seed, prop, name, i) => hashText(`${seed}/${prop}/${name}/${i}`);
const known = (list, cls, msg) => list.find((k) => k.split("|")[0] === cls && msg.includes(k.slice(k.indexOf("|") + 1)));

async function worker(o) {
  const a = { N: {}, C: {}, P: {}, H: new Set(), T: new Set(), S: new Set(), A: new Set(), X: [], E: [], K: {}, V: [] };
  const add = (k, v) => (a.N[k] = (a.N[k] ?? 0) + v);
  const list = SCENARIOS[o.prop];
  for (let i = o.me; i < o.runs; i += o.workers) {
    if (now() > o.secs || a.V.length) break;
    const [name] = list[i % list.length];
    const seed = runSeed(o.seed, o.prop, name, i);
    const trace = i < o.samples;
    const [out, w] = await execute(o.prop, name, seed, null, { trace, thorough: o.thorough });
    add("runs", 1);
    add("steps", w.steps);
    add("sim_ns", Math.round(w.now * 1e6));
    add("switches", w.steps);
    add("preemptions", w.reordered);
    a.P[name] = (a.P[name] ?? 0) + 1;
    for (const [k, v] of Object.entries(w.counts)) a.C[k] = (a.C[k] ?? 0) + v;
    for (const [k, v] of Object.entries(w.faults)) a.C["fault:" + k] = (a.C["fault:" + k] ?? 0) + v;
    a.H.add(w.h);
    if (w.nontrivial) {
      add("nontrivial_runs", 1);
      a.T.add(w.h);
    }
    a.S.add(w.order);
    a.A.add(w.states);
    if (trace) a.X.push(`run ${i} scenario ${name} seed ${seed}\n${w.lines.join("\n").slice(0, 6000)}`);
    if (i < o.determinism) {
      const [, w2] = await execute(o.prop, name, seed, null, { trace: !trace, thorough: o.thorough });
      add("det_checked", 1);
      if (digest(w) !== digest(w2)) {
        add("det_diverged", 1);
        a.X.push(`DIVERGED run ${i}: ${digest(w)} vs ${digest(w2)}`);
      }
    }
    if (out.kind === "harness") {
      a.E.push(`run ${i} seed ${seed}: ${out.msg}`);
      if (a.E.length > 3) break;
    } else if (out.kind === "violation") {
      const k = known(o.known, out.cls, out.msg);
      if (k) a.K[k] = [(a.K[k]?.[0] ?? 0) + 1, a.K[k]?.[1] ?? out.msg];
      else a.V.push({ name, i, seed, cls: out.cls, msg: out.msg, streams: w.streams });
    }
  }
  for (const k of ["H", "T", "S", "A"]) a[k] = [...a[k]];
  return a;
}

const trimmed = (s) => s.map((v) => v.slice(0, v.findLastIndex((x) => x !== 0) + 1));
function size(s) {
  const t = trimmed(s);
  return [t.reduce((n, v) => n + v.length, 0), t.flat().filter((x) => x).length, t.flat().reduce((n, x) => n + x, 0)];
}
const less = (a, b) => {
  for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return a[i] < b[i];
  return false;
};

async function minimise(prop, v, o) {
  const end = now() + 30;
  let best = v.streams, spans = [], execs = 0, cls = v.cls, msg = v.msg;
  const attempt = async (cand) => {
    if (now() > end) return false;
    execs++;
    const [out, w] = await execute(prop, v.name, v.seed, cand, { thorough: o.thorough });
    if (out.kind !== "violation" || out.cls !== cls || known(o.known, out.cls, out.msg)) return false;
    const got = trimmed(w.streams);
    if (!less(size(got), size(best))) return false;
    best = got;
    spans = w.spans;
    msg = out.msg;
    return true;
  };
  const [first, w0] = await execute(prop, v.name, v.seed, best, { thorough: o.thorough });
  if (first.kind !== "violation") return null;
  cls = first.cls;
  msg = first.msg;
  spans = w0.spans;
  for (let round = 0, better = true; better && round < 8 && now() < end; round++) {
    better = false;
    for (const s of [2, 1]) {
      const c = [...best];
      c[s] = [];
      if (await attempt(c)) better = true;
    }
    for (let k = spans.length - 1; k >= 0; k--) {
      if (k >= spans.length) continue;
      const [a, b] = spans[k];
      const c = [...best];
      c[0] = [...best[0].slice(0, a), ...best[0].slice(b)];
      if (await attempt(c)) better = true;
    }
    for (const s of [2, 1, 0])
      for (let len = Math.max(1, best[s].length >> 1); ; len >>= 1) {
        for (let at = 0; at < best[s].length; at += len) {
          for (const f of [(v) => [...v.slice(0, at), ...v.slice(at + len)], (v) => v.map((x, i) => (i >= at && i < at + len ? 0 : x))]) {
            const c = [...best];
            c[s] = f(best[s]);
            if (await attempt(c)) better = true;
          }
        }
        if (len <= 1) break;
      }
    for (const s of [0, 1, 2])
      for (let i = 0; i < best[s].length; i++)
        for (const f of [(x) => x >> 1, (x) => x - 1])
          for (let k = 0; k < 6 && best[s][i] > 0; k++) {
            const c = [...best];
            c[s] = [...best[s]];
            c[s][i] = f(best[s][i]);
            if (await attempt(c)) better = true;
            else break;
          }
  }
  return { best: trimmed(best), cls, msg, execs };
}

async function report(o, v) {
  const m = await minimise(o.prop, v, o);
  if (!m) return null;
  const [out, w] = await execute(o.prop, v.name, v.seed, m.best, { trace: true, thorough: o.thorough });
  if (out.kind !== "violation") return null;
  fs.mkdirSync(o.replays, { recursive: true });
  const file = path.join(o.replays, `${o.prop}-${o.variant}-${v.name}-${v.seed.toString(16)}.json`);
  fs.writeFileSync(
    file,
    JSON.stringify(
      {
        property: o.prop, scenario: v.name, variant: o.variant, thorough: o.thorough, verif_seed: o.seed, run_index: v.i, run_seed: v.seed,
        class: out.cls, message: out.msg, minimiser_executions: m.execs, choices_before: v.streams.map((s) => s.length), history_hash: w.h,
        work: m.best[0], fault: m.best[1], sched: m.best[2], trace: w.lines,
      },
      null,
      1,
    ) + "\n",
  );
  return [file, `${out.cls}: ${out.msg}`];
}

if (args[0] === "worker") {
  process.once("message", async (o) => {
    const a = await worker(o);
    process.send(a, () => process.exit(0));
  });
} else if (args[0] === "run") {
  const o = {
    prop: get("--prop"), variant: get("--variant", "node"), seed: get("--seed", "1"), runs: Number(get("--runs", 1000)), secs: Number(get("--secs", 30)),
    workers: Number(get("--workers", 8)), out: get("--out", "/dev/stdout"), replays: get("--replays", "/tmp"), thorough: args.includes("--thorough"),
    samples: Number(get("--samples", 2)), determinism: Number(get("--determinism", 0)),
    known: args.includes("--known") ? fs.readFileSync(get("--known"), "utf8").split("\n").filter(Boolean) : [],
  };
  const t0 = now();
  const parts = await Promise.all(
    Array.from({ length: o.workers }, (_, me) =>
      new Promise((done) => {
        const p = fork(self, ["worker"], { execArgv: ["--no-warnings", "--experimental-vm-modules"], serialization: "advanced", stdio: ["ignore", "ignore", "inherit", "ipc"] });
        let got = null;
        p.on("message", (m) => (got = m));
        p.on("exit", (code) => done(got ?? { E: [`worker ${me} ended with ${code} and no result`] }));
        const kill = setTimeout(() => p.kill("SIGKILL"), (o.secs + 60) * 1000);
        p.on("exit", () => clearTimeout(kill));
        p.send({ ...o, me });
      }),
    ),
  );
  const lines = [];
  const sum = (k) => {
    const t = {};
    for (const p of parts) for (const [n, v] of Object.entries(p[k] ?? {})) t[n] = (t[n] ?? 0) + v;
    return t;
  };
  const N = { runs: 0, det_diverged: 0, ...sum("N"), max_threads: 1, guards: 0, wall_ms: Math.round((now() - t0) * 1000) };
  for (const [k, v] of Object.entries(N)) lines.push(`N\t${k}\t${v}`);
  for (const k of ["C", "P"]) for (const [n, v] of Object.entries(sum(k)).sort()) lines.push(`${k}\t${n}\t${v}`);
  for (const k of ["H", "T", "S", "A"]) for (const h of new Set(parts.flatMap((p) => p[k] ?? []))) lines.push(`${k}\t${h}`);
  for (const k of ["X", "E"]) for (const s of parts.flatMap((p) => p[k] ?? [])) lines.push(`${k}\t${esc(s)}`);
  const K = {};
  for (const p of parts) for (const [s, [n, m]] of Object.entries(p.K ?? {})) K[s] = [(K[s]?.[0] ?? 0) + n, K[s]?.[1] ?? m];
  for (const [s, [n, m]] of Object.entries(K)) lines.push(`K\t${esc(s)}\t${n}\t${esc(m)}`);
  const V = parts.flatMap((p) => p.V ?? []).sort((a, b) => a.i - b.i);
  let code = parts.some((p) => p.E?.length) ? 2 : 0;
  if (V.length) {
    const v = V[0];
    lines.push(["V", o.prop, v.name, v.i, v.seed, esc(v.cls), esc(v.msg)].join("\t"));
    const r = await report(o, v);
    if (r) {
      lines.push(`R\t${esc(r[0])}\t${esc(r[1])}`);
      code = 1;
    } else {
      lines.push(`E\tnot reproducible: ${esc(v.cls)} ${esc(v.msg)}`);
      code = 2;
    }
  }
  fs.writeFileSync(o.out, lines.join("\n") + "\n");
  process.exit(code);
} else if (args[0] === "replay") {
  const t = JSON.parse(fs.readFileSync(args[1], "utf8"));
  const [out, w] = await execute(t.property, t.scenario, t.run_seed, [t.work, t.fault, t.sched], { trace: true, thorough: t.thorough });
  if (args.includes("-v")) console.log(w.lines.join("\n"));
  if (out.kind === "violation") {
    console.log(`reproduced: ${out.cls}: ${out.msg}`);
    console.log(`history ${w.h === t.history_hash ? "identical to the recorded one" : "differs from the recorded one"} (${w.h})`);
    console.log(`VIOLATION property=${t.property} replay=${args[1]}`);
    process.exit(1);
  }
  console.log(out.kind === "ok" ? "not reproduced: the run passes on this tree" : out.msg);
  process.exit(out.kind === "ok" ? 0 : 2);
} else {
  console.error("usage: run|replay");
  process.exit(2);
}
