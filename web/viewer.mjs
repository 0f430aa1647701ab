// C19: the page's script with a simulated document, file input, audio decoder, canvas and transform.
import vm from "node:vm";
import fs from "node:fs";
import path from "node:path";
import { makeGL } from "./gl.mjs";
import { DOMErr, drain, FAULT, hashText, WORK } from "./sim.mjs";

const DIR = "/repo/web-spectrogram";
const sources = new Map();
function source(file) {
  if (!sources.has(file)) sources.set(file, fs.readFileSync(file, "utf8"));
  return sources.get(file);
}

const RAINBOW = 6;

/** What the stand-in for the compiled transform computes; tells any two inputs apart. */
function transform(samples, win, hop) {
  const key = `${Array.from(samples, (x) => Math.fround(x)).join(",")}|${win}|${hop}`;
  const h = hashText(key);
  const width = 2 + (h % 5), height = 1 + (Math.floor(h / 7) % 4);
  const mags = [];
  // down to 85 dB below the loudest, so that every part of the palette occurs
  for (let i = 0; i < width * height; i++) mags.push(Math.fround(7 * 10 ** (-((hashText(key + i) % 100000) / 100000) * 4.25)));
  if (h % 11 === 0) mags[h % mags.length] = 0;
  return { mags, width, height, max_mag: Math.max(...mags) };
}
const STOPS = [
  [0, 0, 0, 0],
  [0.25, 0, 0, 255],
  [0.5, 0, 255, 255],
  [0.75, 255, 255, 0],
  [0.9, 255, 0, 0],
  [1, 255, 255, 255],
];
/** The rainbow palette as documented; other palettes are merely told apart. */
function colour(mag, max, floor, cmap) {
  if (cmap !== RAINBOW) {
    const h = hashText(`${Math.fround(mag)}|${Math.fround(max)}|${Math.fround(floor)}|${cmap}`);
    return Uint8Array.of(h & 255, (h >>> 8) & 255, Math.floor(h / 65536) & 255);
  }
  const db = 20 * Math.log10(Math.max(mag / max, 1e-12));
  const t = Math.min(Math.max((db - floor) / -floor, 0), 1);
  let i = 0;
  while (i + 2 < STOPS.length && t > STOPS[i + 1][0]) i++;
  const f = (t - STOPS[i][0]) / (STOPS[i + 1][0] - STOPS[i][0]);
  return Uint8Array.from([1, 2, 3], (k) => STOPS[i][k] + (STOPS[i + 1][k] - STOPS[i][k]) * f);
}

/** The canvas element: both kinds of context, what is visible, and what browsers forbid. */
function makeCanvas(world, webgl) {
  const st = { kind: null, w: 300, h: 150, shown: null };
  const gls = {};
  const clear = () => {
    st.shown = null;
    for (const k in gls) gls[k].resized();
  };
  const canvas = {
    get width() {
      return st.w;
    },
    set width(v) {
      st.w = v >>> 0;
      clear();
    },
    get height() {
      return st.h;
    },
    set height(v) {
      st.h = v >>> 0;
      clear();
    },
    addEventListener() {},
    removeEventListener() {},
    style: {},
    getContext(type) {
      if (type === "experimental-webgl") type = "webgl";
      if (type === "webgl" || type === "webgl2") {
        if (!webgl.includes(type)) return null;
      } else if (type !== "2d") return null;
      if (st.kind && st.kind !== type) return null;
      st.kind = type;
      return type === "2d" ? ctx2d : gl(type);
    },
  };
  class ImageData {
    constructor(a, b, c) {
      if (typeof a === "object") {
        this.data = a;
        this.width = b;
        this.height = c ?? a.length / 4 / b;
      } else {
        this.width = a;
        this.height = b;
        this.data = new Uint8ClampedArray(a * b * 4);
      }
    }
  }
  const pixels = () => {
    if (!st.shown || st.shown.kind !== "2d") st.shown = { kind: "2d", w: st.w, h: st.h, data: new Uint8ClampedArray(st.w * st.h * 4) };
    return st.shown;
  };
  const ctx2d = {
    canvas,
    fillStyle: "#000000",
    createImageData: (w, h) => (typeof w === "object" ? new ImageData(w.width, w.height) : new ImageData(w, h)),
    getImageData: (x, y, w, h) => {
      const o = new ImageData(w, h), p = pixels();
      for (let j = 0; j < h; j++)
        for (let i = 0; i < w; i++)
          for (let k = 0; k < 4; k++)
            if (x + i >= 0 && x + i < p.w && y + j >= 0 && y + j < p.h) o.data[(j * w + i) * 4 + k] = p.data[((y + j) * p.w + x + i) * 4 + k];
      return o;
    },
    putImageData: (img, x, y) => {
      const p = pixels();
      for (let j = 0; j < img.height; j++)
        for (let i = 0; i < img.width; i++)
          if (x + i >= 0 && x + i < p.w && y + j >= 0 && y + j < p.h)
            for (let k = 0; k < 4; k++) p.data[((y + j) * p.w + x + i) * 4 + k] = img.data[(j * img.width + i) * 4 + k];
      world.event("canvas drawn (2d)");
    },
    fillRect: (x, y, w, h) => {
      const m = /rgba?\((\d+)\s*,\s*(\d+)\s*,\s*(\d+)/.exec(String(ctx2d.fillStyle));
      const p = pixels();
      for (let j = y; j < y + h; j++)
        for (let i = x; i < x + w; i++)
          if (m && i >= 0 && i < p.w && j >= 0 && j < p.h) p.data.set([+m[1], +m[2], +m[3], 255], (j * p.w + i) * 4);
    },
    clearRect: clear,
  };
  const gl = (type) =>
    (gls[type] ??= makeGL(type, canvas, () => ({ w: st.w, h: st.h }), (picture) => {
      st.shown = { kind: "gl", ...picture };
      world.event("canvas drawn (webgl)");
    }));
  return { canvas, st, ImageData };
}

/** Does the canvas show exactly the spectrogram of these samples? */
function shows(st, samples) {
  const t = transform(samples, 1024, 512);
  const s = st.shown;
  if (!s || s.w !== t.width || s.h !== t.height) return false;
  if (s.kind === "2d") {
    for (let x = 0; x < t.width; x++)
      for (let y = 0; y < t.height; y++) {
        const c = colour(t.mags[x * t.height + y], t.max_mag, -80, RAINBOW);
        const at = (y * t.width + x) * 4;
        if (s.data[at] !== c[0] || s.data[at + 1] !== c[1] || s.data[at + 2] !== c[2] || s.data[at + 3] !== 255) return false;
      }
    return true;
  }
  if (s.unknown) {
    // a drawing function or shader construct the stand-in does not know: judge by the data that was handed over
    const sorted = (v) => [...v].sort((a, b) => a - b).join(",");
    return s.images.some((im) => im.data && im.w * im.h === t.width * t.height && (im.data.length !== t.mags.length || sorted(im.data) === sorted(t.mags)));
  }
  for (let x = 0; x < t.width; x++)
    for (let y = 0; y < t.height; y++) {
      const c = colour(t.mags[x * t.height + y], t.max_mag, -80, RAINBOW);
      const at = (y * t.width + x) * 4;
      // computed on the graphics processor, rounded instead of cut off
      for (let k = 0; k < 3; k++) if (Math.abs(s.data[at + k] - c[k]) > 2) return false;
      if (s.data[at + 3] !== 255) return false;
    }
  return true;
}

export async function viewer(world) {
  const webgl = world.pick([[], ["webgl2", "webgl"], ["webgl"]]);
  const loadFails = world.chance(FAULT, 1, 40) ? 1 + world.draw(FAULT, 2) : 0;
  const { canvas, st, ImageData } = makeCanvas(world, webgl);
  const files = []; // one per selection that really chose a file
  const owner = { page: 1 };

  class AudioBuffer {
    constructor(f) {
      this.numberOfChannels = f.channels.length;
      this.length = f.channels[0].length;
      this.sampleRate = 44100;
      this.duration = this.length / this.sampleRate;
      this.f = f;
    }
    getChannelData(k) {
      if (!(k < this.numberOfChannels)) throw new DOMErr("IndexSizeError", "no such channel");
      return this.f.channels[k];
    }
  }
  let wantsConstruct = null;
  // some browsers refuse more than a few contexts that have not been closed
  const limit = world.chance(FAULT, 1, 2) ? world.range(4, 6) : Infinity;
  let open = 0;
  class AudioContext {
    constructor() {
      if (open >= limit && !(this instanceof OfflineAudioContext)) {
        world.fault("too many audio contexts");
        // with this many files at work nobody could do better
        if (world.pending.length >= limit) wantsConstruct?.();
        world.event("AudioContext refused: too many");
        throw new DOMErr("NotSupportedError", "the number of hardware contexts has reached the maximum");
      }
      // which file this is for is not visible here: the fault is drawn per construction
      if (world.chance(FAULT, 1, 30)) {
        world.fault("audio context refused");
        wantsConstruct?.();
        world.event("AudioContext refused");
        throw new DOMErr("NotSupportedError", "no audio device");
      }
      this.state = "running";
      this.sampleRate = 44100;
      this.destination = {};
      if (!(this instanceof OfflineAudioContext)) open++;
    }
    close() {
      if (this.state === "closed") return Promise.reject(new DOMErr("InvalidStateError", "closed"));
      this.state = "closed";
      open--;
      return world.op("close audio", () => {}, { owner });
    }
    resume() {
      return world.op("resume audio", () => {}, { owner });
    }
    suspend() {
      return world.op("suspend audio", () => {}, { owner });
    }
    decodeAudioData(buf, ok, bad) {
      if (this.state === "closed") return Promise.reject(new DOMErr("InvalidStateError", "context is closed"));
      if (!(buf instanceof SimBuffer) || buf.detached) return Promise.reject(new DOMErr("DataCloneError", "buffer is detached"));
      buf.detached = true;
      const f = buf.file;
      const p = world.op(
        `decode ${f.name}`,
        () => {
          if (f.fate === "decode") {
            world.fault("decoding fails");
            throw new DOMErr("EncodingError", "Unable to decode audio data");
          }
          return new AudioBuffer(f);
        },
        { kind: "long", owner },
      );
      if (typeof ok === "function" || typeof bad === "function") p.then(ok, bad);
      return p;
    }
  }
  class OfflineAudioContext extends AudioContext {}
  class SimBuffer {
    constructor(file) {
      this.file = file;
      this.detached = false;
      this.byteLength = 64;
    }
    slice() {
      return new SimBuffer(this.file);
    }
  }
  const read = (f) =>
    world.op(
      `read ${f.name}`,
      () => {
        if (f.fate === "read") {
          world.fault("reading fails");
          throw new DOMErr("NotReadableError", "file changed or disappeared");
        }
        return new SimBuffer(f);
      },
      { kind: "long", owner },
    );
  const target = () => {
    const ls = {};
    return {
      addEventListener(t, f, o) {
        (ls[t] ??= []).push([f, o]);
      },
      removeEventListener(t, f) {
        ls[t] = (ls[t] ?? []).filter((x) => x[0] !== f);
      },
      fire(t, ev) {
        if (typeof this["on" + t] === "function") this["on" + t].call(this, ev);
        for (const [f, o] of [...(ls[t] ?? [])]) {
          if (o?.once) this.removeEventListener(t, f);
          try {
            typeof f === "function" ? f.call(this, ev) : f.handleEvent(ev);
          } catch (e) {
            world.event("handler threw " + e?.message);
          }
        }
      },
    };
  };
  class FileReader {
    constructor() {
      Object.assign(this, target());
      this.result = null;
      this.error = null;
    }
    readAsArrayBuffer(blob) {
      blob.arrayBuffer().then(
        (b) => {
          this.result = b;
          this.fire("load", { target: this });
          this.fire("loadend", { target: this });
        },
        (e) => {
          this.error = e;
          this.fire("error", { target: this });
          this.fire("loadend", { target: this });
        },
      );
    }
  }
  const input = target();
  input.files = [];
  input.disabled = false;
  const elements = { file: input, spec: canvas };
  const document = Object.assign(target(), {
    readyState: "interactive",
    getElementById: (id) => elements[id] ?? null,
    querySelector: (q) => elements[q.replace(/^[a-z]*#/, "")] ?? null,
    body: target(),
  });
  const log = () => {};
  const globals = {
    document,
    navigator: { userAgent: "sim" },
    console: { log, warn: log, error: log, info: log, debug: log },
    AudioContext,
    webkitAudioContext: AudioContext,
    OfflineAudioContext,
    FileReader,
    ImageData,
    setTimeout: (f, ms, ...a) => world.timer(ms, () => f(...a), owner),
    clearTimeout: (id) => world.cancel(id),
    requestAnimationFrame: (f) => world.timer(16, () => f(world.now), owner),
    cancelAnimationFrame: (id) => world.cancel(id),
    queueMicrotask,
    performance: { now: () => world.now },
    AbortController,
    URL,
    structuredClone,
  };
  globals.window = globals;
  globals.self = globals;
  Object.assign(globals, target());
  const context = vm.createContext(globals);
  vm.runInContext("Math.random = () => 0.5; Date.now = () => 0;", context);

  const wasm = new vm.SyntheticModule(
    ["default", "Colormap", "color_from_magnitude_u8", "stft_magnitudes"],
    function () {
      let ready = false;
      const need = () => {
        if (!ready) throw new TypeError("wasm used before it was initialised");
      };
      this.setExport("default", () =>
        world.op(
          "start wasm",
          () => {
            if (loadFails === 2) {
              world.fault("wasm start fails");
              throw new DOMErr("CompileError", "wasm");
            }
            ready = true;
          },
          { kind: "long", owner },
        ),
      );
      this.setExport("Colormap", { Fire: 0, Legacy: 1, Gray: 2, Viridis: 3, Plasma: 4, Inferno: 5, Rainbow: RAINBOW });
      this.setExport("color_from_magnitude_u8", (m, x, f, c) => {
        need();
        return colour(m, x, f, c);
      });
      this.setExport("stft_magnitudes", (s, w, h) => {
        need();
        const f = files.find((x) => x.channels.some((c) => c === s || (c.length === s.length && c.every((v, i) => v === s[i]))));
        if (f?.fate === "transform") {
          world.fault("transform fails");
          throw new Error("memory access out of bounds");
        }
        const t = transform(s, w, h);
        return { mags: Float32Array.from(t.mags), width: t.width, height: t.height, max_mag: t.max_mag, free() {} };
      });
    },
    { context, identifier: "pkg/web_spectrogram.js" },
  );
  const modules = new Map();
  const resolve = async (spec, from) => {
    const file = path.resolve(path.dirname(from), spec);
    if (/web_spectrogram\.js$/.test(file)) return wasm;
    if (!modules.has(file)) modules.set(file, make(file));
    return modules.get(file);
  };
  const make = (file) =>
    new vm.SourceTextModule(source(file), {
      context,
      identifier: file,
      importModuleDynamically: async (spec) => {
        await world.op(
          `load ${path.basename(spec)}`,
          () => {
            if (loadFails === 1) {
              world.fault("module load fails");
              throw new TypeError("Failed to fetch dynamically imported module");
            }
          },
          { kind: "long", owner },
        );
        const m = await resolve(spec, file);
        if (m.status === "unlinked") await m.link((s, r) => resolve(s, r.identifier));
        if (m.status === "linked") await m.evaluate();
        return m;
      },
    });

  world.event(`page opened, webgl ${webgl.join(" ") || "none"}`);
  const main = await resolve("./app.mjs", DIR + "/x");
  await main.link((s, r) => resolve(s, r.identifier));
  main.evaluate().catch(() => {});
  await drain();
  // Usually the visitor waits for the page; sometimes not.
  if (!world.chance(WORK, 1, 4)) {
    while (await world.step());
    world.now += 1;
  } else {
    world.count("chosen before the page was ready");
  }

  let refused = false;
  wantsConstruct = () => {
    refused = true;
  };
  let best = -1; // number of the newest file seen on the canvas
  const look = (when) => {
    let now = -1;
    if (st.shown) {
      // two files may by chance look alike on the canvas: the newest that can be decoded counts
      for (const decodable of [true, false])
        for (let i = files.length - 1; i >= 0 && now < 0; i--) if (!files[i].fate === decodable && shows(st, files[i].channels[0])) now = i;
      if (now < 0) world.violate("picture", `${when}: the canvas shows something that is not the spectrogram of any chosen file`);
    }
    if (st.shown && now < best) world.violate("older", `${when}: ${files[now].name} replaced the newer ${files[best].name} on the canvas`);
    if (now >= 0 && files[now].fate) world.violate("failed", `${when}: ${files[now].name} cannot have been decoded, yet it is shown`);
    best = Math.max(best, now);
    world.state(`${now}/${best}/${files.length}/${world.pending.length}`);
    return now;
  };
  look("at the start");

  const n = limit < 9 && world.w(4) === 3 ? world.range(6, 14) : world.range(1, world.thorough ? 12 : 6);
  let i = 0;
  while (i < n) {
    await world.span(async () => {
      // let some of the pending work finish before the next choice
      const wait = world.w(4) === 0 ? 99 : world.w(4);
      for (let k = 0; k < wait && world.pending.length; k++) {
        await world.step();
        look("while working");
      }
      if (world.w(8) === 7) {
        world.event("selection cancelled");
        world.count("cancelled selection");
        input.files = [];
      } else {
        const id = files.length;
        const kind = world.draw(FAULT, 9);
        const f = {
          name: `file${id}`,
          fate: [null, null, null, null, null, null, "read", "decode", "transform"][kind],
          channels: [],
        };
        const len = world.range(1, 4), ch = world.range(1, 2);
        for (let c = 0; c < ch; c++) f.channels.push(Float32Array.from({ length: len }, (_, k) => id + 1 + c / 4 + k / 64));
        files.push(f);
        // files of different folders may have one name
        const file = { name: world.w(3) === 2 ? "song.wav" : f.name, size: 64, type: "audio/wav", lastModified: 0, arrayBuffer: () => read(f) };
        const list = [file];
        list.item = (k) => list[k] ?? null;
        input.files = list;
        world.count("file chosen");
        world.event(`choose ${f.name}${f.fate ? " (" + f.fate + " will fail)" : ""}`);
        if (world.pending.length) world.nontrivial++;
      }
      const ev = { type: "change", target: input, currentTarget: input, preventDefault() {} };
      input.fire("change", ev);
      await drain();
      if (world.failed) throw world.failed;
      look("on choosing");
    });
    i++;
    if (world.w(n > 6 ? 20 : 6) === 0 && i >= 1) break;
  }
  while (await world.step()) look("while working");
  const now = look("at the end");
  const want = files.map((f) => !f.fate).lastIndexOf(true);
  if (loadFails || refused) {
    world.count("not judged at the end: no transform or no decoder");
    return;
  }
  if (want >= 0 && now !== want)
    world.violate(
      "latest",
      `all ${files.length} chosen files are settled and ${files[want].name} is the last that can be decoded, but the canvas shows ${now < 0 ? "nothing" : files[now].name}`,
    );
}
