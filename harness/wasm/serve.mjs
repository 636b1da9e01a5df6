// Runs programs against the WebAssembly library: what the JavaScript glue of wasm-bindgen does,
// written out by hand for the raw module.  One program per line of standard input,
//   [[name, arg...], ...]        arg: number | true/false | null | "$i" | ["$i", ...]
// where "$i" is the object returned by step i; the answer is the list of the results so far,
// with objects in lists read out, and {"error": ...} last if a step failed.  All objects are
// freed at the end; a line "K[...]" instead continues a session, which "R" ends.
import fs from "node:fs";

const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const P = "Point2", V = "Vector2", L = "LineSegment2", C = "CircleSegment2", A = "ArcSegment2",
  S = "Segment2", T = "Triangle2", G = "Polygon2", H = "ConvexHull2", W = "SweepSegment2Intersection",
  X = "Triangle2Indices";
// parameters: f number; e enum or index; &K borrowed; K given away; ?K optional; [K] list
// results: f; b boolean; e; K; ?K; [K]; v nothing
const SIG = {
  point2_new: [["f", "f"], P], point2_x: [["&" + P], "f"], point2_y: [["&" + P], "f"],
  point2_equals: [["&" + P, "&" + P], "b"], point2_get_vector: [["&" + P], V],
  point2_distance: [["&" + P, "&" + P], "f"], point2_turn: [["&" + P, "&" + P, "&" + P], "e"],
  vector2_new: [["f", "f"], V], vector2_x: [["&" + V], "f"], vector2_y: [["&" + V], "f"],
  vector2_length: [["&" + V], "f"], vector2_normalize: [["&" + V], V], vector2_dot: [["&" + V, "&" + V], "f"],
  vector2_cross: [["&" + V, "&" + V], "f"], vector2_radian_to: [["&" + V, "&" + V], "f"],
  linesegment2_new: [[P, P], L], linesegment2_segment_type: [["&" + L], "e"],
  linesegment2_source: [["&" + L], P], linesegment2_target: [["&" + L], P],
  circlesegment2_new: [[P, "f"], C], circlesegment2_segment_type: [["&" + C], "e"],
  circlesegment2_center: [["&" + C], P], circlesegment2_radius: [["&" + C], "f"],
  arcsegment2_new: [[C, "f", "f"], A], arcsegment2_segment_type: [["&" + A], "e"],
  arcsegment2_source: [["&" + A], P], arcsegment2_target: [["&" + A], P], arcsegment2_center: [["&" + A], P],
  arcsegment2_source_radian: [["&" + A], "f"], arcsegment2_target_radian: [["&" + A], "f"], arcsegment2_radius: [["&" + A], "f"],
  segment2_new: [["e", "?" + L, "?" + C, "?" + A], S],
  __wbg_get_segment2_segment_type: [["&" + S], "e"], __wbg_set_segment2_segment_type: [["&" + S, "e"], "v"],
  __wbg_get_segment2_line_segment_2: [["&" + S], "?" + L], __wbg_set_segment2_line_segment_2: [["&" + S, "?" + L], "v"],
  __wbg_get_segment2_circle_segment_2: [["&" + S], "?" + C], __wbg_set_segment2_circle_segment_2: [["&" + S, "?" + C], "v"],
  __wbg_get_segment2_arc_segment_2: [["&" + S], "?" + A], __wbg_set_segment2_arc_segment_2: [["&" + S, "?" + A], "v"],
  triangle2_new: [[P, P, P], T], triangle2_a: [["&" + T], P], triangle2_b: [["&" + T], P], triangle2_c: [["&" + T], P],
  triangle2_vertices: [["&" + T], [P]], triangle2_edges: [["&" + T], [L]], triangle2_orientation: [["&" + T], "e"],
  triangle2_reverse_orientation: [["&" + T], "v"], triangle2_area: [["&" + T], "f"],
  polygon2_new: [[[P]], G], polygon2_vertices: [["&" + G], [P]], polygon2_edges: [["&" + G], [L]],
  polygon2_area: [["&" + G], "f"], polygon2_is_simple: [["&" + G], "b"], polygon2_is_convex: [["&" + G], "b"],
  convexhull2_new: [[[P]], H], convexhull2_convex_hull: [["&" + H], [P]], earcut: [[G], [X]],
  sweepsegment2intersection_new: [[], W], sweepsegment2intersection_push_segment: [["&" + W, "&" + S], "v"],
  sweepsegment2intersection_intersection: [["&" + W], [P]],
  segment_2_segment_2_intersection: [["&" + S, "&" + S], [P]], is_segment_2_segment_2_intersected: [["&" + S, "&" + S], "b"],
  point_2_project_line_segment_2: [["&" + P, "&" + L], "?" + P],
  is_point_2_on_line_segment_2: [["&" + P, "&" + L], "b"], locate_point_2_line_segment_2: [["&" + P, "&" + L], "e"],
  is_point_2_on_circle_segment_2: [["&" + P, "&" + C], "b"], locate_point_2_circle_segment_2: [["&" + P, "&" + C], "e"],
  is_point_2_on_arc_segment_2: [["&" + P, "&" + A], "b"], locate_point_2_arc_segment_2: [["&" + P, "&" + A], "e"],
  locate_point_2_triangle_2: [["&" + P, "&" + T], "e"], locate_point_2_polygon_2: [["&" + P, "&" + G], "e"],
};
const CLASSES = [P, V, L, C, A, S, T, G, H, W, X];
const byLower = Object.fromEntries(CLASSES.map((c) => [c.toLowerCase(), c]));

let ex, heap, free;
function add(o) { const i = free.length ? free.pop() : heap.length; heap[i] = o; return i; }
function take(i) { const o = heap[i]; heap[i] = undefined; free.push(i); return o; }
function start() {
  heap = [undefined];
  free = [];
  const imports = {};
  for (const { module, name } of WebAssembly.Module.imports(mod)) {
    const m = /^__wbg_(\w+)_(new|unwrap)$/.exec(name);
    let f = () => 0;
    if (m && m[2] === "new") f = (ptr) => add({ cls: byLower[m[1]], ptr: ptr >>> 0 });
    else if (m) f = (i) => { const o = take(i); if (o.cls !== byLower[m[1]]) throw new Error("wrong class"); const p = o.ptr; o.ptr = 0; return p; };
    else if (name === "__wbindgen_throw") f = (p, n) => { throw new Error(Buffer.from(ex.memory.buffer, p >>> 0, n >>> 0).toString()); };
    else if (name === "__wbindgen_object_drop_ref") f = (i) => { take(i); };
    (imports[module] ??= {})[name] = f;
  }
  ex = new WebAssembly.Instance(mod, imports).exports;
}
const u32 = () => new Uint32Array(ex.memory.buffer);
function live(o, cls) {
  if (!o || typeof o !== "object") throw new Error("PROGRAM not an object");
  if (o.cls !== cls) throw new Error("PROGRAM expected " + cls + ", have " + o.cls);
  if (!o.ptr) throw new Error("PROGRAM object was given away");
  return o.ptr;
}
function give(o, cls) { const p = live(o, cls); o.ptr = 0; return p; }

function call(name, args, owned) {
  const sig = SIG[name];
  if (!sig) throw new Error("PROGRAM no function " + name);
  if (typeof ex[name] !== "function") throw new Error("not exported: " + name);
  const [params, ret] = sig, raw = [];
  params.forEach((p, i) => {
    const a = args[i];
    if (p === "f" || p === "e") raw.push(a);
    else if (Array.isArray(p)) {
      const n = a.length, ptr = ex.__wbindgen_malloc(n * 4, 4) >>> 0;
      for (let k = 0; k < n; k++) { live(a[k], p[0]); u32()[ptr / 4 + k] = add(a[k]); }
      raw.push(ptr, n);
    } else if (p[0] === "&") raw.push(live(a, p.slice(1)));
    else if (p[0] === "?") raw.push(a === null ? 0 : give(a, p.slice(1)));
    else raw.push(give(a, p));
  });
  const own = (cls, ptr) => { const o = { cls, ptr: ptr >>> 0 }; owned.push(o); return o; };
  if (Array.isArray(ret)) {
    const rp = ex.__wbindgen_malloc(16, 4) >>> 0;
    ex[name](rp, ...raw);
    const ptr = u32()[rp / 4], n = u32()[rp / 4 + 1];
    const list = Array.from(u32().slice(ptr / 4, ptr / 4 + n)).map(take);
    list.forEach((o) => owned.push(o));
    ex.__wbindgen_free(ptr, n * 4, 4);
    ex.__wbindgen_free(rp, 16, 4);
    list.forEach((o) => live(o, ret[0]));
    return list;
  }
  const r = ex[name](...raw);
  if (ret === "v") return null;
  if (ret === "f" || ret === "e") return r;
  if (ret === "b") return r !== 0;
  if (ret[0] === "?") return r === 0 ? null : own(ret.slice(1), r);
  return own(ret, r);
}
function read(o, owned) {
  const g = (n) => call(n, [o], owned);
  switch (o.cls) {
    case P: return [g("point2_x"), g("point2_y")];
    case V: return [g("vector2_x"), g("vector2_y")];
    case L: return [read(g("linesegment2_source"), owned), read(g("linesegment2_target"), owned)];
    case C: return [read(g("circlesegment2_center"), owned), g("circlesegment2_radius")];
    case A: return [read(g("arcsegment2_center"), owned), g("arcsegment2_radius"), g("arcsegment2_source_radian"), g("arcsegment2_target_radian")];
    case X: return ["a", "b", "c"].map((k) => ex["__wbg_get_triangle2indices_" + k](o.ptr) >>> 0);
    default: return o.cls;
  }
}
function num(x) { return typeof x === "number" && !Number.isFinite(x) ? String(x) : Object.is(x, -0) ? 0 : x; }
function plain(x) { return Array.isArray(x) ? x.map(plain) : num(x); }

let session = null;
function steps(prog, { objs, owned }) {
  const out = [];
  const get = (a) => (typeof a === "string" ? objs[+a.slice(1)] : Array.isArray(a) ? a.map(get) : typeof a === "boolean" ? +a : a);
  try {
    for (const [name, ...args] of prog) {
      const r = call(name, args.map(get), owned);
      objs.push(r);
      if (Array.isArray(r)) out.push(r.map((o) => plain(read(o, owned))));
      else if (r && typeof r === "object") out.push(plain(read(r, owned)));
      else out.push(num(r));
    }
  } catch (e) {
    out.push({ error: String(e && e.message) });
    start();
    session = null;
    return [out, true];
  }
  return [out, false];
}
function release({ owned }, out) {
  try {
    for (const o of owned) if (o.ptr) { const p = o.ptr; o.ptr = 0; ex["__wbg_" + o.cls.toLowerCase() + "_free"](p); }
    if (heap.length - free.length !== 1) out.push({ error: "PROGRAM leaked handles" });
  } catch (e) {
    out.push({ error: "free: " + String(e && e.message) });
    start();
  }
}
function run(line) {
  if (line[0] === "R") {
    const out = [];
    if (session) release(session, out);
    session = null;
    return out;
  }
  if (line[0] === "K") {
    session ??= { objs: [], owned: [] };
    return steps(JSON.parse(line.slice(1)), session)[0];
  }
  const st = { objs: [], owned: [] };
  const [out, failed] = steps(JSON.parse(line), st);
  if (!failed) release(st, out);
  return out;
}

start();
let buf = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 20);
for (;;) {
  let at = buf.indexOf(10);
  if (at < 0) {
    let n;
    try { n = fs.readSync(0, chunk); } catch (e) { if (e.code === "EAGAIN") continue; if (e.code === "EOF") break; throw e; }
    if (n === 0) break;
    buf = Buffer.concat([buf, chunk.subarray(0, n)]);
    continue;
  }
  const line = buf.subarray(0, at).toString();
  buf = buf.subarray(at + 1);
  fs.writeSync(1, JSON.stringify(run(line)) + "\n");
}
