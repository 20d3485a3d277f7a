// node run32.mjs WASM TIER [--replay 'SUITE#CASE']: runs the 32-bit build in parallel workers,
// merges what they covered and writes the evidence of C21.
import { Worker, isMainThread, workerData, parentPort } from 'node:worker_threads';
import { readFileSync, writeFileSync, mkdirSync } from 'node:fs';
import os from 'node:os';
import { fileURLToPath } from 'node:url';

const MAXS = 4096;
const TIER = { small: 0, quick: 1, thorough: 2 };

function load(bytes, host) {
  const m = new WebAssembly.Module(bytes);
  let inst;
  const dec = new TextDecoder();
  const env = { host: {
    emit: (kind, ptr, len) => host.emit(kind, dec.decode(new Uint8Array(inst.exports.memory.buffer, ptr, len).slice())),
    claim: host.claim ?? (() => -1),
    at: host.at ?? (() => {}),
  } };
  inst = new WebAssembly.Instance(m, env);
  return inst.exports;
}

if (!isMainThread) {
  const { bytes, tier, shared, me, nsuites } = workerData;
  const next = new Int32Array(shared, 0, MAXS);
  const pos = new Float64Array(shared, MAXS * 4 + me * 32, 4); // suite, idx, time
  const stop = new Int32Array(shared, MAXS * 4 + 64 * 32, 1);
  let panic = null;
  const ex = load(bytes, {
    emit: (kind, s) => { if (kind === 2) panic = s; else parentPort.postMessage({ kind, s }); },
    claim: (k, chunk, n) => {
      if (Atomics.load(stop, 0)) return -1;
      const lo = Atomics.add(next, k, chunk);
      return lo >= n ? -1 : lo;
    },
    at: (k, i) => { pos[0] = k; pos[1] = i; pos[2] = Date.now(); },
  });
  try {
    ex.run(tier);
  } catch (e) {
    parentPort.postMessage({ kind: 9, k: pos[0], i: pos[1], s: panic ?? String(e) });
  }
  pos[2] = 0;
  parentPort.postMessage({ kind: 10 });
} else {
  const [wasm, tierName, flag, what] = process.argv.slice(2);
  const tier = TIER[tierName] ?? 1;
  const bytes = readFileSync(wasm);
  const root = process.env.VERIF_ROOT ?? '/verif';
  const suites = [];
  load(bytes, { emit: (kind, s) => { if (kind === 3) { const [name, n, space, must] = s.split('\t'); suites.push({ name, n: +n, space, must: must ? must.split('|') : [] }); } } }).describe(tier);
  if (suites.length > MAXS || suites.some((s) => s.n > 2 ** 31 - 1000)) throw new Error('too many');
  if (flag === '--replay') {
    const cut = what.lastIndexOf('#');
    const k = suites.findIndex((s) => s.name === what.slice(0, cut));
    let fail = false, panic = '';
    try {
      load(bytes, { emit: (kind, s) => { if (kind === 1) fail = true; if (kind === 2) panic = s; else console.log(s); } }).replay(tier, k, +what.slice(cut + 1));
    } catch (e) { fail = true; console.log('case fails: panic: ' + (panic || e)); }
    process.exit(fail ? 1 : 0);
  }
  const t0 = Date.now();
  const nw = Math.min(os.availableParallelism(), 32);
  const shared = new SharedArrayBuffer(MAXS * 4 + 65 * 32);
  const stop = new Int32Array(shared, MAXS * 4 + 64 * 32, 1);
  const tot = { states: 0, transitions: 0, traces: 0, outcomes: 0, classes: {}, samples: [] };
  const perSuite = suites.map(() => ({ bits: 0, classes: {} }));
  let fails = [], live = nw;
  const finish = () => {
    fails.sort((a, b) => a.k - b.k || a.i - b.i);
    const wall = (Date.now() - t0) / 1000;
    const ev = {
      property: 'C21', tier: tierName, seed: +(process.env.VERIF_SEED ?? 0), level: 'model_checking',
      coverage: {
        states: tot.states, transitions: tot.transitions, traces_validated_against_impl: tot.traces,
        cases: suites.reduce((a, s) => a + s.n, 0), distinct_outcomes_at_least: tot.outcomes, exhaustive: fails.length === 0,
        explanation: 'The library is compiled for wasm32 (32-bit pointers, so its native float is f32) and executed; states are library objects, transitions library calls compared with the model, traces complete histories. Every suite enumerates its whole space; the seed has no effect.',
        suites: suites.map((s) => ({ name: s.name, space: s.space, cases: s.n })),
        situations: tot.classes, samples: tot.samples.slice(0, 6),
      },
      wall_s: wall, violations: fails.length ? 1 : 0,
    };
    mkdirSync(root + '/evidence/replay', { recursive: true });
    writeFileSync(root + '/evidence/C21.json', JSON.stringify(ev, null, 1) + '\n');
    if (fails.length) {
      const f = fails[0];
      const path = root + '/evidence/replay/C21.txt';
      writeFileSync(path, `property: C21\nsuite: ${suites[f.k].name}\ncase: ${f.i}\nwhat: ${f.what}\nreplay: ./check.sh C21 ${tierName} --replay '${suites[f.k].name}#${f.i}'\n`);
      console.log(`C21: suite ${suites[f.k].name} case ${f.i}: ${f.what}`);
      console.log(`VIOLATION property=C21 replay=${path}`);
      process.exit(1);
    }
    console.log(`C21: held on ${ev.coverage.cases} cases, ${tot.states} states, ${tot.transitions} transitions, ${tot.traces} traces, ${wall.toFixed(1)} s`);
    let vac = false;
    suites.forEach((s) => s.must.forEach((m) => {
      if (!tot.classes[m]) { console.error(`C21: situation '${m}' never occurred in suite ${s.name}: vacuous`); vac = true; }
    }));
    process.exit(vac ? 2 : 0);
  };
  const file = fileURLToPath(import.meta.url);
  for (let me = 0; me < nw; me++) {
    const w = new Worker(file, { workerData: { bytes, tier, shared, me, nsuites: suites.length }, resourceLimits: { stackSizeMb: 64, maxOldGenerationSizeMb: 4096 } });
    w.on('message', (m) => {
      if (m.kind === 0) {
        const [k, st, tr, tc, bits, cl, sa] = m.s.split('\t');
        tot.states += +st; tot.transitions += +tr; tot.traces += +tc;
        // per worker a lower bound; the largest of them is one for the whole suite
        const d = +bits - perSuite[+k].bits;
        if (d > 0) { perSuite[+k].bits = +bits; tot.outcomes += d; }
        for (const c of cl.split('|').filter(Boolean)) { const j = c.lastIndexOf('='); tot.classes[c.slice(0, j)] = (tot.classes[c.slice(0, j)] ?? 0) + +c.slice(j + 1); }
        if (sa && tot.samples.length < 6) tot.samples.push(`[${suites[+k].name}] ${sa}`);
      } else if (m.kind === 1) {
        const [name, i, what] = m.s.split('\t');
        fails.push({ k: suites.findIndex((s) => s.name === name), i: +i, what });
        Atomics.store(stop, 0, 1);
      } else if (m.kind === 9) {
        fails.push({ k: m.k, i: m.i, what: 'panic: ' + m.s });
        Atomics.store(stop, 0, 1);
      } else if (m.kind === 10) { if (--live === 0) finish(); }
    });
    w.on('error', (e) => { console.error('worker failed: ' + e); process.exit(2); });
  }
  // watchdog: a call that does not return
  setInterval(() => {
    for (let me = 0; me < nw; me++) {
      const p = new Float64Array(shared, MAXS * 4 + me * 32, 4);
      if (p[2] > 0 && Date.now() - p[2] > 120000) {
        fails.push({ k: p[0], i: p[1], what: 'no result after 120 s: a library call does not return' });
        finish();
      }
    }
  }, 1000);
}
