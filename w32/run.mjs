// usage: node run.mjs check | list | replay FILE   (W32_WASM: the compiled drivers)
// Explores the choice trees of the drivers in w32.wasm on all processors. Each
// worker has an instance of its own; the queue of unexplored subtrees is here.
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

const ID = 'C31';
const ROOT = 0xffffffff;
const HANG_MS = 120e3;
const text = (b) => new TextDecoder().decode(b);

class Instance {
    constructor(module, thorough) {
        this.e = new WebAssembly.Instance(module, {}).exports;
        this.n = this.e.init(thorough);
    }
    bytes(which) {
        const [a, b] = [this.e.out(which, 0) >>> 0, this.e.out(which, 1) >>> 0];
        return new Uint8Array(this.e.memory.buffer).slice(a, b);
    }
    drivers() {
        const seen = new Set();
        return [...Array(this.n).keys()].map((i) => {
            this.e.info(i);
            let [id, name, bound, what] = text(this.bytes(0)).split('\t');
            // The second time around with the bounds of the thorough tier.
            if (seen.has(`${id}.${name}`)) name += '+';
            seen.add(`${id}.${name}`);
            return { i, id, name, bound: +bound, what };
        });
    }
    /** Explores up to `max` executions of the subtrees in `words`. */
    task(driver, words, max) {
        const at = this.e.room(words.length) >>> 0;
        new Uint32Array(this.e.memory.buffer, at, words.length).set(words);
        let code;
        try {
            code = this.e.task(driver, max);
        } catch (e) {
            let panic = '', prefix = [];
            try {
                panic = text(this.bytes(1));
                const c = this.bytes(2);
                prefix = [...new Uint32Array(c.buffer)];
            } catch {}
            this.dead = true;
            const own = panic.startsWith('src/') || panic.includes('MC-DIVERGED');
            const what = panic ? `panic at ${panic}` : `${e.message} (${e.name}): memory exhausted, stack overflow or abort`;
            return { code: own ? 2 : 1, msg: what, choices: prefix, labels: '' };
        }
        const o = this.bytes(0);
        if (code == 1) {
            const l = text(o).split('\n');
            return { code, labels: l.pop(), choices: JSON.parse(l.pop()), msg: l.join('\n') };
        }
        if (code == 2) return { code, msg: text(o), choices: [], labels: '' };
        const h = new Uint32Array(o.buffer, 0, 6);
        let p = 24;
        const hashes = (n) => {
            const r = new Uint32Array(o.buffer.slice(p, p + 8 * n));
            p += 8 * n;
            return r;
        };
        const [states, outcomes] = [hashes(h[3]), hashes(h[4])];
        const items = [];
        for (let k = 0; k < h[5]; k++) {
            const n = 4 + new Uint32Array(o.buffer, p, 4)[3];
            items.push(new Uint32Array(o.buffer.slice(p, p + 4 * n)));
            p += 4 * n;
        }
        const [sample, ...counters] = text(o.subarray(p)).split('\n');
        return { code, executions: h[0], transitions: h[1], points: h[2], states, outcomes, items, sample, counters };
    }
}
const join = (items) => {
    const r = new Uint32Array(items.reduce((n, i) => n + i.length, 0));
    let at = 0;
    for (const i of items) {
        r.set(i, at);
        at += i.length;
    }
    return r;
};
/** The subtree that consists of the execution with these choices and what it leads to. */
const single = (choices) =>
    choices.length
        ? Uint32Array.of(choices.at(-1), choices.at(-1) + 1, 0, choices.length - 1, ...choices.slice(0, -1))
        : Uint32Array.of(ROOT, 0, 0, 0);

if (!isMainThread) {
    const { module, thorough } = workerData;
    let inst = null;
    const max = new Map();
    parentPort.on('message', ({ driver, items, slice, step }) => {
        const t0 = performance.now();
        const all = { code: 0, executions: 0, transitions: 0, points: 0, states: [], outcomes: [], sample: '', counters: [] };
        while (items.length && performance.now() - t0 < slice) {
            if (!inst || inst.dead || inst.e.memory.buffer.byteLength > 400 << 20) inst = new Instance(module, thorough);
            if (step) parentPort.postMessage({ step: items.at(-1) });
            const t = performance.now();
            const m = step ? 1 : max.get(driver) ?? 16;
            let r = inst.task(driver, join(items), m);
            const took = performance.now() - t;
            if (took < 60) max.set(driver, Math.min(m * 2, 20000));
            if (took > 300) max.set(driver, Math.max(m >> 1, 1));
            if (r.code != 0) {
                // Once more, on its own or else from the same start.
                inst = new Instance(module, thorough);
                let again = inst.task(driver, single(r.choices), 1);
                if (again.code == 0) {
                    inst = new Instance(module, thorough);
                    again = inst.task(driver, join(items), m);
                }
                if (again.code != 0) {
                    if (inst.dead) inst = null;
                    parentPort.postMessage({ ...r, again: again.code, againMsg: again.msg });
                    return;
                }
                r = again;
            }
            for (const k of ['executions', 'transitions']) all[k] += r[k];
            all.points = Math.max(all.points, r.points);
            all.sample ||= r.sample;
            for (const k of ['states', 'outcomes', 'counters']) all[k].push(r[k]);
            items = r.items;
        }
        parentPort.postMessage({ ...all, items });
    });
}

/** A set of 64-bit numbers, of which it holds and counts up to 2^26. */
class Set64 {
    constructor() {
        this.size = 0;
        this.zero = false;
        this.t = new Uint32Array(1 << 12);
    }
    slot(t, lo, hi) {
        const m = t.length / 2 - 1;
        let i = Math.imul(lo ^ Math.imul(hi, 0x85ebca6b), 0x9e3779b1) >>> 0;
        i = (i ^ (i >>> 15)) & m;
        while ((t[2 * i] | t[2 * i + 1]) && !(t[2 * i] == lo && t[2 * i + 1] == hi)) i = (i + 1) & m;
        return 2 * i;
    }
    add(lo, hi) {
        if (!(lo | hi)) {
            this.size += !this.zero;
            this.zero = true;
            return;
        }
        if (this.size >= 1 << 26) return;
        const i = this.slot(this.t, lo, hi);
        if (this.t[i] | this.t[i + 1]) return;
        this.t[i] = lo;
        this.t[i + 1] = hi;
        if (++this.size * 4 > this.t.length) {
            const t = new Uint32Array(this.t.length * 2);
            for (let k = 0; k < this.t.length; k += 2) {
                if (!(this.t[k] | this.t[k + 1])) continue;
                const i = this.slot(t, this.t[k], this.t[k + 1]);
                t[i] = this.t[k];
                t[i + 1] = this.t[k + 1];
            }
            this.t = t;
        }
    }
    addAll(lists) {
        for (const l of lists) for (let i = 0; i < l.length; i += 2) this.add(l[i], l[i + 1]);
    }
}

async function main() {
    const here = path.dirname(fileURLToPath(import.meta.url));
    const root = process.env.MC_ROOT || path.dirname(here);
    const tier = process.env.VERIF_TIER == 'thorough' ? 'thorough' : 'quick';
    const plan = JSON.parse(fs.readFileSync(path.join(here, 'plan.json')));
    const module = await WebAssembly.compile(fs.readFileSync(process.env.W32_WASM));
    const mode = process.argv[2];
    if (mode == 'replay') {
        const f = JSON.parse(fs.readFileSync(process.argv[3]));
        console.log(`${f.property} ${f.driver}: ${f.message}`);
        const inst = new Instance(module, f.tier == 'thorough' ? 1 : 0);
        const d = inst.drivers().find((d) => `${d.id}.${d.name}` == f.driver);
        const r = inst.task(d.i, single(f.choices), 1);
        console.log(r.code == 0 ? `ok ${r.sample}` : `${r.code == 1 ? 'violation' : 'internal'}: ${r.msg}\n${r.labels}`);
        return r.code;
    }
    const start = performance.now();
    const all = new Instance(module, tier == 'thorough' ? 1 : 0).drivers();
    // Which drivers are explored here.
    const wanted = (d) => {
        if (process.env.MC_DRIVER) return `${d.id}.${d.name}`.match(`^(${process.env.MC_DRIVER})$`);
        return tier == 'thorough' || !plan.thorough_only.some((n) => n == d.id || n == `${d.id}.${d.name}`);
    };
    const drivers = all.filter(wanted);
    if (mode == 'list') {
        for (const d of drivers) console.log(`${ID} ${d.id}.${d.name} bound=${d.bound} ${d.what}`);
        return 0;
    }
    const budget = 1000 * (+process.env.MC_BUDGET_S || (tier == 'thorough' ? 3 * 3600 : 400));
    for (const d of drivers)
        Object.assign(d, { executions: 0, transitions: 0, points: 0, states: new Set64(), outcomes: new Set64(), samples: [], busy: 0, counters: {}, tasks: 1, open: 1 });
    // Subtrees, the last driver's first: those are taken from the end.
    const queue = drivers.map((d) => ({ d, items: [Uint32Array.of(ROOT, 0, 0, 0)] })).reverse();
    let capped = false;
    const bad = await new Promise((resolve) => {
        let n = Math.min(os.availableParallelism(), 16);
        const free = [];
        let running = 0, over = false;
        const stop = (v) => {
            if (over) return;
            over = true;
            for (const w of workers) w.terminate();
            resolve(v);
        };
        const give = () => {
            while (free.length && queue.length) {
                const task = queue.pop();
                const w = free.pop();
                w.task = task;
                w.since = performance.now();
                running++;
                w.postMessage({ driver: task.d.i, items: task.items, slice: queue.length < n ? 60 : 500 });
            }
            if (!running && !queue.length) stop(null);
        };
        const spawn = () => {
            const w = new Worker(fileURLToPath(import.meta.url), {
                workerData: { module, thorough: tier == 'thorough' ? 1 : 0 },
                resourceLimits: { stackSizeMb: 48, maxOldGenerationSizeMb: 2048 },
            });
            w.on('error', (e) => stop({ code: 2, d: w.task?.d, msg: `worker: ${e.stack}` }));
            w.on('message', (m) => {
                const { d } = w.task;
                if (m.step) {
                    w.last = m.step;
                    w.since = performance.now();
                    return;
                }
                if (m.code != 0) {
                    if (m.code == 1 && m.again != 1) m.msg += ` (on its own the execution ends with ${m.again}: ${m.againMsg ?? ''})`;
                    return stop({ ...m, d });
                }
                running--;
                d.busy += performance.now() - w.since;
                d.executions += m.executions;
                d.transitions += m.transitions;
                d.points = Math.max(d.points, m.points);
                d.states.addAll(m.states);
                d.outcomes.addAll(m.outcomes);
                if (m.sample && d.samples.length < 1) d.samples.push(m.sample);
                for (const l of m.counters.flat()) {
                    const [k, v] = l.split('\t');
                    d.counters[k] = (d.counters[k] ?? 0) + +v;
                }
                const parts = Math.min(m.items.length, queue.length < 4 * n ? 2 * n : 2);
                for (let k = 0; k < parts; k++) {
                    queue.push({ d, items: m.items.filter((_, i) => i % parts == k) });
                }
                d.open += parts - 1;
                if (d.open == 0) report(d);
                w.task = null;
                free.push(w);
                if (performance.now() - start > budget && queue.length) {
                    for (const t of queue) t.d.capped = true;
                    capped = true;
                    queue.length = 0;
                }
                give();
            });
            return w;
        };
        const workers = Array.from({ length: n }, spawn);
        free.push(...workers);
        const timer = setInterval(() => {
            if (over) return clearInterval(timer);
            for (const w of workers) {
                if (!w.task || performance.now() - w.since < HANG_MS) continue;
                if (w.last) return stop({ code: 1, d: w.task.d, msg: `no answer within ${HANG_MS / 1000} s`, choices: prefix(w.last), labels: '' });
                // One execution at a time, to find the one that does not end.
                const again = spawn();
                again.task = w.task;
                again.since = performance.now();
                w.terminate();
                workers[workers.indexOf(w)] = again;
                again.postMessage({ driver: again.task.d.i, items: again.task.items, slice: 1e9, step: true });
            }
        }, 1000);
        give();
    });
    const wall = (performance.now() - start) / 1000;
    const put = (dir, s) => {
        fs.mkdirSync(path.join(root, dir), { recursive: true });
        const p = path.join(root, dir, `${ID}.json`);
        fs.writeFileSync(p, JSON.stringify(s, null, 1) + '\n');
        return p;
    };
    const sum = (f) => drivers.reduce((n, d) => n + f(d), 0);
    if (bad && bad.code != 1) {
        console.error(`internal error: ${bad.d?.id}.${bad.d?.name}: ${bad.msg}`);
        return 2;
    }
    put('evidence', {
        property: ID,
        tier,
        seed: +process.env.VERIF_SEED || 1,
        level: 'model_checking',
        coverage: {
            states: sum((d) => d.states.size),
            transitions: sum((d) => d.transitions),
            traces_validated_against_impl: sum((d) => d.executions),
            exhaustive: !bad && !capped,
            samples: bad ? [`${bad.d.id}.${bad.d.name}: ${bad.msg}`] : drivers.flatMap((d) => d.samples.map((s) => `${d.id}.${d.name}: ${s}`)),
            binding: "every execution of the choice tree runs the crate built from /repo's working tree for wasm32 and compares its complete result with the reference model",
            platform: 'wasm32-unknown-unknown (32-bit usize), overflow checks and debug assertions on',
            drivers: drivers.map((d) => ({
                driver: `${d.id}.${d.name}`,
                explores: d.what,
                deviation_bound: d.bound,
                executions: d.executions,
                states: d.states.size,
                transitions: d.transitions,
                distinct_outcomes: d.outcomes.size,
                longest_choice_sequence: d.points,
                complete: !d.capped && !bad,
                processor_s: +(d.busy / 1000).toFixed(2),
                counters: d.counters,
            })),
        },
        assumptions: [
            'the reference model (mc/src/ref*.rs, enc.rs) states the Aseprite format and blend functions correctly',
            'wasm32 stands for the other 32-bit platforms: same width of usize and isize',
            'flate2 decodes zlib streams correctly',
            'behaviour outside the stated alphabets and bounds is not covered',
        ],
        wall_s: +wall.toFixed(2),
        violations: bad ? 1 : 0,
    });
    console.log(`${ID} ${drivers.length} drivers executions=${sum((d) => d.executions)} states=${sum((d) => d.states.size)} transitions=${sum((d) => d.transitions)} ${wall.toFixed(1)}s${capped ? ' INCOMPLETE (time budget)' : ''}`);
    if (!bad) return 0;
    const file = put('replays', { property: ID, driver: `${bad.d.id}.${bad.d.name}`, tier, choices: bad.choices, message: bad.msg, deviations: bad.labels });
    console.log(`${bad.d.id}.${bad.d.name}: on a 32-bit platform: ${bad.msg}\n    ${bad.labels}`);
    console.log(`VIOLATION property=${ID} replay=${file}`);
    return 1;

    function prefix(item) {
        const base = [...item.subarray(4, 4 + item[3])];
        return item[0] == ROOT ? [] : [...base, item[0]];
    }
    function report(d) {
        for (const k of ['states', 'outcomes']) d[k] = { size: d[k].size };
        if (process.env.MC_VERBOSE)
            console.log(`${ID} ${`${d.id}.${d.name}`.padEnd(28)} bound=${d.bound} executions=${d.executions} states=${d.states.size} transitions=${d.transitions} outcomes=${d.outcomes.size} processor ${(d.busy / 1000).toFixed(1)}s${d.capped ? ' INCOMPLETE' : ''}`);
    }
}

if (isMainThread) process.exit(await main());
