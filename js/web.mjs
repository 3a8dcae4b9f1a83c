// C41: the engine as the browser gets it.  The browser crate is compiled for
// wasm32 and for the host; both play the same histories.
import fs from 'node:fs'
import path from 'node:path'
import { spawnSync } from 'node:child_process'
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads'
import { fileURLToPath } from 'node:url'
import { root, thorough, visit, step, state, outcome, report, tally, absorb, replaying, begin } from './common.mjs'

begin('C41')
const MODULE = path.join(root, 'target', 'wasm32-unknown-unknown', 'release', 'webhost.wasm')
const SHARDS = 8

// ---- the module ---------------------------------------------------------------
const module = new WebAssembly.Module(fs.readFileSync(MODULE))
const imports = {}
for (const { module: m, name } of WebAssembly.Module.imports(module)) (imports[m] ??= {})[name] = () => {
  // clocks are the only thing asked of the page
  if (/now/.test(name)) return 0
  throw new Error(`the module calls ${name}`)
}
class Web {
  constructor() { this.x = new WebAssembly.Instance(module, imports).exports }
  put(bytes) {
    const p = this.x.take(bytes.length)
    new Uint8Array(this.x.memory.buffer, p, bytes.length).set(bytes)
    return p
  }
  text(f, s) {
    const b = new TextEncoder().encode(s)
    return this.x[f](this.put(b), b.length)
  }
  bytes(p, n) { return new Uint8Array(this.x.memory.buffer.slice(p, p + n)) }
}
function play(h) {
  const web = new Web(), got = []
  const { x } = web
  x.set_sr(44100)
  x.set_seed(42)
  x.set_track_amp(1)
  for (const l of h) {
    const op = l[0], arg = l.slice(1)
    step()
    if (op === 'U') got.push(web.bytes(web.text('update', arg), 256))
    else if (op === 'B') for (let i = 0; i < +arg; i++) got.push(web.bytes(x.process(256), 1024))
    else if (op === 'S') {
      const [name, channels, sr, ...v] = arg.split(' ')
      const s = new Float32Array(v.map(Number)), n = new TextEncoder().encode(name)
      x.add_sample(web.put(n), n.length, web.put(new Uint8Array(s.buffer)), s.length, +channels, +sr)
    } else if (op === 'M') web.text('send_msg', arg)
    else if (op === 'T') x.set_bpm(+arg)
    else if (op === 'A') x.set_track_amp(+arg)
    else if (op === 'R') x.set_sr(+arg)
    else if (op === 'E') x.set_seed(+arg)
    else if (op === 'L') x.live_coding_mode(+arg)
    else if (op === 'X') x.reset()
    else throw new Error(`what is ${l}`)
  }
  return got
}
function compare(h, want) {
  if (want.length === 5) return 'the engine panics natively'
  const got = play(h)
  let at = 0, k = 0
  const total = got.reduce((s, g) => s + g.length, 0)
  if (total !== want.length) return `${total} bytes come back, ${want.length} natively`
  let sum = ''
  for (const g of got) {
    const w = want.subarray(at, at + g.length)
    at += g.length
    if (g.length === 256) {
      if (Buffer.compare(Buffer.from(g), w)) return `the answer of an update is ${JSON.stringify(new TextDecoder().decode(g).replace(/\0+$/, ''))}, natively ${JSON.stringify(new TextDecoder().decode(w).replace(/\0+$/, ''))}`
      sum += g[0]
      continue
    }
    const a = new Float32Array(g.buffer), b = new Float32Array(new Uint8Array(w).buffer)
    for (let i = 0; i < 256; i++) {
      if (!(a[i] === b[i] || (Number.isNaN(a[i]) && Number.isNaN(b[i])) || Math.abs(a[i] - b[i]) <= 1e-4 * (1 + Math.abs(b[i])))) return `block ${k}, channel ${i >> 7}, sample ${i & 127} is ${a[i]}, natively ${b[i]}`
    }
    k++
    sum += `${b[5].toFixed(4)},${b[200].toFixed(4)};`
  }
  outcome(sum)
  for (const s of sum.split(';')) state(s)
  return null
}

// ---- the histories ---------------------------------------------------------------
const HEAD = ['R64', 'S\\s 1 64 1 -0.5 0.25 0.75', 'S\\t 2 32 0.3 -0.3 0.2 0.1 0.6 0.4']
const PROGRAMS = [
  'o: sin 4 >> mul 0.3 >> add 0.1',
  'o: saw 3.3 >> lpf 9 1 >> hpf 2 0.7 >> onepole 0.1',
  'o: squ 2.2 >> apfmsgain 40 0.5 >> delayn 3 >> delayms 50',
  'o: tri 5.7 >> pan 0.3',
  'o: noise 3 >> mul 0.1',
  'o: seq 60 _ 67_72 >> envperc 0.05 0.1',
  'o: imp 7 >> sp \\s',
  'o: psampler "\\s@0.0 \\t@0.5"(1)',
  'o: choose 60 67 72 0',
  'o: speed 3 >> seq 60 60',
  'o: imp 3 >> adsr 0.1 0.1 0.5 0.1',
  'o: imp 3 >> bd 0.1',
  'o: imp 3 >> hh 0.1',
  'o: imp 3 >> sn 0.1',
  'o: imp 3 >> sawsynth 0.01 0.1',
  'o: imp 3 >> squsynth 0.01 0.1',
  'o: imp 3 >> trisynth 0.01 0.1',
  'o: noise 9 >> plate 0.3',
  'o: [0 => 0.1, 1/4 => 0.9]!',
  'o: psynth `0 60, 0.5 67` 1',
  'o: eval `phase + 0.1`',
  'o: meta `|| { output.pad(128, 0.5); output }`',
  'o: msgsynth \\saw 0.05 0.2',
  'o: lpf "3@0.0 9@0.25 5@0.5"(1) 1',
  '~a: sig 0.1\n~b: sin 2.1\n~c: saw 1.3\no: mix ~a ~b ~c',
  'o: sin 1.1\np: sin 2.3\nq: saw 3.7\nr: tri 1.9',
  '~ka: sin 1.1\n~kb: sin 2.3\n~kc: saw 3.7\n~kd: tri 1.9\no: mix ~k..',
  '~a: sig 10 >> add ~m\n~m: sin 0.7\no: sin ~a >> mul ~m',
  '~a: sig 0.3\n~b: sig 0.7\no: arrange ~a 0.5 ~b 1',
  '~a: sin 3\n~b: saw 2\no: balance ~a ~b',
  '~a: choose 60 62\n~b: choose 64 65 67\no: seq ~a ~b >> mul 0.1',
  '~a: sin 2 >> mul 20 >> add 30\no: saw 5 >> delayms ~a',
  '~a: sin 3 >> mul 20 >> add 30\no: saw 5 >> apfmsgain ~a 0.5',
  'o: saw 5 >> onepole ~a\n~a: sin 2 >> mul 0.05 >> add 0.1',
  'o: noise 5 >> lpf ~a 1\n~a: sin 2 >> mul 3 >> add 8',
  'o: sig 1 >> add ~f\n~f: o >> delayn 2 >> mul 0.5',
  '~a: sig 0.1 >> add ~a\no: ~a',
  'o: delayn 70000', 'o: sin 3 >> delayms 1000', 'o: noise 4294967295', 'o: choose 60 67 4294967295',  'o: seq 60 >> sn 100000', 'o: speed 100000 >> seq 60 60 60',
  'o: sin 99999999999', 'o: imp 100000', 'o: imp 0.00001', 'o: envperc 100000 100000', 'o: adsr 100000 0 1 0',
]
const SRC = ['sin 3', 'saw 2.5', 'noise 4', 'seq 60 _ 67_48', 'imp 5', 'tri 1.3 >> pan 0.4', '~input', 'choose 60 67 0', 'imp 6 >> sp \\t', 'speed 4 >> seq 60 _60']
const FX = ['mul 0.5', 'delayn 7', 'delayms 70', 'envperc 0.06 0.1', 'lpf 8 1', 'hpf 5 1', 'onepole 0.1', 'apfmsgain 45 0.4', 'pan -0.5', 'adsr 0.02 0.03 0.5 0.06', 'squ 2.3', 'eval `in*0.5 + 0.1`', 'sp \\s', 'plate 0.2', 'bd 0.1', 'sn 0.1', 'hh 0.1', 'sawsynth 0.01 0.1']
const REFUSED = ['', 'o: sin', 'o: sinn 440', 'o: saw ~nope', 'o: sp \\nope', '~a: sin 1\n\no: >> mul', 'o: reverb 1 1 1 1', 'x', '// nothing']
const MESSAGES = ['o,0,0,2.5;~a,0,0,3;~b,1,0,0.2', 'o,1,0,0.25', 'o,0,9,1', 'q,0,0,1', 'o,4000000000,0,1', 'o,0,3,0.125=>60;o,0,3,0.5=>67', 'o,0,0,\\t']
const one = s => s.replace(/\n/g, '; ')
function* histories() {
  for (const p of PROGRAMS) yield ['alone: ' + one(p), [...HEAD, 'U' + p, 'B24']]
  for (const r of [44100, 48000, 96000]) for (const p of PROGRAMS) yield [`at ${r}: ${one(p)}`, [`R${r}`, ...HEAD.slice(1), 'U' + p, 'B40']]
  for (const a of PROGRAMS) for (const b of PROGRAMS) yield [`${one(a)} then ${one(b)}`, [...HEAD, 'U' + a, 'B3', 'U' + b, 'B4']]
  for (const a of PROGRAMS) for (const r of REFUSED) yield [`${one(a)}, then ${one(r)}`, [...HEAD, 'U' + a, 'B3', 'U' + r, 'B3']]
  for (const a of PROGRAMS) for (const m of MESSAGES) yield [`${one(a)}, told ${m}`, [...HEAD, 'U' + a, 'B2', 'M' + m, 'B4']]
  for (const a of PROGRAMS) for (const t of [60, 121, 0.5, 10000]) yield [`${one(a)}, at ${t} beats`, [...HEAD, 'U' + a, 'B2', 'T' + t, 'B4']]
  for (const a of PROGRAMS) for (const s of [0, 7, 4095.9, 1e9, -1]) yield [`${one(a)}, seed ${s}`, [...HEAD, 'E' + s, 'U' + a, 'B4']]
  for (const a of PROGRAMS) yield [`${one(a)}, quieter and again`, [...HEAD, 'A0.5', 'U' + a, 'B2', 'X', ...HEAD, 'U' + a, 'B2']]
  for (const a of PROGRAMS) yield [`${one(a)}, live coding`, [...HEAD, 'L1', 'U' + a, 'B2', 'Uo: sin', 'B2', 'U' + a, 'B2']]
  for (const a of SRC) for (const b of FX) {
    yield [`o: ${a} >> ${b}`, [...HEAD, `Uo: ${a} >> ${b}`, 'B8']]
    for (const c of FX) {
      yield [`o: ${a} >> ${b} >> ${c}`, [...HEAD, `Uo: ${a} >> ${b} >> ${c}`, 'B8']]
      if (thorough) for (const d of FX) yield [`o: ${a} >> ${b} >> ${c} >> ${d}`, [...HEAD, `Uo: ${a} >> ${b} >> ${c} >> ${d}`, 'B8']]
    }
  }
  if (thorough) for (const a of PROGRAMS) for (const b of PROGRAMS) for (const c of PROGRAMS) yield [`${one(a)} then ${one(b)} then ${one(c)}`, [...HEAD, 'U' + a, 'B2', 'U' + b, 'B2', 'U' + c, 'B2']]
}

async function work(mine) {
  for (let i = 0; i < mine.length; i += 500) {
    const part = mine.slice(i, i + 500)
    const r = spawnSync(path.join(root, 'target', 'release', 'wasmhost'), ['play'], { input: part.map(h => h[1].join('\x1f')).join('\x1e'), maxBuffer: 1 << 30, timeout: 300000 })
    if (r.status !== 0) {
      console.error(String(r.stderr).slice(-2000))
      process.exit(3)
    }
    let at = 0
    for (const [key, h] of part) {
      const n = r.stdout.readUInt32LE(at)
      const want = r.stdout.subarray(at + 4, at + 4 + n)
      at += 4 + n
      await visit(key, () => compare(h, want))
    }
  }
}
const all = [...histories()]
if (!isMainThread) {
  await work(all.filter((_, i) => i % SHARDS === workerData))
  parentPort.postMessage(tally())
} else {
  if (replaying) await work(all.filter(h => replaying(h[0])))
  else {
    const parts = await Promise.all(Array.from({ length: SHARDS }, (_, i) => new Promise((ok, no) => {
      const w = new Worker(fileURLToPath(import.meta.url), { argv: process.argv.slice(2), workerData: i })
      w.once('message', ok)
      w.once('error', no)
      w.once('exit', c => c && no(new Error(`a worker ended with ${c}`)))
    })))
    parts.forEach(absorb)
  }
  report('C41', `every one of ${PROGRAMS.length} programs alone at four rates, every pair${thorough ? ' and triple' : ''} of them one after the other, every chain of up to ${thorough ? 'three' : 'two'} of ${FX.length} effects after each of ${SRC.length} sources, each program with every refused text, message, tempo and seed of the lists, with a reset and in live coding mode; the answers byte for byte and the blocks within 1e-4. States are the distinct blocks`, ['the JavaScript glue that is generated for the module is not part of this: the module is called through pointers'])
}
