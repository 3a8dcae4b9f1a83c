// C35: writes one record per chain or graph built with js/npm/nodechain.js and
// played with js/npm/index.js: a key, the program it reads like, and the text
// that was really produced.  The parser side of the check is in mc.
import vm from 'node:vm'
import fs from 'node:fs'

process.on('uncaughtException', e => {
  console.error(e)
  process.exit(3)
})
const DIR = '/repo/js/npm/'
const thorough = process.argv.includes('thorough')

// ---- the modules, in a page that has just what they ask for -------------
const nodes = []
class AudioContext {
  constructor() { this.audioWorklet = { addModule: async () => {} }; this.destination = {} }
  suspend() {}
  resume() {}
}
class AudioWorkletNode {
  constructor(_c, _n, options) {
    this.options = options
    this.sent = []
    this.port = { postMessage: m => this.sent.push(m), addEventListener() {}, start() {} }
    nodes.push(this)
  }
  connect(t) { return t }
  disconnect() {}
}
const quiet = { log() {}, warn() {}, error() {}, table() {} }
const agent = 'Chrome/120.0.0.0'
const context = vm.createContext({
  structuredClone, queueMicrotask, performance, clearTimeout() {}, URLSearchParams, AbortController, Event, EventTarget,
  console: quiet, AudioContext, AudioWorkletNode, SharedArrayBuffer, ArrayBuffer, Atomics, Uint8Array, Uint32Array, Float32Array,
  TextEncoder, TextDecoder, Blob: class {}, URL: { createObjectURL: () => 'blob:' }, setTimeout: () => {},
  window: { navigator: { userAgent: agent, platform: 'Linux' } }, navigator: { userAgent: agent },
  fetch: async () => ({ arrayBuffer: async () => new ArrayBuffer(0) }),
})
const cache = new Map()
function get(spec) {
  if (!cache.has(spec)) {
    const f = DIR + spec.replace(/^\.\//, '').replace(/(\.js)?$/, '.js')
    cache.set(spec, /\.wasm/.test(spec)
      ? new vm.SyntheticModule(['default'], function () { this.setExport('default', () => {}) }, { context })
      : new vm.SourceTextModule(fs.readFileSync(f, 'utf8'), { context, identifier: f }))
  }
  return cache.get(spec)
}
// what the code under test throws stands in the record in place of the text
const text = f => {
  try {
    return String(f())
  } catch (e) {
    return `(threw ${String(e && e.message).replace(/[\x00-\x1f]/g, ' ')})`
  }
}
let broken = null, build = {}, engine, queue
try {
  const index = get('./index')
  await index.link(get)
  await index.evaluate()
  const { default: Engine, NodeChain: _, ...b } = index.namespace
  const { RingBuffer } = get('./ringbuf').namespace
  engine = new Engine()
  for (let i = 0; i < 20 && !nodes.length; i++) await new Promise(r => setImmediate(r))
  queue = new RingBuffer(nodes[0].options.processorOptions.codeQueue, Uint8Array)
  build = b
} catch (e) {
  console.error(e)
  broken = e
}
function played(graph) {
  if (broken) throw broken
  engine.play(graph)
  const a = new Uint8Array(4096)
  return new TextDecoder().decode(a.slice(0, queue.pop(a))).replace(/\0$/, '')
}

// ---- what each call reads like ------------------------------------------
const NUM = [0, 1, 440, 0.5, -1, -0.25, 100.125, 0.000001, 123456, '12', '0.5']
const POS = [1, 440, 0.5, 100.125, '12', '0.5']
const REF = ['~a', '~amp', '~a1']
const NR = [...NUM, ...REF]
const SEQ = ['60', '60 _ 67', '60 _67', '~a 60', '0']
const SRC = {
  sin: [[NR], x => `sin ${x}`],
  saw: [[NR], x => `saw ${x}`],
  tri: [[NR], x => `tri ${x}`],
  squ: [[NR], x => `squ ${x}`],
  imp: [[NUM], x => `imp ${x}`],
  noise: [[[0, 1, 42, '7']], x => `noise ${x}`],
  speed: [[POS], x => `speed ${x}`],
  seq: [[SEQ], x => `seq ${x}`],
  psynth: [[['s(0)', '60', 'a b'], POS], (c, n) => `psynth \`${c}\` ${n}`],
  psampler: [[['"\\s@0"(1)', '"\\s@0 \\t@0.5"(2)']], x => `psampler ${x}`],
  sig: [[NUM], x => `sig ${x}`],
  mix: [[['~a', '~a ~b', '~t..']], x => `mix ${x}`],
}
const MET = {
  mul: [[NR], x => `mul ${x}`],
  add: [[NR], x => `add ${x}`],
  delayms: [[[...POS, ...REF]], x => `delayms ${x}`],
  delayn: [[[0, 1, 5, 2.75, '12']], x => `delayn ${Math.trunc(x)}`],
  lpf: [[[...POS, ...REF], POS], (a, b) => `lpf ${a} ${b}`],
  hpf: [[[...POS, ...REF], POS], (a, b) => `rhpf ${a} ${b}`],
  plate: [[POS], x => `plate ${x}`],
  bd: [[POS], x => `bd ${x}`],
  sn: [[POS], x => `sn ${x}`],
  hh: [[POS], x => `hh ${x}`],
  sawsynth: [[POS, POS], (a, b) => `sawsynth ${a} ${b}`],
  squsynth: [[POS, POS], (a, b) => `squsynth ${a} ${b}`],
  trisynth: [[POS, POS], (a, b) => `trisynth ${a} ${b}`],
  seq: [[SEQ], x => `seq ${x}`],
  adsr: [[[0.1, 1], [0.2, 1], [0.5, '0.25'], [0.3, 1]], (a, b, c, d) => `adsr ${a} ${b} ${c} ${d}`],
  sp: [[['s', 'bd0', 'a_b', 'BD', 'Kick808', 'sN', '808', 's1_S2']], x => `sp \\${x}`],
  envperc: [[POS, POS], (a, b) => `envperc ${a} ${b}`],
}
const product = ls => ls.reduce((acc, l) => acc.flatMap(a => l.map(x => [...a, x])), [[]])
const lines = []
const show = calls => calls.map(([f, a]) => `${f}(${a.map(x => JSON.stringify(x)).join(', ')})`).join('.')
// calls: [[name, args], …], the first a source
function make(calls) {
  if (broken) throw broken
  let c = null
  for (const [f, a] of calls) c = c === null ? build[f](...a) : c[f](...a)
  return c
}
const reads = calls => calls.map(([f, a], i) => (i ? MET : SRC)[f][1](...a)).join(' >> ')
const emit = (key, want, got) => lines.push(`${key}\x1f${want}\x1f${got}`)
function chain(calls) {
  emit(show(calls), `o: ${reads(calls)}`, `o: ${text(() => make(calls).code)}`)
  if (calls.length < 3) emit(`String of ${show(calls)}`, `o: ${reads(calls)}`, `o: ${text(() => make(calls))}`)
}
function graph(g) {
  emit(
    `play ${g.map(([k, c]) => `${k}: ${show(c)}`).join(', ')}`,
    g.map(([k, c]) => `${k}: ${reads(c)}`).join('\n'),
    text(() => played(Object.fromEntries(g.map(([k, calls]) => [k, make(calls)])))),
  )
}
const first = (T, k) => T[k][0].map(l => l[0])
const last = (T, k) => T[k][0].map(l => l[l.length - 1])
const S = Object.keys(SRC), M = Object.keys(MET)

for (const s of S) for (const a of product(SRC[s][0])) {
  chain([[s, a]])
  graph([['o', [[s, a]]]])
}
for (const m of M) for (const a of product(MET[m][0])) {
  chain([['sin', [440]], [m, a]])
  graph([['o', [['sin', [440]], [m, a]]]])
}
for (const s of S) for (const m of M) for (const n of M) {
  chain([[s, first(SRC, s)], [m, last(MET, m)], [n, first(MET, n)]])
  if (thorough) for (const k of M) chain([[s, last(SRC, s)], [m, first(MET, m)], [n, last(MET, n)], [k, first(MET, k)]])
}
const parts = []
for (const s of S) parts.push([[s, first(SRC, s)]], [[s, last(SRC, s)], ['mul', ['~a']]])
for (const m of M) parts.push([['imp', [100]], [m, last(MET, m)]])
for (const a of parts) for (const b of parts) {
  graph([['o', a], ['~a', b]])
  if (thorough) for (const c of parts) graph([['~t1', a], ['o', b], ['~b', c]])
}
// a call whose number is none leaves the chain as it was
const NAN = ['abc', undefined, NaN, '1x']
const STRICT = { mul: 1, add: 1, delayms: 1, delayn: 1, hpf: 2, plate: 1, bd: 1, sn: 1, hh: 1, sawsynth: 2, squsynth: 2, trisynth: 2 }
for (const [m, n] of Object.entries(STRICT)) for (const bad of NAN) for (const a of n === 1 ? [[bad]] : [[bad, 1], [1, bad], [bad, bad]]) for (const tail of [[], ...M.map(k => [[k, first(MET, k)]])]) {
  const c = [['sin', [440]], ...tail]
  emit(`sin(440).${m}(${a.map(String).join(', ')})${tail.length ? '.' + show(tail) : ''}`, `o: ${reads(c)}`, `o: ${text(() => make([c[0], [m, a], ...tail]).code)}`)
}
// building a chain leaves an earlier one as it was
for (const s of S) for (const m of M) {
  const t = text(() => {
    const c = make([[s, first(SRC, s)]])
    make([[s, last(SRC, s)], [m, first(MET, m)]])
    return c.code
  })
  emit(`${show([[s, first(SRC, s)]])} after building ${show([[s, last(SRC, s)], [m, first(MET, m)]])}`, `o: ${reads([[s, first(SRC, s)]])}`, `o: ${t}`)
}
// calls that can be made and are not in the tables
for (const f of Object.keys(build)) if (!SRC[f]) console.error(`not covered: ${f}`)
process.stdout.write(lines.join('\x1e'))
