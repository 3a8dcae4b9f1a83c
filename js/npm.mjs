// C39: the npm package end to end.  js/npm/index.js runs in a page that has
// just what it asks for; the audio thread runs the text index.js makes of
// js/npm/glicol-engine.js and ringbuf.js.  Between the two are message ports
// that deliver when told to, and below is an engine that records its calls and
// whose memory can move at any of them.
import vm from 'node:vm'
import fs from 'node:fs'
import { thorough, visit, step, state, outcome, words, answers, display, report, begin, browser, Port, answered, input, reader, decodes } from './common.mjs'

begin('C39')
const DIR = '/repo/js/npm/'
const WASM = '/assets/glicol_wasm.0af3.wasm'
const shared = { SharedArrayBuffer, ArrayBuffer, Atomics, Uint8Array, Uint16Array, Uint32Array, Int32Array, Float32Array, TextEncoder, TextDecoder, Promise, Error, TypeError, RangeError }

// ---- texts ----------------------------------------------------------------
const GOOD = 'o: sin 440', OTHER = '// é\n~a: saw 220 >> mul 0.1;\no: seq 60 _67', LONG = `o: sin 440${'// long '.padEnd(9000, 'x')}`
const BAD = 'o: sinn 440', BAD3 = '~a: noise 42\n\no: sin 1 >> mul ', NOREF = 'o: sin ~b', NOSAMPLE = 'o: sp \\nowhere'
const REFUSED = [
  BAD, BAD3, NOREF, NOSAMPLE, ':', 'o', 'o:', 'o: ', 'o: >> mul 1', 'o: sin', 'o: sin 440 >>', 'o: seq', 'o: seq 60 (', '\n\n\no: lpf', 'o: lpf 100', 'o: adsr 0.1',
  'a b', '~', '~a: ', 'o: speed', 'o: sin 440;;', 'o: sin 440 >> mul 0.1 ~', 'x: sin 1\ny: sin 2\nz: si 3', 'o: arrange ~a', 'o: points', 'o: choose', 'o: sp', 'o: sp bd', 'o: meta `', 'o: psynth', 'o: envperc 1', 'o: sin 440 // fine\no2: saw',
]
const ANSWER = answers([GOOD, OTHER, LONG, '', 'o: sin 440;\n\n', ...REFUSED])

// ---- a recording engine with memory that moves -----------------------------
function engine(policy) {
  const memory = new WebAssembly.Memory({ initial: 1, maximum: 1000 })
  const log = [], areas = new Map()
  let top = 1024, calls = 0, allocs = 0, blocks = 0, pending = null
  const bad = []
  const tick = () => {
    if (policy(calls++)) memory.grow(1)
  }
  const take = bytes => {
    allocs++
    const p = top
    top += Math.ceil(bytes / 8) * 8 + 8
    while (top > memory.buffer.byteLength) memory.grow(1)
    areas.set(p, bytes)
    tick()
    return p
  }
  const area = (p, bytes, what) => {
    if (!areas.has(p) || areas.get(p) < bytes) bad.push(`${what} is given as ${bytes} bytes at ${p}, where ${areas.get(p) ?? 'nothing'} was allocated`)
    return [memory.buffer.slice(p, p + bytes)]
  }
  const bytes = (p, n, what) => new Uint8Array(area(p, n, what)[0])
  const floats = (p, n, what) => new Float32Array(area(p, n * 4, what)[0])
  const text = (p, n, what) => new TextDecoder().decode(bytes(p, n, what))
  const port = (...x) => log.push(['port', ...x])
  const exports = {
    memory,
    alloc: n => take(n * 4),
    alloc_uint8array: n => take(n),
    live_coding_mode: b => { port('live', !!b); tick() },
    set_sr: x => { port('sr', x); tick() },
    set_seed: x => { port('seed', x >= 0 && x < 4096); tick() },
    set_bpm: x => { port('bpm', x); tick() },
    set_track_amp: x => { port('amp', x); tick() },
    add_sample: (np, nl, sp, sl, ch, sr) => { port('sample', text(np, nl, 'a name'), [...floats(sp, sl, 'a sample')].join(' '), ch, sr); tick() },
    update: (p, n) => { const t = text(p, n, 'a text'); log.push(['update', t]); pending = t; tick() },
    send_msg: (p, n) => { log.push(['msg', text(p, n, 'a message')]); tick() },
    process: (ip, op, n, rp) => {
      const i = ip ? [...floats(ip, 128, 'the input')] : Array(128).fill(0)
      if (n !== 256) bad.push(`a block of ${n} is asked for`)
      area(op, 1024, 'the output')
      area(rp, 256, 'the answer')
      tick()
      blocks++
      const out = new Float32Array(memory.buffer, op, 256)
      for (let k = 0; k < 256; k++) out[k] = blocks * 1000 + k
      const a = pending === null ? undefined : ANSWER.get(pending)
      new Uint8Array(memory.buffer, rp, 256).set(a ?? new Uint8Array(256))
      pending = null
      log.push(['block', i.join(' ')])
    },
  }
  return { exports, log, bad, count: () => allocs, blocks: () => blocks }
}

// ---- a page and an audio thread ---------------------------------------------
let world = null // the case that runs
class AudioWorkletNode {
  constructor(_c, name, options) {
    const Processor = world.processors?.get(name)
    if (!Processor) throw new Error(`there is no processor named ${name} yet`)
    this.port = new Port()
    const far = new Port()
    this.port.other = far
    far.other = this.port
    world.page = this.port
    world.thread = far
    world.options = options
    world.born = far
    world.processor = new Processor(options)
  }
  connect(t) { world.connected = t; return t }
  disconnect() { world.connected = null }
}
class Context {
  constructor() {
    this.destination = { name: 'speakers' }
    this.audioWorklet = {
      addModule: async url => {
        await settle()
        world.processors = new Map()
        const c = vm.createContext({
          ...shared, console: quiet, Date, Math, sampleRate: 48000,
          AudioWorkletProcessor: class { constructor() { this.port = world.born } },
          registerProcessor: (n, p) => world.processors.set(n, p),
          WebAssembly: { instantiate: async obj => { world.loaded = obj; await settle(); await settle(); world.there = true; return { instance: { exports: world.engine.exports } } } },
        })
        vm.runInContext(url, c)
      },
    }
  }
  suspend() { world.sounding = false }
  resume() { world.sounding = true }
  decodeAudioData(data, ok) { return decodes(data)(ok) }
}
const shown = []
const quiet = { log: s => shown.push(s), warn() {}, error: s => shown.push(s), table() {} }
const AGENTS = {
  chrome: ['Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36', 'Linux x86_64', true],
  firefox: ['Mozilla/5.0 (X11; Linux x86_64; rv:109.0) Gecko/20100101 Firefox/119.0', 'Linux x86_64', true],
  android: ['Mozilla/5.0 (Linux; Android 10; K) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Mobile Safari/537.36', 'Linux armv8l', true],
  edge: ['Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36 Edg/120.0.2210.91', 'Win32', true],
  safari: ['Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/17.0 Safari/605.1.15', 'MacIntel', false],
  iphone: ['Mozilla/5.0 (iPhone; CPU iPhone OS 16_6 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/16.6 Mobile/15E148 Safari/604.1', 'iPhone', false],
  plain: ['Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36', 'Linux x86_64', null],
}
async function load(agent) {
  const [userAgent, platform, sab] = AGENTS[agent]
  const globals = {
    ...browser, ...shared, console: quiet, AudioContext: Context, AudioWorkletNode,
    Blob: class { constructor(parts) { this.text = parts.join('') } },
    URL: { createObjectURL: b => b.text },
    Request: class { constructor(url) { this.url = url } },
    setTimeout: f => f(), window: { navigator: { userAgent, platform } }, navigator: { userAgent, platform },
    fetch: async r => {
      const url = r.url ?? r
      world.fetched.push(url)
      if (url === WASM) await world.held
      return answered({ arrayBuffer: async () => (world.files[url] ? { decoded: world.files[url] } : new ArrayBuffer(8)), json: async () => JSON.parse(world.files[url]), text: async () => world.files[url] })
    },
    FileReader: reader(f => (f.wide ? stereo : mono)),
    document: { createElement: kind => { if (kind !== 'input') throw new Error(`a new ${kind}`); return input(i => { world.picked = i }) } },
  }
  if (sab === null) delete globals.SharedArrayBuffer
  const context = vm.createContext(globals)
  if (sab === null) vm.runInContext('delete globalThis.SharedArrayBuffer', context)
  const cache = new Map()
  const get = spec => {
    if (!cache.has(spec)) {
      const f = DIR + spec.replace(/^\.\//, '').replace(/(\.js)?$/, '.js')
      const wasm = vm.runInContext(`opts => initWasm(opts, "${WASM}")`, context)
      cache.set(spec, /\.wasm/.test(spec)
        ? new vm.SyntheticModule(['default'], function () { this.setExport('default', wasm) }, { context })
        : new vm.SourceTextModule(fs.readFileSync(f, 'utf8'), { context, identifier: f }))
    }
    return cache.get(spec)
  }
  const index = get('./index')
  await index.link(get)
  await index.evaluate()
  return index.namespace
}
const settle = () => new Promise(r => setImmediate(r))
async function deliver(to) {
  while (to.queue.length) {
    step()
    const m = to.queue.shift()
    if (to.onmessage) await to.onmessage({ data: m })
  }
}
const mono = { numberOfChannels: 1, length: 3, sampleRate: 22050, getChannelData: c => { if (c !== 0) throw new RangeError(`channel ${c} of 1`); return new Float32Array([0.5, -0.25, 1]) } }
const stereo = { numberOfChannels: 2, length: 2, sampleRate: 48000, getChannelData: c => { if (c !== 0 && c !== 1) throw new RangeError(`channel ${c} of 2`); return new Float32Array(c ? [3, 4] : [1, 2]) } }
const never = () => false, always = () => true, at = k => i => i === k

// Starts an engine and waits until it says it is ready.  `early` samples are
// added before that: before the module is fetched, while it is compiled (the
// messages that follow are then handled meanwhile) or when it is there.
async function start(pkg, policy, options = {}, early = [], when = 'after', files = { '/k.wav': mono, '/s.wav': stereo }) {
  world = { engine: engine(policy), fetched: [], files }
  if (when === 'before') world.held = new Promise(r => { world.release = r })
  shown.length = 0
  let ready = 0
  const e = new pkg.default({
    ...options,
    onLoaded: () => {
      ready++
      if (!world.there) throw new Error('onLoaded was called before the module was there')
    },
  })
  for (let i = 0; i < 20 && !world.processor; i++) await settle()
  if (!world.processor) throw new Error('there is no audio node')
  for (const [name, url] of early) await e.addSampleFiles(name, url)
  await settle()
  // what is sent before the module is there may be refused
  const busy = []
  const hear = async m => {
    try {
      await world.thread.onmessage({ data: m })
    } catch (x) {
      if (m.type === 'load') throw x
    }
  }
  const drain = async () => {
    while (world.thread.queue.length) {
      const p = hear(world.thread.queue.shift())
      if (when === 'during') busy.push(p)
      else await p
    }
  }
  await drain()
  if (world.release) {
    world.release()
    await settle()
    await drain()
  }
  for (let i = 0; i < 20 && !ready; i++) {
    await deliver(world.page)
    await settle()
  }
  await Promise.all(busy)
  await deliver(world.thread)
  await settle()
  if (ready !== 1) throw new Error(`onLoaded was called ${ready} times`)
  return e
}
function block(input) {
  const outs = [[new Float32Array(128), new Float32Array(128)]]
  const ok = world.processor.process([input ? [input] : []], outs, {})
  step()
  const n = world.engine.blocks()
  if (ok !== true) return `a block answers ${ok}, so it is the last one`
  for (const c of [0, 1]) for (let k = 0; k < 128; k++) if (outs[0][c][k] !== n * 1000 + c * 128 + k) return `sample ${k} of channel ${c} is ${outs[0][c][k]} in block ${n}`
  return null
}
const IN1 = new Float32Array(128).map((_, i) => i + 1), IN2 = new Float32Array(128).map((_, i) => -i - 0.5)
const FLOOD = 'o,0,0,1;'.repeat(160)
const chain = { code: 'sin 440' }

// the letters of a history: what is called, and what the engine has to be told
const OPS = {
  good: e => { e.run(GOOD); return { run: GOOD } },
  other: e => { e.run(OTHER); return { run: OTHER } },
  bad: e => { e.run(BAD3); return { run: BAD3 } },
  noref: e => { e.run(NOREF); return { run: NOREF } },
  long: e => { e.run(LONG); return { run: LONG } },
  stop: e => { e.stop(); return { run: '' } },
  play: e => { e.play({ o: chain }); return { run: 'o: sin 440;\n\n' } },
  msg: e => { e.sendMsg('o,0,0,1'); return { msg: 'o,0,0,1;' } },
  msgs: e => { e.sendMsg('o,0,0,2;~a,1,0,0.5;'); return { msg: 'o,0,0,2;~a,1,0,0.5;' } },
  flood: e => { e.sendMsg(FLOOD); return { msg: FLOOD } },
  bpm: e => { e.setBPM(60); return { port: ['bpm', 60] } },
  // the level has no call of its own: it is posted to the node
  amp: () => { world.page.postMessage({ type: 'amp', value: 0.5 }); return { port: ['amp', 0.5] } },
  live: e => { e.liveCodingMode(true); return { port: ['live', true] } },
  calm: e => { e.liveCodingMode(false); return { port: ['live', false] } },
  data: e => { e.addSampleFromDataArray('d', new Float32Array([0.25, 0.5]), 1, 2, 8000); return { port: ['sample', '\\d', '0.25 0.5', 1, 8000] } },
  mono: async e => { await e.addSampleFiles('k-1-a', '/k.wav'); await settle(); return { port: ['sample', '\\k-1-a', '0.5 -0.25 1', 1, 22050] } },
  stereo: async e => { await e.addSampleFiles('s', '/s.wav'); await settle(); return { port: ['sample', '\\s', '1 2 3 4', 2, 48000] } },
}
const HAPPEN = ['deliver', 'block', 'in1', 'in2']
const key = w => w.join(' ')

async function history(pkg, agent, policy, w) {
  const sab = AGENTS[agent][2] === true
  const e = await start(pkg, policy)
  const log = world.engine.log
  const opening = log.splice(0).map(x => x.join())
  if (opening.join('|') !== 'port,live,false|port,sr,48000|port,seed,true') return `the engine is prepared with ${opening}`
  let latest = null // the last text that was run, and the one whose error is on its way
  const runs = [], msgs = [], ports = [], inputs = []
  let due = [], queued = 0
  const listen = async () => {
    // errors that reached the page are shown against the latest text
    const before = world.page.queue.filter(m => m.type === 'e').length
    shown.length = 0
    await deliver(world.page)
    if (before && due.length) {
      const t = due.pop()
      if (t === latest) {
        const d = display(shown, ANSWER.get(t), t)
        if (d) return d
      }
      due = []
    } else if (due.length) {
      return `the error of ${JSON.stringify(due)} does not reach the page`
    } else if (before) {
      return 'the page is told of an error that is not there'
    }
    return null
  }
  const kinds = new Set()
  const beat = input => {
    inputs.push(input ? [...input].join(' ') : Array(128).fill(0).join(' '))
    const seen = log.length
    const allocs = world.engine.count()
    const d = block(input)
    if (d) return d
    queued = 0
    const u = log.slice(seen).filter(x => x[0] !== 'block')
    if (u.length === 0 && world.engine.count() !== allocs && kinds.has(!input)) return 'a block with nothing new takes more memory'
    if (sab) {
      const updates = log.filter(x => x[0] === 'update')
      if (runs.length && updates.length && latest !== null && updates[updates.length - 1][1] !== latest && !longWaits()) return `after a block the engine plays ${JSON.stringify(updates[updates.length - 1][1]).slice(0, 80)}, not ${JSON.stringify(latest).slice(0, 80)}`
      if (runs.length && !updates.length && !longWaits()) return `after a block the engine has not been told ${JSON.stringify(latest).slice(0, 80)}`
    }
    kinds.add(!input)
    return null
  }
  const longWaits = () => world.thread.queue.some(m => m.type === 'run')
  let told = 0
  const after = () => {
    // a refused text that has reached the engine owes an error at the next block
    const all = log.filter(x => x[0] === 'update')
    const fresh = all.slice(told)
    told = all.length
    return fresh
  }
  let waiting = null
  const collect = blockDone => {
    const fresh = after()
    if (fresh.length) waiting = fresh[fresh.length - 1][1]
    if (blockDone && waiting !== null) {
      if (ANSWER.get(waiting)?.[0]) due.push(waiting)
      waiting = null
    }
  }
  for (const o of [...w, 'deliver', 'block', 'deliver']) {
    let d = null
    if (o === 'deliver') {
      await deliver(world.thread)
      collect(false)
      d = await listen()
    } else if (o === 'block' || o === 'in1' || o === 'in2') {
      d = beat(o === 'block' ? null : o === 'in1' ? IN1 : IN2)
      collect(true)
    } else {
      step()
      const x = await OPS[o](e)
      if (x.run !== undefined) runs.push((latest = x.run))
      if (latest && !world.sounding) return `the audio does not run (at ${o})`
      // a message that does not fit the queue is dropped as a whole
      if (x.msg !== undefined && (!sab || queued + x.msg.length <= 2048)) {
        msgs.push(x.msg)
        queued += x.msg.length
      }
      if (x.port) ports.push(x.port.join())
    }
    if (d) return `${d} (at ${o})`
    if (world.engine.bad.length) return world.engine.bad[0]
    state(`${agent} ${latest} ${log.map(x => x[0])}`)
  }
  const gotRuns = log.filter(x => x[0] === 'update').map(x => x[1])
  let i = 0
  for (const t of gotRuns) {
    while (i < runs.length && runs[i] !== t) i++
    if (i++ >= runs.length) return `the engine is told ${JSON.stringify(t).slice(0, 120)}, told were ${JSON.stringify(runs.map(r => r.slice(0, 30)))}`
  }
  if (runs.length && gotRuns[gotRuns.length - 1] !== latest) return `the engine ends with ${JSON.stringify(gotRuns[gotRuns.length - 1] ?? null).slice(0, 80)}, not ${JSON.stringify(latest).slice(0, 80)}`
  if (!sab && gotRuns.length !== runs.length) return `${runs.length} texts were run and ${gotRuns.length} arrive`
  const gotMsgs = log.filter(x => x[0] === 'msg').map(x => x[1]).join('')
  if (gotMsgs !== msgs.join('')) return `messages ${msgs.join(' ')} arrive as ${gotMsgs}`
  const gotPorts = log.filter(x => x[0] === 'port').map(x => x.slice(1).join())
  if (gotPorts.join('|') !== ports.join('|')) return `told were ${ports.join(' | ')}, the engine hears ${gotPorts.join(' | ')}`
  const gotIn = log.filter(x => x[0] === 'block').map(x => x[1])
  for (let k = 0; k < inputs.length; k++) if (gotIn[k] !== inputs[k]) return `the input of block ${k + 1} is ${gotIn[k].slice(0, 40)}…, not ${inputs[k].slice(0, 40)}…`
  outcome(log.map(x => x.join()).join('|'))
  return null
}

const packages = {}
for (const a of Object.keys(AGENTS)) packages[a] = await load(a)

// how each browser is started
for (const [agent, [, , sab]] of Object.entries(AGENTS)) {
  for (const isLiveCoding of [false, true]) for (const to of [undefined, { name: 'a mixer' }]) {
    await visit(`start in ${agent}, live coding ${isLiveCoding}, ${to ? 'into a mixer' : 'into the speakers'}`, async () => {
      const audioContext = new Context()
      const e = await start(packages[agent], never, { audioContext, isLiveCoding, connectTo: to })
      const p = world.options.processorOptions
      if (!!p.useSAB !== (sab === true)) return `shared memory is ${p.useSAB ? '' : 'not '}used`
      if (!world.fetched.includes(WASM)) return `the module is fetched from ${world.fetched}`
      if (!(world.loaded instanceof ArrayBuffer)) return 'the module that is loaded is not the one that was fetched'
      if (world.connected !== (to ?? audioContext.destination)) return `the node is connected to ${JSON.stringify(world.connected)}`
      if (world.options.outputChannelCount.join() !== '2') return `the node has ${world.options.outputChannelCount} channels`
      const o = world.engine.log.map(x => x.slice(1).join()).join('|')
      if (o !== `live,${isLiveCoding}|sr,48000|seed,true`) return `the engine is prepared with ${o}`
      const recorder = { name: 'a recorder' }
      e.connect(recorder)
      if (world.connected !== recorder) return 'connecting it to a recorder does not reach the node'
      outcome(`${agent} ${o}`)
    })
  }
}
// samples added before the module is there
const EARLY = [['k', '/k.wav'], ['s', '/s.wav'], ['a-b', '/k.wav'], ['a-b-c', '/s.wav']]
for (const agent of ['chrome', 'safari']) for (const w of words(EARLY, 3)) for (const when of ['before', 'during', 'after']) {
  await visit(`early ${agent}, ${when}: ${w.map(x => x.join(' from ')).join(', ')}`, async () => {
    await start(packages[agent], never, {}, w, when)
    await deliver(world.thread)
    const want = new Map(w)
    const got = new Map(world.engine.log.filter(x => x[1] === 'sample').map(x => [x[2], x.slice(3).join()]))
    for (const [n, url] of want) {
      const s = url === '/k.wav' ? '0.5 -0.25 1,1,22050' : '1 2 3 4,2,48000'
      if (got.get('\\' + n) !== s) return `sample ${n} is ${got.get('\\' + n)}, the samples are ${[...got.keys()]}`
    }
    if (got.size !== want.size) return `the samples are ${[...got.keys()]}`
    outcome([...got].join())
  })
}
// samples picked from files, and the ones of a list
const PICKED = [['Kick.wav', false, '\\kick'], ['Snare-a b.WAV', true, '\\snare_a_b'], ['F#2-b-c.mp3', true, '\\f_sharp_2_b_c'], ['a b c', false, '\\a_b_c'], ['A##.mp3', false, '\\a_sharp__sharp_']]
const sound = wide => (wide ? '1 2 3 4,2,48000' : '0.5 -0.25 1,1,22050')
for (const agent of ['chrome', 'safari']) for (const w of words(PICKED, thorough ? 4 : 3, 0)) {
  await visit(`picked in ${agent}: ${w.map(x => x[0]).join(', ') || 'none'}`, async () => {
    const e = await start(packages[agent], never)
    world.engine.log.splice(0)
    await e.addSampleFiles()
    const i = world.picked
    if (!i) return 'no file chooser is opened'
    if (i.type !== 'file' || !i.multiple) return `the file chooser is of type ${i.type}, for ${i.multiple ? 'several' : 'one'}`
    i.onchange({ target: { files: w.map(([name, wide]) => ({ name, wide })) } })
    await settle()
    await deliver(world.thread)
    const want = w.map(([, wide, name]) => `port,sample,${name},${sound(wide)}`).join('|')
    const got = world.engine.log.map(x => x.join()).join('|')
    if (got !== want) return `the engine hears ${got}, expected ${want}`
    const names = w.map(x => x[2].slice(1))
    for (const n of names) if (!Object.hasOwn(e.sampleBuffers, n)) return `${n} is not among the samples ${Object.keys(e.sampleBuffers)}`
    outcome(got)
    return null
  })
}
const LISTED = [['kick', false], ['a-b', true], ['a-b-c', false], ['808', true], ['2json.js', false]]
for (const agent of ['chrome', 'safari']) for (let bits = 0; bits < 1 << LISTED.length; bits++) for (const by of ['call', 'option']) {
  const w = LISTED.filter((_, i) => bits >> i & 1)
  await visit(`listed in ${agent}, by ${by}: ${w.map(x => x[0]).join(', ') || 'none'}`, async () => {
    // the list is at one address and the sounds are in a directory beside it
    const files = new Proxy({}, { get: (_, url) => {
      const u = String(url)
      if (u.endsWith('.json')) return JSON.stringify(Object.fromEntries(w.map(([n]) => [n, [`${n}.wav`]])))
      const l = LISTED.find(([n]) => u.endsWith(`/assets/${n}.wav`))
      return l && (l[1] ? stereo : mono)
    } })
    const e = await start(packages[agent], never, by === 'call' ? {} : { loadSamples: true }, [], 'after', files)
    if (by === 'call') await e.loadSamples()
    for (let i = 0; i < 10; i++) await settle()
    await deliver(world.thread)
    const want = w.filter(x => x[0] !== '2json.js').map(([n, wide]) => `port,sample,\\${n.replace(/-/g, '_')},${sound(wide)}`).sort().join('|')
    const got = world.engine.log.filter(x => x[1] === 'sample').map(x => x.join()).sort().join('|')
    if (got !== want) return `the engine hears ${got}, expected ${want}`
    outcome(got)
    return null
  })
}
// every refused text is shown
for (const agent of ['chrome', 'safari']) for (const t of REFUSED) {
  for (const via of ['run', 'play']) {
    // what play makes of a text that is refused is another text
    if (via === 'play' && !t.startsWith('o: ')) continue
    await visit(`refused in ${agent} by ${via}: ${t}`, async () => {
      const e = await start(packages[agent], never)
      const text = via === 'run' ? t : `${t};\n\n`
      if (via === 'play' && !ANSWER.has(text)) ANSWER.set(text, answers([text]).get(text))
      if (via === 'run') e.run(t)
      else e.play({ o: { code: t.slice(3) } })
      await deliver(world.thread)
      const d = block(null)
      if (d) return d
      shown.length = 0
      await deliver(world.page)
      if (!ANSWER.get(text)[0]) return null
      outcome(shown.join('|'))
      return display(shown, ANSWER.get(text), text)
    })
  }
}
// histories
const letters = [...Object.keys(OPS), ...HAPPEN]
for (const agent of ['chrome', 'safari']) {
  for (const w of words(letters, 3)) await visit(`${agent}: ${key(w)}`, () => history(packages[agent], agent, never, w))
  for (const w of words(letters, 2)) await visit(`${agent}, memory moves always: ${key(w)}`, () => history(packages[agent], agent, always, w))
  for (const w of words(letters, 2)) for (let k = 0; k < (thorough ? 16 : 10); k++) {
    await visit(`${agent}, memory moves at call ${k}: ${key(w)}`, () => history(packages[agent], agent, at(k), w))
  }
  const core = ['good', 'bad', 'stop', 'msg', 'data', 'deliver', 'block', 'in1']
  for (const w of words(core, thorough ? 5 : 4, 4)) await visit(`${agent}: ${key(w)}`, () => history(packages[agent], agent, never, w))
}
report('C39', `every browser in the list with every start option; every word of up to three samples added before the module is fetched, while it is compiled and when it is there; every word of up to ${thorough ? 'four' : 'three'} picked files; every subset of a list of samples, asked for by a call and by an option; every refused text of the list; every word of up to three letters over ${letters.join(', ')} and of four${thorough ? ' and five' : ''} over the core letters, and every word of two with the engine's memory moving at each call or at all of them, each on the path with and without shared memory. States are the distinct combinations of the latest text and the calls made`, ['the engine below is a recording stand-in with the pointer interface the processor expects', 'port messages arrive in order and no later than the next delivery; texts and messages together fit the queues'])
