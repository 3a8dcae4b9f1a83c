// C40: the page of js/src end to end.  glicol.js and utils.js run in a page
// that has just what they ask for, glicol-engine.js runs as the audio thread,
// and in place of the compiled engine is one that records its calls.
import vm from 'node:vm'
import fs from 'node:fs'
import { thorough, visit, step, state, outcome, words, answers, display, report, begin, browser, Port, answered, input, reader, decodes } from './common.mjs'

begin('C40')
const DIR = '/repo/js/src/'
const shared = { ArrayBuffer, Uint8Array, Uint16Array, Uint32Array, Int32Array, Float32Array, TextEncoder, TextDecoder, Promise, Error, TypeError }
const text = f => fs.readFileSync(DIR + f, 'utf8')
const PAGE = new vm.Script(text('glicol.js'), { filename: DIR + 'glicol.js' })
const UTILS = text('utils.js')
const ENGINE = text('glicol-engine.js')
const DOCS = text('glicol-api.json')

const mono = { numberOfChannels: 1, length: 3, sampleRate: 22050, getChannelData: c => { if (c !== 0) throw new RangeError(`channel ${c} of 1`); return new Float32Array([0.5, -0.25, 1]) } }
const stereo = { numberOfChannels: 2, length: 2, sampleRate: 48000, getChannelData: c => { if (c !== 0 && c !== 1) throw new RangeError(`channel ${c} of 2`); return new Float32Array(c ? [3, 4] : [1, 2]) } }
const heard = { mono: '0.5 -0.25 1,1,22050', stereo: '1 2 3 4,2,48000' }
const LIBRARY = { bd: 1, 'a-b': 1, 'a-b-c': 1, '2json.js': 1, wide: 1 }
const NAMES = { bd: 'mono', a_b: 'mono', a_b_c: 'mono', wide: 'stereo' }

// ---- texts ------------------------------------------------------------------
const GOOD = 'o: sin 440', BAD = '~a: noise 42\n\no: sin 1 >> mul ', NOREF = 'o: sin ~b'
const REFUSED = [
  GOOD + '\no: sinn 1', BAD, NOREF, 'o: sp \\nowhere', ':', 'o', 'o:', 'o: ', 'o: >> mul 1', 'o: sin', 'o: sin 440 >>', 'o: seq', 'o: seq 60 (', '\n\n\no: lpf', 'o: lpf 100', 'o: adsr 0.1',
  'a b', '~', '~a: ', 'o: speed', 'o: sin 440;;', 'o: sin 440 >> mul 0.1 ~', 'x: sin 1\ny: sin 2\nz: si 3', 'o: arrange ~a', 'o: points', 'o: choose', 'o: sp', 'o: sp bd', 'o: meta `', 'o: psynth', 'o: envperc 1', '// fine\no: sin 440 // fine\no2: saw',
]
const ANSWER = answers([GOOD, ...REFUSED])

// ---- the page and the audio thread --------------------------------------------
let w = null
function wasm() {
  const log = []
  let blocks = 0
  const f = {
    initSync: m => log.push(['init', m instanceof ArrayBuffer && m.byteLength === 8]),
    set_sr: x => log.push(['sr', x]),
    set_seed: x => { w.seeds.push(Math.floor(x)); log.push(['seed', x >= 0 && x < 4096]) },
    add_sample: (n, s, c, sr) => log.push(['sample', n, [...s].join(' '), c, sr]),
    set_bpm: x => log.push(['bpm', x]),
    set_track_amp: x => log.push(['amp', x]),
    send_msg: x => log.push(['msg', x]),
    live_coding_mode: x => log.push(['live', x]),
    reset: () => log.push(['reset']),
    update: c => {
      const t = new TextDecoder().decode(c)
      log.push(['update', t])
      return ANSWER.get(t) ?? new Uint8Array(256)
    },
    process: n => {
      blocks++
      log.push(['block', n])
      return new Float32Array(n).map((_, i) => blocks * 1000 + i)
    },
  }
  return { f, log, blocks: () => blocks }
}
async function audioThread() {
  const a = { classes: new Map(), wasm: wasm() }
  const context = vm.createContext({
    ...shared, console: quiet, sampleRate: 44100,
    AudioWorkletProcessor: class { constructor() { this.port = a.port } },
    registerProcessor: (n, p) => a.classes.set(n, p),
  })
  vm.runInContext(`Math.random = () => ${w.random}`, context)
  const names = Object.keys(a.wasm.f)
  const m = new vm.SourceTextModule(ENGINE, { context, identifier: DIR + 'glicol-engine.js' })
  await m.link(spec => {
    if (!/glicol_wasm/.test(spec)) throw new Error(`the audio thread imports ${spec}`)
    return new vm.SyntheticModule(names, function () { for (const n of names) this.setExport(n, a.wasm.f[n]) }, { context })
  })
  await m.evaluate()
  return a
}
class Node {
  constructor(kind) { this.kind = kind; this.to = [] }
  connect(t, out = 0, inp = 0) {
    if (out >= (this.outs ?? 1) || inp >= (t.ins ?? 1)) throw new RangeError(`output ${out} of ${this.kind} to input ${inp} of ${t.kind}`)
    this.to.push([t, out, inp])
    return t
  }
  disconnect() { this.to = [] }
}
class WorkletNode extends Node {
  constructor(ctx, name, options) {
    super('engine')
    const a = ctx.thread
    const Processor = a.classes.get(name)
    this.port = new Port()
    a.port = new Port()
    a.port.other = this.port
    this.port.other = a.port
    a.options = options
    a.processor = new Processor(options)
    a.page = this.port
    w.thread = a
    w.node = this
  }
}
class Context {
  constructor() {
    this.destination = new Node('speakers')
    this.open = true
    this.audioWorklet = { addModule: async url => { if (url !== './src/glicol-engine.js') throw new Error(`nothing is at ${url}`); this.thread = await audioThread() } }
    w.contexts.push(this)
  }
  createChannelSplitter(n = 6) { return Object.assign(new Node('splitter'), { outs: n }) }
  createChannelMerger(n = 6) { return Object.assign(new Node('merger'), { ins: n }) }
  createAnalyser() {
    const n = new Node('analyser')
    n.fftSize = 32
    n.frequencyBinCount = 16
    n.getByteTimeDomainData = () => { n.drawn = `${n.drawn ?? ''}t` }
    n.getByteFrequencyData = () => { n.drawn = `${n.drawn ?? ''}f` }
    return n
  }
  suspend() { this.running = false }
  resume() { w.resumed = this.running = true }
  async close() { this.open = false }
  decodeAudioData(data, ok) { return decodes(data)(ok) }
}
const shown = []
const quiet = { log: s => shown.push(s), warn: s => w.warned.push(s), error: s => shown.push(s), table() {}, clear() {} }
const settle = () => new Promise(r => setImmediate(r))
async function calm() {
  for (let i = 0; i < 4; i++) await settle()
}
async function deliver(to) {
  while (to.queue.length) {
    step()
    const m = to.queue.shift()
    if (to.onmessage) await to.onmessage({ data: m })
  }
}
async function both() {
  for (let i = 0; i < 3; i++) {
    await deliver(w.thread.port)
    await deliver(w.page())
    await calm()
  }
}
const canvas = () => new Proxy({ width: 8, height: 8 }, { get: (t, k) => (k in t ? t[k] : k === 'getContext' ? () => new Proxy({}, { get: () => () => {}, set: () => true }) : undefined) })

async function start({ elements = [], library = LIBRARY, random = 0.5, slow = false } = {}) {
  shown.length = 0
  w = { contexts: [], warned: [], seeds: [], fetched: [], picked: null, page: () => w.thread.page, frames: 0, random }
  const files = {
    './src/utils.js': { text: async () => UTILS },
    './src/glicol-api.json': { json: async () => JSON.parse(DOCS) },
    './src/sample-list.json': { json: async () => library },
    './src/glicol_wasm_bg.wasm': { arrayBuffer: async () => new ArrayBuffer(8) },
  }
  const g = {
    ...browser, ...shared, console: quiet, AudioContext: Context, AudioWorkletNode: WorkletNode,
    setTimeout: f => f(), Request: class { constructor(url) { this.url = url } },
    fetch: async r => {
      const url = r.url ?? r
      w.fetched.push(url)
      if (slow && url === './src/glicol-api.json' && w.fetched.filter(u => u === url).length === 1) await new Promise(later => setTimeout(later, 20))
      if (files[url]) return answered(files[url])
      const f = /([^/]+)\.wav$/.exec(url)
      if (!f) throw new Error(`nothing is at ${url}`)
      return answered({ arrayBuffer: async () => ({ decoded: /^(wide|s$|s_)/.test(f[1]) ? stereo : mono }) })
    },
    FileReader: reader(f => (f.wide ? stereo : mono)),
    document: {
      getElementById: id => (elements.includes(id) ? canvas() : null),
      querySelector: s => (s[0] === '#' && elements.includes(s.slice(1)) ? canvas() : null),
      createElement: kind => { if (kind !== 'input') throw new Error(`a new ${kind}`); return input(i => { w.picked = i }) },
    },
    requestAnimationFrame: () => { w.frames++ },
  }
  g.window = g
  const context = vm.createContext(g)
  vm.runInContext(`Math.random = () => ${random}`, context)
  w.window = g
  PAGE.runInContext(context)
  await calm()
  if (!w.thread) throw new Error('there is no audio node')
  return g
}
const samplesOf = () => new Map(w.thread.wasm.log.filter(x => x[0] === 'sample').map(x => [x[1], x.slice(2).join()]))
function compareSamples(want) {
  const got = samplesOf()
  for (const [n, kind] of Object.entries(want)) if (got.get('\\' + n) !== heard[kind]) return `sample ${n} is ${got.get('\\' + n)}, the engine has ${[...got.keys()]}`
  if (got.size !== Object.keys(want).length) return `the engine has the samples ${[...got.keys()]}, not ${Object.keys(want)}`
  return null
}
function block() {
  const outs = [[new Float32Array(128), new Float32Array(128)]]
  const ok = w.thread.processor.process([[]], outs, {})
  step()
  const n = w.thread.wasm.blocks()
  if (ok !== true) return `a block answers ${ok}, so it is the last one`
  for (const c of [0, 1]) for (let k = 0; k < 128; k++) if (outs[0][c][k] !== n * 1000 + c * 128 + k) return `sample ${k} of channel ${c} is ${outs[0][c][k]} in block ${n}`
  return null
}
// the ways sound takes from the engine to the speakers: channel in, channel out
function routes() {
  const found = new Set()
  const walk = (n, left, right, depth) => {
    if (depth > 6) return
    if (n === w.window.actx.destination) return void found.add(`${left}>${right}`)
    for (const [t, out, inp] of n.to) {
      if (n.kind === 'splitter') walk(t, out, right, depth + 1)
      else if (t.kind === 'merger') walk(t, left, inp, depth + 1)
      else walk(t, left, right, depth + 1)
    }
  }
  walk(w.node, '*', '*', 0)
  return [...found].sort().join(' ')
}

// ---- starting -----------------------------------------------------------------
const ELEMENTS = [[], ['visualizer'], ['freqVisualizer'], ['visualizer', 'freqVisualizer']]
for (const elements of ELEMENTS) for (const stops of [0, 1, 2]) for (const ran of [0, 1, 2]) {
  await visit(`start with ${elements.join(' and ') || 'no canvas'}, stopped ${stops} times, run ${ran} times in between`, async () => {
    const g = await start({ elements })
    await both()
    for (let i = 0; i <= stops; i++) {
      const log = w.thread.wasm.log
      const opening = log.filter(x => x[0] !== 'sample').map(x => x.join()).join('|')
      if (opening !== 'init,true|sr,44100|seed,true') return `the engine is prepared with ${opening}`
      const d = compareSamples(NAMES)
      if (d) return d
      if (w.thread.options.outputChannelCount.join() !== '2') return `the node has ${w.thread.options.outputChannelCount} channels`
      if (!['*>*', '0>0 1>1'].includes(routes())) return `the channels go to the speakers as ${routes() || 'nothing'}`
      if (w.contexts.filter(c => c.open).length !== 1 || !g.actx.open) return `${w.contexts.filter(c => c.open).length} audio contexts are open`
      for (let k = 0; k < ran; k++) {
        w.resumed = false
        await g.run(GOOD)
        if (!w.resumed) return 'running does not resume the audio context'
        await both()
        if (log.filter(x => x[0] === 'update').length !== k + 1) return 'a text that was run does not arrive'
        const b = block()
        if (b) return b
        const want = (elements.includes('visualizer') ? 't' : '') + (elements.includes('freqVisualizer') ? 'f' : '')
        for (const a of [g.analyserL, g.analyserR]) if ((a.drawn ?? '') !== want) return `the canvases draw ${a.drawn ?? 'nothing'}, not ${want || 'nothing'}`
      }
      outcome(log.map(x => x.join()).join('|'))
      if (i < stops) {
        const last = w.thread
        await g.stop()
        await calm()
        if (w.thread === last) return 'stopping does not start another engine'
        await both()
      }
    }
  })
}
await visit('the library of the repository', async () => {
  const list = JSON.parse(text('sample-list.json'))
  await start({ library: list })
  await both()
  const want = Object.keys(list).filter(n => n !== '2json.js')
  const got = samplesOf()
  for (const n of want) if (!got.has('\\' + n.replaceAll('-', '_'))) return `sample ${n} does not arrive`
  for (const n of got.keys()) if (!/^\\[a-zA-Z0-9_]+$/.test(n)) return `a sample is named ${n}`
  return got.size === want.length ? null : `${got.size} samples arrive, ${want.length} are listed`
})

await visit('seeds differ', async () => {
  const seeds = new Set()
  for (const random of [0, 0.25, 0.5, 0.75, 0.99999]) {
    await start({ random })
    await both()
    if (w.seeds.length !== 1) return `${w.seeds.length} seeds are set`
    if (seeds.has(w.seeds[0])) return `the seed is ${w.seeds[0]} again`
    seeds.add(w.seeds[0])
  }
})

// ---- texts with code in them ------------------------------------------------------
const PIECES = [
  ['o: sin 440\n', 'o: sin 440\n'],
  ['// C# and é\n', '// C# and é\n'],
  ['##440+1#', '441'],
  ['##"a b"#', 'a b'],
  ['##[1, 2].map(x => x * 2).join(" ")#', '2 4'],
  ['##\n 1 +\n 2\n#', '3'],
  ['##let a = 3; return a * 2#', '6'],
  ['##let a = 3;#', ''],
  ['##undefined#', ''],
  ['##null#', 'null'],
  ['##true#', 'true'],
  ['##1 +#', '', 'fails'],
  ['##missing.name#', '', 'fails'],
  ['##s(1)#', 'a_b'],
  [' ', ' '],
  ['~a: saw ', '~a: saw '],
]
{
  let g = null
  for (const word of words(PIECES, thorough ? 4 : 3)) {
    const src = word.map(p => p[0]).join('')
    await visit(`run ${JSON.stringify(src)}`, async () => {
      g ??= await (async () => { const x = await start(); await both(); return x })()
      const log = w.thread.wasm.log
      log.length = 0
      w.warned.length = 0
      const want = word.map(p => p[1]).join('')
      await g.run(src)
      step()
      await deliver(w.thread.port)
      const got = log.filter(x => x[0] === 'update')
      if (got.length !== 1 || got[0][1] !== want) return `the engine is told ${JSON.stringify(got.map(x => x[1]))}, not ${JSON.stringify(want)}`
      if (g.code !== want) return `the page remembers ${JSON.stringify(g.code)}, not ${JSON.stringify(want)}`
      const fails = word.filter(p => p[2]).length
      if (w.warned.length !== fails) return `${w.warned.length} warnings, ${fails} pieces fail`
      outcome(want)
      state(want)
    })
    if (w === null) continue
  }
}

// ---- refused texts --------------------------------------------------------------------
for (const t of REFUSED) for (const u of [null, ...REFUSED]) {
  await visit(`refused ${JSON.stringify(t)}${u === null ? '' : `, after ${JSON.stringify(u)}`}`, async () => {
    const g = w && w.page ? w.window : await start()
    await both()
    for (const x of u === null ? [t] : [u, t]) {
      shown.length = 0
      await g.run(x)
      await deliver(w.thread.port)
      const b = block()
      if (b) return b
      await deliver(w.page())
      const d = display(shown, ANSWER.get(x), x)
      if (d) return d
      outcome(shown.join('|'))
    }
  })
}

// ---- histories ------------------------------------------------------------------------
const FOLDER = [['Kick Drum/a.wav', 'kick_drum_0'], ['Kick Drum/b.mp3', 'kick_drum_1'], ['x/y-z/C.wav', 'y_z_0'], ['x/F#/1.wav', 'f_sharp__0'], ['a b-c d-e#f#/1.wav', 'a_b_c_d_e_sharp_f_sharp__0']]
const FILES = [['My Kick-1.wav', 'my_kick_1'], ['C#3.mp3', 'c_sharp_3'], ['plain', 'plain'], ['a b-c d-e#f#.wav', 'a_b_c_d_e_sharp_f_sharp_']]
const OPS = {
  good: g => { g.run(GOOD); return [['update', GOOD]] },
  bad: g => { g.run(BAD); return [['update', BAD]] },
  noref: g => { g.run(NOREF); return [['update', NOREF]] },
  bpm: g => { g.setBPM(60); return [['bpm', 60]] },
  'no bpm': g => { g.setBPM('60'); return [] },
  amp: g => { g.trackAmp(0.5); return [['amp', 0.5]] },
  'amp 1': g => { g.trackAmp(1); return [['amp', 1]] },
  'amp 0': g => { g.trackAmp(0); return [['amp', 0]] },
  'high amp': g => { g.trackAmp(1.5); return [] },
  'no amp': g => { g.trackAmp('1'); return [] },
  url: async (g, m) => { await g.addSampleFiles('k-1', '/k.wav'); await calm(); m['k-1'] = 'mono'; if (!g.actx.running) throw new Error('the audio context stays suspended'); return [['sample', '\\k-1', heard.mono]] },
  'wide url': async (g, m) => { await g.addSampleFiles('s', '/s.wav'); await calm(); m.s = 'stereo'; if (!g.actx.running) throw new Error('the audio context stays suspended'); return [['sample', '\\s', heard.stereo]] },
  files: async (g, m) => {
    await g.addSampleFiles()
    if (w.picked.type !== 'file' || !w.picked.multiple || w.picked.webkitdirectory) throw new Error('files cannot be picked')
    w.picked.onchange({ target: { files: FILES.map(([name], i) => ({ name, wide: i % 2 === 1, type: 'audio/wav' })) } })
    await calm()
    FILES.forEach(([, n], i) => { m[n] = i % 2 ? 'stereo' : 'mono' })
    return FILES.map(([, n], i) => ['sample', '\\' + n, heard[i % 2 ? 'stereo' : 'mono']])
  },
  folder: async (g, m) => {
    await g.addSampleFolder()
    if (w.picked.type !== 'file' || !w.picked.webkitdirectory) throw new Error('a folder cannot be picked')
    const files = FOLDER.map(([p], i) => ({ webkitRelativePath: p, name: p.split('/').pop(), wide: i === 1, type: 'audio/wav' }))
    files.splice(1, 0, { webkitRelativePath: 'Kick Drum/notes.txt', name: 'notes.txt', type: 'text/plain' })
    await w.picked.onchange({ target: { files } })
    await calm()
    FOLDER.forEach(([, n], i) => { m[n] = i === 1 ? 'stereo' : 'mono' })
    return FOLDER.map(([, n], i) => ['sample', '\\' + n, heard[i === 1 ? 'stereo' : 'mono']])
  },
  stop: 'stop', deliver: 'deliver', block: 'block',
}
async function history(word) {
  const g = await start()
  await both()
  const mine = { ...NAMES }
  let want = [], owed = null
  const tell = () => w.thread.wasm.log.filter(x => x[0] !== 'block').map(x => (x[0] === 'sample' ? [x[0], x[1], x.slice(2).join()] : x).join()).join('|')
  w.thread.wasm.log.length = 0
  for (const o of [...word, 'deliver', 'block', 'deliver']) {
    if (o === 'deliver') {
      shown.length = 0
      await deliver(w.thread.port)
      const told = tell()
      if (told !== want.map(x => x.join()).join('|')) return `the engine is told ${told || 'nothing'}, not ${want.map(x => x.join()).join('|') || 'nothing'} (at ${o})`
      await deliver(w.page())
      if (owed !== null) {
        const d = owed === g.code ? display(shown, ANSWER.get(owed), owed) : null
        if (d) return d
        owed = null
      } else if (shown.some(s => /^%cError/.test(s))) return 'an error is shown that is not there'
    } else if (o === 'block') {
      const d = block()
      if (d) return d
    } else if (o === 'stop') {
      await g.stop()
      await calm()
      await both()
      const d = compareSamples(mine)
      if (d) return d
      w.thread.wasm.log.length = 0
      want = []
      owed = null
    } else {
      const x = await OPS[o](g, mine)
      step()
      want.push(...x)
      for (const y of x) if (y[0] === 'update' && ANSWER.get(y[1])?.[0]) owed = y[1]
    }
    state(`${word} ${o} ${tell()}`)
  }
  outcome(tell())
  return null
}
const letters = Object.keys(OPS)
for (const x of words(letters, thorough ? 3 : 2)) await visit(`history ${x.join(', ')}`, () => history(x))
const core = ['good', 'bad', 'bpm', 'url', 'stop', 'deliver', 'block']
for (const x of words(core, thorough ? 4 : 3, 3)) await visit(`history ${x.join(', ')}`, () => history(x))

// ---- choosing samples by name ------------------------------------------------------------
const all = Object.keys(NAMES)
for (const random of [0, 0.25, 0.5, 0.75, 0.999999]) {
  let g = null
  const ask = (what, f, ok) => visit(`with ${random}: ${what}`, async () => {
    g ??= await (async () => { const x = await start({ random }); await both(); return x })()
    const r = f(g)
    outcome(`${what} ${random} ${r}`)
    return ok(r) ? null : `answers ${r}`
  })
  for (let n = 0; n < 12; n++) {
    await ask(`s(${n})`, g => g.s(n), r => r === all[n % 4])
    for (let m = n; m < 12; m++) await ask(`s(${n}, ${m})`, g => g.s(n, m), r => Array.from({ length: m - n + 1 }, (_, i) => all[(n + i) % 4]).includes(r))
  }
  for (const f of ['a', 'b', 'bd', '_b', 'wi', 'a_b_c']) {
    await ask(`s("${f}")`, g => g.s(f), r => all.includes(r) && r.includes(f))
    await ask(`rnds("${f}")`, g => g.rnds(f), r => all.includes(r) && r.includes(f))
    for (const e of ['a', 'b', '_b']) if (all.some(n => n.includes(e) && n.includes(f))) await ask(`s("${f}", "${e}")`, g => g.s(f, e), r => all.includes(r) && r.includes(f) && r.includes(e))
  }
  await ask('s()', g => g.s(), r => all.includes(r))
  await ask('rnds()', g => g.rnds(), r => all.includes(r))
  await ask('allSamples()', g => g.allSamples().join(), r => r === all.join())
}
for (const f of [[], ['a'], ['b'], ['_b'], ['a', 'b'], ['b', 'a'], ['_', 'b']]) for (const h of f.length < 2 ? ['s', 'rnds'] : ['s']) {
  await visit(`what ${h}(${f}) can answer`, async () => {
    const chosen = new Set()
    for (const random of [0, 0.25, 0.5, 0.75, 0.999999]) {
      const g = await start({ random })
      await both()
      chosen.add(g[h](...f))
    }
    const never = all.filter(n => f.every(x => n.includes(x)) && !chosen.has(n))
    return never.length ? `${never} is never chosen` : null
  })
}
// ---- the documentation ---------------------------------------------------------------------
for (const token of Object.keys(JSON.parse(DOCS))) {
  for (const slow of [false, true]) await visit(`help ${token}${slow ? ' before the documentation is there' : ''}`, async () => {
    const g = await start({ slow })
    shown.length = 0
    await g.help(token)
    const d = JSON.parse(DOCS)[token]
    const all = shown.join('\n')
    for (const k of ['description', 'input', 'output', 'example']) if (!all.includes(String(d[k]))) return `the ${k} of ${token} is not shown`
    return w.warned.length ? 'help warns' : null
  })
}
report('C40', `every set of canvases, up to two stops and two runs between them; every word of up to ${thorough ? 4 : 3} pieces of text and code; every pair of refused texts; every word of up to ${thorough ? 3 : 2} letters over ${letters.join(', ')} and of ${thorough ? 'three and four' : 'three'} over the core letters; every choice of samples over five random values; every documented name. States are the distinct histories with what the engine was told`, ['the engine below is a recording stand-in with the interface of the browser crate', 'files and urls decode to a mono or a stereo buffer at once', 'pieces of code contain no # of their own'])
