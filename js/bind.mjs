// C46: the code between JavaScript and the compiled engine (glicol_wasm.js of
// the page and of the package).  In place of the compiled engine is one that
// keeps books on every byte of its memory; its memory may move at any call.
import vm from 'node:vm'
import fs from 'node:fs'
import { thorough, visit, step, state, outcome, words, report, begin } from './common.mjs'

begin('C46')
const FILES = { page: '/repo/js/src/', package: '/repo/js/npm/' }
const SOURCE = Object.fromEntries(Object.entries(FILES).map(([k, d]) => [k, fs.readFileSync(d + 'glicol_wasm.js', 'utf8')]))

// ---- the engine's side ----------------------------------------------------------
const BASE = 1024, GUARD = 16, PAGE = 4096
// moves when it grows, as the machine's does
class Memory {
  constructor() { this.buffer = new ArrayBuffer(PAGE) }
  grow(n) { this.buffer = this.buffer.transfer(this.buffer.byteLength + n * PAGE) }
}
class Machine {
  // `moves` says whether the memory moves at the n-th call
  constructor(moves) {
    this.moves = moves
    this.memory = new Memory()
    this.calls = 0
    this.sp = this.rest = BASE
    this.next = BASE + GUARD
    this.live = new Map()
    this.log = []
    this.blocks = 0
    this.wrong = null
    const e = {
      memory: this.memory,
      __wbindgen_add_to_stack_pointer: n => {
        this.tick()
        this.sp += n
        if (this.sp > this.rest) this.bad('the stack is popped below its start')
        return this.sp
      },
      malloc: (size, align) => { this.tick(); return this.get(size, align) },
      realloc: (p, was, size, align) => {
        this.tick()
        const old = was ? new Uint8Array(this.memory.buffer).slice(p, p + was) : new Uint8Array(0)
        this.give(p, was, align)
        const q = this.get(size, align)
        new Uint8Array(this.memory.buffer).set(old.subarray(0, size), q)
        return q
      },
      free: (p, size, align) => { this.tick(); this.give(p, size, align) },
      exn_store: h => { this.tick(); this.log.push(['thrown', h]) },
      process: (ret, n) => {
        this.enter('process', n)
        this.blocks++
        this.answer(ret, new Float32Array(n).map((_, i) => this.blocks * 1000 + i), 4)
      },
      update: (ret, p, n) => {
        const c = this.take(p, n, 1)
        this.enter('update', [...c].join(' '))
        if (c[0] === 63) throw new WebAssembly.RuntimeError('unreachable')
        this.answer(ret, Uint8Array.from([c.length, ...c]), 1)
      },
      add_sample: (p, n, q, m, channels, sr) => {
        const name = this.text(p, n), data = new Float32Array(this.take(q, m * 4, 4).buffer)
        this.enter('sample', name, [...data].join(' '), channels, sr)
      },
      send_msg: (p, n) => this.enter('msg', this.text(p, n)),
      live_coding_mode: x => this.enter('live', x ? 1 : 0),
      set_bpm: x => this.enter('bpm', x),
      set_track_amp: x => this.enter('amp', x),
      set_sr: x => this.enter('sr', x),
      set_seed: x => this.enter('seed', x),
      reset: () => this.enter('reset'),
    }
    const ROLE = { __wbindgen_malloc: 'malloc', __wbindgen_realloc: 'realloc', __wbindgen_free: 'free', __wbindgen_exn_store: 'exn_store', __wbindgen_export_0: 'malloc', __wbindgen_export_1: 'realloc', __wbindgen_export_2: 'free', __wbindgen_export_3: 'exn_store' }
    for (const [k, r] of Object.entries(ROLE)) e[k] = e[r]
    for (const r of ['malloc', 'realloc', 'free', 'exn_store']) delete e[r]
    this.exports = e
  }
  bad(s) { this.wrong ??= s }
  tick() {
    step()
    if (this.moves(this.calls++)) this.memory.grow(1)
  }
  enter(...what) {
    this.tick()
    this.log.push(what)
  }
  get(size, align) {
    if (!Number.isInteger(size) || size < 0) this.bad(`${size} bytes are asked for`)
    if (!size) return align
    const p = Math.ceil((this.next + GUARD) / 8) * 8
    this.next = p + size + GUARD
    while (this.next > this.memory.buffer.byteLength) this.memory.grow(1)
    new Uint8Array(this.memory.buffer).fill(0xee, p - GUARD, this.next)
    this.live.set(p, { size, align })
    return p
  }
  give(p, size, align) {
    if (!size) return
    const b = this.live.get(p)
    if (!b) return this.bad(`${size} bytes at ${p} are given back, but are not in use`)
    if (b.size !== size || b.align !== align) this.bad(`${b.size} bytes (of ${b.align}) are given back as ${size} (of ${align})`)
    const m = new Uint8Array(this.memory.buffer)
    for (let i = 0; i < GUARD; i++) if (m[p - 1 - i] !== 0xee || m[p + b.size + i] !== 0xee) this.bad(`something is written beside the ${b.size} bytes at ${p}`)
    m.fill(0xdd, p, p + b.size)
    this.live.delete(p)
  }
  take(p, size, align) {
    const c = new Uint8Array(this.memory.buffer).slice(p, p + size)
    this.give(p, size, align)
    return c
  }
  text(p, n) { return new TextDecoder().decode(this.take(p, n, 1)) }
  answer(ret, data, align) {
    if (ret !== this.sp || this.rest - this.sp < 8) this.bad(`the answer goes to ${ret}, the stack is at ${this.sp} of ${this.rest}`)
    const p = this.get(data.byteLength, align)
    new Uint8Array(this.memory.buffer).set(new Uint8Array(data.buffer), p)
    new Int32Array(this.memory.buffer).set([p, data.length], ret / 4)
  }
  // between two calls nothing is in use
  idle() {
    if (this.wrong) return this.wrong
    if (this.sp !== this.rest) return `the stack is left at ${this.sp} instead of ${this.rest}`
    if (this.live.size) return `${[...this.live.values()][0].size} bytes are never given back`
    return null
  }
}

// ---- the JavaScript side ----------------------------------------------------------
let machine = null, made = []
// one loaded module serves many cases, each with a machine of its own
const EXPORTS = new Proxy({}, { get: (_, k) => machine.exports[k] })
function renew(moves) {
  machine?.memory.buffer.transfer()
  machine = new Machine(moves)
}
let loaded = {}
const bytes = s => new TextEncoder().encode(s)
async function run(key, f) {
  await visit(key, async () => {
    let fine = false
    try {
      const d = await f()
      fine = !d
      return d
    } finally {
      if (!fine) loaded = {}
    }
  })
}
class FakeModule { constructor(bytes) { this.bytes = bytes } }
class FakeInstance { constructor(module, imports) { made.push([module, imports]); this.exports = EXPORTS } }
class FakeResponse {
  constructor(bytes, type) { this.bytes = bytes; this.headers = { get: k => (k.toLowerCase() === 'content-type' ? type : null) } }
  async arrayBuffer() { return this.bytes }
}
const fetched = []
const BYTES = new ArrayBuffer(8)
const Wasm = {
  Module: FakeModule, Instance: FakeInstance, RuntimeError: WebAssembly.RuntimeError, Memory: WebAssembly.Memory,
  instantiate: async (m, imports) => {
    if (m instanceof FakeModule) return new FakeInstance(m, imports)
    if (m !== BYTES) throw new TypeError('not bytes')
    const module = new FakeModule(m)
    return { module, instance: new FakeInstance(module, imports) }
  },
  instantiateStreaming: async (r, imports) => {
    if (r.headers.get('Content-Type') !== 'application/wasm') throw new TypeError('wrong type')
    const module = new FakeModule(r.bytes)
    return { module, instance: new FakeInstance(module, imports) }
  },
}
class OldEncoder { encode(s) { return new TextEncoder().encode(s) } }
const shared = { ArrayBuffer, Uint8Array, Int32Array, Uint32Array, Float32Array, Float64Array, BigInt64Array, DataView, TextDecoder, Promise, URL, Response: FakeResponse, Request: class {}, console: { log() {}, warn() {}, error() {} } }
const fresh = (encoder, wasm) => {
  const c = vm.createContext({ ...shared, TextEncoder: encoder, WebAssembly: wasm, fetch: async u => { fetched.push(String(u)); return new FakeResponse(BYTES, 'application/wasm') } })
  vm.runInContext('globalThis.self = globalThis; globalThis.window = globalThis; globalThis.global = globalThis', c)
  return c
}
const { instantiateStreaming: _, ...noStreaming } = Wasm
// a context that has seen many modules gets slow
const ENV = { new: [TextEncoder, Wasm], old: [OldEncoder, noStreaming], real: [TextEncoder, WebAssembly] }
const contexts = {}
let loads = 0
async function load(file, kind = 'new') {
  if (loads++ % 100 === 0) for (const k of Object.keys(ENV)) contexts[k] = fresh(...ENV[k])
  const context = contexts[kind]
  const m = new vm.SourceTextModule(SOURCE[file], { context, identifier: FILES[file] + 'glicol_wasm.js', initializeImportMeta: meta => { meta.url = 'http://x.org/src/glicol_wasm.js' } })
  await m.link(s => { throw new Error(`${s} is imported`) })
  await m.evaluate()
  return m.namespace
}
async function started(file, moves = () => false, kind = 'new') {
  renew(moves)
  if (!loaded[file + kind]) {
    made = []
    const g = await load(file, kind)
    g.initSync(BYTES)
    loaded[file + kind] = { g, imports: made[0][1] }
    // every case finds the module as it is after some use
    renew(() => false)
    g.send_msg('日')
    g.add_sample('a', new Float32Array(1), 1, 1)
    g.update(bytes('a'))
    g.process(1)
    renew(moves)
  }
  return loaded[file + kind].g
}

// ---- calls ----------------------------------------------------------------------------
const CALLS = {
  'process 256': { f: g => g.process(256), log: () => ['process', 256], back: n => [...Array(256)].map((_, i) => n * 1000 + i) },
  'process 0': { f: g => g.process(0), log: () => ['process', 0], back: () => [] },
  'update o': { f: g => g.update(bytes('o: sin 1')), log: () => ['update', [...bytes('o: sin 1')].join(' ')], back: () => [8, ...bytes('o: sin 1')] },
  'update nothing': { f: g => g.update(new Uint8Array(0)), log: () => ['update', ''], back: () => [0] },
  'update trap': { f: g => g.update(bytes('?')), log: () => ['update', '63'], throws: 'unreachable' },
  'sample mono': { f: g => g.add_sample('\\a', new Float32Array([0.5, -1, 0.25]), 1, 22050), log: () => ['sample', '\\a', '0.5 -1 0.25', 1, 22050] },
  'sample odd': { f: g => g.add_sample('\\aé日', new Float32Array([1, 2]), 2, 48000), log: () => ['sample', '\\aé日', '1 2', 2, 48000] },
  'sample empty': { f: g => g.add_sample('', new Float32Array(0), 1, 44100), log: () => ['sample', '', '', 1, 44100] },
  'msg': { f: g => g.send_msg('o,0,0,1;'), log: () => ['msg', 'o,0,0,1;'] },
  'msg odd': { f: g => g.send_msg('日o𝄞'), log: () => ['msg', '日o𝄞'] },
  'live': { f: g => g.live_coding_mode(true), log: () => ['live', 1] },
  'not live': { f: g => g.live_coding_mode(false), log: () => ['live', 0] },
  'bpm': { f: g => g.set_bpm(90.5), log: () => ['bpm', 90.5] },
  'amp': { f: g => g.set_track_amp(0.25), log: () => ['amp', 0.25] },
  'sr': { f: g => g.set_sr(96000), log: () => ['sr', 96000] },
  'seed': { f: g => g.set_seed(7), log: () => ['seed', 7] },
  'reset': { f: g => g.reset(), log: () => ['reset'] },
}
const same = (a, b) => a.length === b.length && a.every((x, i) => x === b[i])
async function play(file, word, moves, kind) {
  const g = await started(file, moves, kind)
  const want = [], kept = []
  let blocks = 0
  for (const name of word) {
    const c = CALLS[name]
    let got, thrown = null
    try {
      got = c.f(g)
    } catch (e) {
      thrown = e
    }
    if (name.startsWith('process')) blocks++
    want.push(c.log())
    state(JSON.stringify([machine.log.slice(-2), machine.memory.buffer.byteLength, machine.next]))
    if (c.throws ? !String(thrown?.message).includes(c.throws) : thrown) return `${name} throws ${thrown}`
    const idle = machine.idle()
    if (idle) return `after ${name}: ${idle}`
    if (c.back) kept.push([name, got, c.back(blocks)])
    else if (!c.throws && got !== undefined) return `${name} answers ${got}`
    // what was handed out belongs to the caller
    for (const [n, r, w] of kept) if (!same([...r], w)) return `${n} answered ${[...r].slice(0, 12)} after ${name} instead of ${w.slice(0, 12)}`
    for (const [n, r] of kept) if (r.buffer === machine.memory.buffer) return `${n} answers a part of the engine's memory`
  }
  if (JSON.stringify(machine.log) !== JSON.stringify(want)) return `the engine was told ${JSON.stringify(machine.log).slice(0, 300)} instead of ${JSON.stringify(want).slice(0, 300)}`
  outcome(JSON.stringify(want) + machine.calls)
  return null
}
const ALL = Object.keys(CALLS)
for (const file of Object.keys(FILES)) for (const kind of ['new', 'old']) {
  const max = file === 'page' && kind === 'new' ? 3 : 2
  for (const w of words(ALL, thorough ? max + (max > 2 ? 0 : 1) : max)) {
    await run(`${file} ${kind}: ${w.join(', ')}`, () => play(file, w, () => false, kind))
    if (w.length === 3 && !thorough) continue
    await run(`${file} ${kind}: ${w.join(', ')}; memory always moves`, () => play(file, w, () => true, kind))
    if (w.length < 3) for (let n = 0; n < 10 * w.length; n++) await run(`${file} ${kind}: ${w.join(', ')}; memory moves at call ${n}`, () => play(file, w, k => k === n, kind))
  }
}

// ---- every short text -------------------------------------------------------------------
const LETTERS = ['a', '~', '\x7f', '\x80', 'é', '߿', '日', '𝄞', '\0']
function* texts() {
  yield ''
  for (const w of words(LETTERS, 3)) yield w.join('')
  for (const n of [126, 127, 128, 129, 255, 256, 257, 4096, 70000]) for (const l of ['a', 'é', '日', '𝄞']) {
    yield l.repeat(n)
    yield 'a'.repeat(n) + l
    yield l + 'a'.repeat(n)
  }
}
const short = t => (t.length > 12 ? `${t.length} letters ${JSON.stringify(t.slice(0, 2))}…${JSON.stringify(t.slice(-2))}` : JSON.stringify(t))
for (const file of Object.keys(FILES)) for (const kind of ['new', 'old']) for (const t of texts()) for (const moving of t.length <= 3 || t.length > 4000 ? [false, true] : [false]) {
  await run(`${file} ${kind}: text ${short(t)}${moving ? ', memory moves' : ''}`, async () => {
    const g = await started(file, () => moving, kind)
    g.send_msg(t)
    g.add_sample(t, new Float32Array([t.length]), 1, 2)
    const back = g.update(bytes(t.startsWith('?') ? '' : t))
    const idle = machine.idle()
    if (idle) return idle
    outcome(t)
    const [a, b] = machine.log
    if (a[1] !== t) return `the message arrives as ${short(String(a[1]))}`
    if (b[1] !== t) return `the name arrives as ${short(String(b[1]))}`
    if (!same([...back].slice(1), [...bytes(t)])) return 'the answer to the update is cut or changed'
  })
}
// samples of every length
for (const file of Object.keys(FILES)) for (const n of [...Array(34).keys(), 127, 128, 1000, 20000, 40000]) for (const moving of [false, true]) {
  await run(`${file}: sample of ${n}${moving ? ', memory moves' : ''}`, async () => {
    const g = await started(file, () => moving)
    g.add_sample('\\s', new Float32Array(n).map((_, i) => i - 3), 1 + n % 2, 8000 + n)
    const want = ['sample', '\\s', [...Array(n).keys()].map(i => i - 3).join(' '), 1 + n % 2, 8000 + n]
    if (JSON.stringify(machine.log) !== JSON.stringify([want])) return `the engine was told ${JSON.stringify(machine.log).slice(0, 200)}`
    const back = g.process(n)
    if (!same([...back], [...Array(n).keys()].map(i => 1000 + i))) return `a block of ${n} arrives as ${[...back].slice(0, 8)}`
    return machine.idle()
  })
}

// ---- starting ----------------------------------------------------------------------------
const STARTS = {
  'initSync bytes': g => g.initSync(BYTES),
  'initSync module': g => g.initSync(new FakeModule(BYTES)),
  'init bytes': g => g.default(BYTES),
  'init module': g => g.default(new FakeModule(BYTES)),
  'init promise': g => g.default(Promise.resolve(BYTES)),
  'init response': g => g.default(new FakeResponse(BYTES, 'application/wasm')),
  'init untyped response': g => g.default(new FakeResponse(BYTES, 'text/plain')),
  'init url': g => g.default(new URL('http://x.org/e.wasm')),
  'init text': g => g.default('http://x.org/e.wasm'),
  'init nothing': g => g.default(),
}
for (const file of Object.keys(FILES)) for (const kind of ['new', 'old']) for (const w of words(Object.keys(STARTS), 2)) {
  await run(`${file} ${kind}: ${w.join(', ')}`, async () => {
    renew(() => false)
    made = []
    fetched.length = 0
    const g = await load(file, kind)
    for (const s of w) {
      const r = await STARTS[s](g)
      step()
      if (r !== EXPORTS) return `${s} does not answer with the engine`
      if (made.length !== 1) return `${made.length} engines after ${w}`
      const [m] = made[0]
      if (!(m instanceof FakeModule) || m.bytes !== BYTES) return `${s} starts something else`
    }
    const url = { 'init url': 'http://x.org/e.wasm', 'init text': 'http://x.org/e.wasm', 'init nothing': 'http://x.org/src/glicol_wasm_bg.wasm' }[w[0]]
    if (fetched.join() !== (url ?? '')) return `fetches ${fetched} instead of ${url}`
    const back = [...g.process(2), ...g.update(bytes('x'))].join()
    if (back !== '1000,1001,1,120') return `the first answers are ${back}`
    g.add_sample('é', new Float32Array([2]), 1, 5)
    g.send_msg('日')
    g.set_bpm(100)
    if (JSON.stringify(machine.log) !== '[["process",2],["update","120"],["sample","é","2",1,5],["msg","日"],["bpm",100]]') return `the engine was told ${JSON.stringify(machine.log)}`
    outcome(w.join())
    return machine.idle()
  })
}

// ---- what the engine may ask of JavaScript ---------------------------------------------------
// Words over making, copying and dropping things.  A thing is known by its
// number; what it is, is asked for with its description.
const THINGS = ['text x', 'text é', 'global', 'copy 0', 'copy 1', 'drop 0', 'drop 1', 'function', 'run 0', 'get', 'fixed', 'many']
async function things(file, word) {
  if (word.length < 4) loaded = {}
  await started(file)
  const { wbg } = loaded[file + 'new'].imports
  const f = p => { const k = Object.keys(wbg).find(k => k.replace(/_[0-9a-f]{16}$/, '') === p); return k && wbg[k] }
  const need = ['__wbindgen_object_drop_ref', '__wbindgen_string_new', '__wbindgen_object_clone_ref', '__wbindgen_debug_string', '__wbg_newnoargs', '__wbg_call', '__wbg_globalThis', '__wbg_get', '__wbindgen_is_undefined']
  if (need.some(n => !f(n))) return null
  const put = s => { const b = bytes(s), p = machine.get(b.length, 1); new Uint8Array(machine.memory.buffer).set(b, p); return [p, b.length] }
  const make = s => { const [p, n] = put(s), h = f('__wbindgen_string_new')(p, n); machine.give(p, n, 1); return h }
  const what = h => {
    const ret = machine.sp -= 16
    f('__wbindgen_debug_string')(ret, h)
    const [p, n] = new Int32Array(machine.memory.buffer).slice(ret / 4, ret / 4 + 2)
    machine.sp += 16
    return machine.text(p, n)
  }
  const held = []
  const hold = (h, w) => { held.push([h, w]) }
  for (const op of word) {
    step()
    const i = +op.slice(-1), x = held[i]
    if (/[01]$/.test(op) && !x) break
    if (op.startsWith('text')) hold(make(op.slice(5)), `"${op.slice(5)}"`)
    else if (op === 'global') hold(f('__wbg_globalThis')(), null)
    else if (op === 'function') {
      const [p, n] = put('return 40 + 2')
      hold(f('__wbg_newnoargs')(p, n), 'Function(anonymous)')
      machine.give(p, n, 1)
    } else if (op.startsWith('copy')) hold(f('__wbindgen_object_clone_ref')(x[0]), x[1])
    else if (op.startsWith('drop')) {
      f('__wbindgen_object_drop_ref')(x[0])
      held.splice(i, 1)
    } else if (op.startsWith('run')) {
      const before = machine.log.length, h = f('__wbg_call')(x[0], 128)
      if (x[1]?.startsWith('Function')) hold(h, x[1] === 'Function(isNaN)' ? 'true' : '42')
      else if (machine.log.length !== before + 1 || machine.log[before][0] !== 'thrown') return 'an error does not reach the engine'
      else {
        const e = machine.log[before][1]
        if (!what(e).startsWith('TypeError')) return `the error is ${what(e).slice(0, 40)}`
        hold(e, null)
      }
    } else if (op === 'fixed') for (const h of [128, 129, 130, 131]) f('__wbindgen_object_drop_ref')(h)
    else if (op === 'many') {
      let top = 0
      for (let n = 0; n < 200; n++) {
        const few = [make('y'), make('y'), make('y')]
        top = Math.max(top, ...few)
        for (const h of few) f('__wbindgen_object_drop_ref')(h)
      }
      if (top > 400) return `three things at a time, and yet a number is ${top}`
    } else if (op === 'get') {
      const g = f('__wbg_globalThis')(), k = make('isNaN'), h = f('__wbg_get')(g, k)
      f('__wbindgen_object_drop_ref')(g)
      f('__wbindgen_object_drop_ref')(k)
      hold(h, 'Function(isNaN)')
    }
    if (new Set(held.map(h => h[0])).size !== held.length) return `two things have the same number: ${held.map(h => h[0])}`
    for (const [h, w] of held) {
      if (w !== null && what(h) !== w) return `thing ${h} is ${what(h)} instead of ${w}`
      if (f('__wbindgen_is_undefined')(h)) return `thing ${h} is nothing`
    }
    for (const [h, w] of [[128, 'undefined'], [129, 'null'], [130, 'true'], [131, 'false']]) if (what(h) !== w) return `the number of ${w} stands for ${what(h)}`
    state(`${word.length} ${held.map(h => h.join('=')).join()}`)
  }
  for (const [h] of held) f('__wbindgen_object_drop_ref')(h)
  outcome(word.join())
  return machine.idle()
}
for (const file of Object.keys(FILES)) for (const w of words(THINGS, file === 'page' || thorough ? 4 : 3)) if (w.length < 3 || !w.includes('many')) await run(`${file}: things ${w.join(', ')}`, () => things(file, w))

// ---- the compiled engine that comes with the page ------------------------------------------------
// binds the stand-in: the same calls on the engine in the repository
for (const [file, dir] of Object.entries(FILES)) {
  if (!fs.existsSync(dir + 'glicol_wasm_bg.wasm')) continue
  const module = new WebAssembly.Module(fs.readFileSync(dir + 'glicol_wasm_bg.wasm'))
  const OPS = {
    half: [g => [...g.update(bytes('o: sig 0.5')).slice(0, 2)].join(), s => { s.level = 0.5; return '0,0' }],
    quarter: [g => [...g.update(bytes('o: sig 0.25')).slice(0, 2)].join(), s => { s.level = 0.25; return '0,0' }],
    wrong: [g => g.update(bytes('o: '))[0] !== 0, () => true],
    block: [g => [...new Set(g.process(256))].join() + g.process(256).length, s => `${s.level}256`],
    sample: [g => g.add_sample('\\é', new Float32Array([0.1, 0.2]), 1, 44100), () => undefined],
  }
  for (const w of words(['half', 'quarter', 'wrong', 'block', 'sample'], thorough ? 4 : 3)) await run(`${file}: compiled ${w.join(', ')}`, async () => {
    const g = await load(file, 'real')
    g.initSync(module)
    const s = { level: 0 }
    for (const op of w) {
      step()
      const got = OPS[op][0](g), want = OPS[op][1](s)
      if (got !== want) return `${op} answers ${got} instead of ${want}`
    }
    outcome(`compiled ${w.join()}`)
  })
}
report('C46', 'all words of up to 3 calls over an alphabet of 17, for each the memory staying, always moving or moving at one call; all texts of up to 3 letters over 9 of 1 to 4 bytes; samples and blocks of chosen lengths; all pairs of ways to start; words over the things the engine may hold; words on the compiled engine that comes with the page', [
  'the allocator of the stand-in never gives the same place twice',
])
