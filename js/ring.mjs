// C34: the ring buffer under every interleaving of its shared memory accesses.
//
// The real js/npm/ringbuf.js is loaded into a context whose SharedArrayBuffer,
// typed arrays and Atomics are ours.  A shared access of a running thread
// throws once it reaches an access it has not made yet; the thread is later run
// again from its start with the recorded results of its earlier accesses.  So
// the source is run as it is, and can be stopped at every access.
import vm from 'node:vm'
import fs from 'node:fs'
import path from 'node:path'
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads'
import { fileURLToPath } from 'node:url'
import { watch } from './common.mjs'

const SOURCE = '/repo/js/npm/ringbuf.js'
process.on('uncaughtException', e => {
  console.error(e)
  process.exit(3)
})
const argv = process.argv.slice(2)
const opt = (n, d) => (argv.includes(n) ? argv[argv.indexOf(n) + 1] : d)
const tier = opt('--tier', 'quick')
const root = opt('--root', '/verif')
const replayFile = opt('--replay', null)
const replay = replayFile && /^case: (.*)$/m.exec(fs.readFileSync(replayFile, 'utf8'))[1]
const started = process.hrtime.bigint()
const thorough = tier === 'thorough'
const SHARDS = 8
const shard = workerData ?? 0

// ---- the shared memory --------------------------------------------------
let mem = null // loc -> value
const ENDLESS = 2000 // more accesses than any thread here has to make
let cur = null // {log, i} while a thread runs, null outside

class Suspend {
  constructor(kind, loc, atomic, val) {
    this.kind = kind // 'r', 'w' or a read-modify-write function
    this.loc = loc
    this.atomic = atomic
    this.val = val
  }
}
function perform(s) {
  const old = mem[s.loc]
  if (s.kind === 'r') return old
  if (s.kind === 'w') {
    mem[s.loc] = s.val
    return s.val
  }
  mem[s.loc] = s.kind(old)
  return old
}
function access(kind, loc, atomic, val) {
  if (!cur) return perform(new Suspend(kind, loc, atomic, val))
  const i = cur.i++
  if (i < cur.log.length) return cur.log[i]
  if (i >= ENDLESS) throw new Error(`there is no end after ${i} accesses`)
  throw new Suspend(kind, loc, atomic, val)
}

const REAL = { Uint8Array, Uint16Array, Uint32Array, Int32Array, Float32Array }
class FakeShared {
  constructor(n) {
    this.byteLength = n
    if (!cur) mem = new Array(n).fill(0)
  }
}
const INFO = Symbol('info')
function fakeType(name) {
  const Real = REAL[name]
  const bytes = Real.BYTES_PER_ELEMENT
  const conv = v => { const t = new Real(1); t[0] = v; return t[0] }
  const T = {
    [name]: function (buf, off = 0, len = undefined) {
      if (!(buf instanceof FakeShared)) return len === undefined ? new Real(buf) : new Real(buf, off, len)
      const n = len === undefined ? (buf.byteLength - off) / bytes : len
      if (off % bytes || off + n * bytes > buf.byteLength) throw new RangeError('view outside its buffer')
      const loc = i => off + i * bytes
      const at = i => (i < n ? access('r', loc(i), false) : undefined)
      const put = (i, v) => { if (i < n) access('w', loc(i), false, conv(v)) }
      const methods = {
        set(src, o = 0) {
          const m = src.length
          if (o + m > n) throw new RangeError('offset is out of bounds')
          for (let i = 0; i < m; i++) put(o + i, src[i])
        },
        subarray(a = 0, b = n) { return new T[name](buf, loc(a), Math.max(0, Math.min(b, n) - a)) },
        slice(a = 0, b = n) {
          const r = new Real(Math.max(0, Math.min(b, n) - a))
          for (let i = 0; i < r.length; i++) r[i] = at(a + i)
          return r
        },
        fill(v, a = 0, b = n) { for (let i = a; i < Math.min(b, n); i++) put(i, v); return this },
        at(i) { return at(i < 0 ? n + i : i) },
        *[Symbol.iterator]() { for (let i = 0; i < n; i++) yield at(i) },
      }
      const fixed = { length: n, byteLength: n * bytes, byteOffset: off, buffer: buf, BYTES_PER_ELEMENT: bytes, constructor: T[name], [INFO]: { loc, n, conv } }
      return new Proxy({}, {
        get(_, k) {
          if (typeof k === 'string' && /^\d+$/.test(k)) return at(+k)
          if (k in fixed) return fixed[k]
          if (Object.hasOwn(methods, k)) return methods[k]
          if (typeof k === 'string' && !/^-?[\d.]+|NaN|undefined|toString|valueOf|then$/.test(k)) {
            console.error(`the checker does not know the typed array member ${String(k)}`)
            process.exit(3)
          }
          return undefined
        },
        set(_, k, v) {
          if (typeof k === 'string' && /^\d+$/.test(k)) put(+k, v)
          return true
        },
      })
    },
  }
  T[name].BYTES_PER_ELEMENT = bytes
  return T[name]
}
const on = f => (a, i, v) => {
  const inf = a[INFO]
  if (!inf || !(i < inf.n)) throw new RangeError('atomic access outside its view')
  return f(inf.loc(i), v === undefined ? v : inf.conv(v), inf.conv)
}
const FakeAtomics = {
  load: on(l => access('r', l, true)),
  store: on((l, v) => access('w', l, true, v)),
  add: on((l, v, c) => access(o => c(o + v), l, true, v)),
  sub: on((l, v, c) => access(o => c(o - v), l, true, v)),
  exchange: on((l, v) => access(() => v, l, true, v)),
  compareExchange(a, i, e, v) { return on(l => access(o => (o === e ? v : o), l, true, v))(a, i) },
  notify() { return 0 },
}
async function load(globals) {
  const context = vm.createContext({ console, ...globals })
  const seen = new Map()
  const get = (spec, from) => {
    const f = from ? path.resolve(path.dirname(from.identifier), spec) : spec
    if (!seen.has(f)) seen.set(f, new vm.SourceTextModule(fs.readFileSync(f, 'utf8'), { context, identifier: f }))
    return seen.get(f)
  }
  try {
    const m = get(SOURCE)
    await m.link(get)
    await m.evaluate()
    return m.namespace
  } catch (e) {
    // a file that cannot be loaded fails wherever it is used
    const fails = class { constructor() { throw e } static getStorageForCapacity() { throw e } }
    return { RingBuffer: fails, TextParameterWriter: fails, TextParameterReader: fails }
  }
}
const fakes = { Atomics: FakeAtomics, SharedArrayBuffer: FakeShared, ArrayBuffer }
for (const n of Object.keys(REAL)) fakes[n] = fakeType(n)
const fake = await load(fakes)
const real = await load({ Atomics, SharedArrayBuffer, ArrayBuffer, ...REAL })

// ---- bookkeeping --------------------------------------------------------
let cases = 0, transitions = 0, nviol = 0
const states = new Set(), outcomes = new Set(), samples = [], viol = []
function fail(key, detail) {
  nviol++
  if (viol.length < 20) viol.push({ key, detail })
}
function hash(s) {
  let h = 2166136261
  for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 16777619)
  return h >>> 0
}

// ---- one thread ---------------------------------------------------------
const CANARY = 251
// A script is a list like ['push',2], ['avail'], ['full'], ['pop',3], ['empty'].
// `side` is 'w' or 'r'.  Values pushed are given by `first` and count up, also
// over elements that did not fit.
function runThread(side, script, sab, type, first, log) {
  cur = { log, i: 0 }
  const results = []
  let opStart = 0
  const node = { pending: null, results, opStart: 0, crash: null }
  try {
    const ring = new fake.RingBuffer(sab, type)
    const text = side === 'w' ? new fake.TextParameterWriter(ring) : new fake.TextParameterReader(ring)
    let next = first
    for (const [op, n] of script) {
      node.opStart = cur.i
      if (op === 'push' || op === 'enqueue') {
        const a = new Uint8Array(n).map((_, i) => next + i)
        const ret = op === 'push' ? ring.push(a) : text.enqueue(a)
        const kept = a.every((v, i) => v === next + i)
        results.push({ op, n, ret, first: next, kept })
        next += n
      } else if (op === 'pop' || op === 'dequeue') {
        const a = new Uint8Array(n).fill(CANARY)
        const ret = op === 'pop' ? ring.pop(a) : text.dequeue(a)
        results.push({ op, n, ret, got: [...a] })
      } else if (op === 'avail') {
        results.push({ op, ret: side === 'w' ? ring.available_write() : ring.available_read() })
      } else if (op === 'tavail') {
        results.push({ op: 'avail', ret: side === 'w' ? text.available_write() : text.available_read() })
      } else {
        results.push({ op, ret: op === 'full' ? ring.full() : ring.empty() })
      }
    }
  } catch (e) {
    if (e instanceof Suspend) node.pending = e
    else node.crash = String(e && e.stack ? e.stack.split('\n')[0] : e)
  }
  node.used = cur.i
  cur = null
  return node
}
class Thread {
  constructor(...args) {
    this.args = args
    this.ids = 0
    this.root = this.make([])
  }
  make(log) {
    const n = runThread(...this.args, log)
    n.log = log
    n.id = this.ids++
    n.next = new Map()
    return n
  }
  step(node, v) {
    let c = node.next.get(v)
    if (!c) {
      c = this.make([...node.log, v])
      node.next.set(v, c)
    }
    return c
  }
}
// What a thread does depends only on its script and on what its accesses
// return, so threads are shared between cases on equal rings.
const threads = new Map()
function thread(side, script, sab, ...rest) {
  const k = `${side}${sab.byteLength}${show(script)}`
  if (!threads.has(k)) threads.set(k, new Thread(side, script, sab, ...rest))
  return threads.get(k)
}
const moved = rs => rs.reduce((s, r) => s + (r.got || r.first !== undefined ? r.ret : 0), 0)

// What the last finished operation had to return, given how much the other
// side had finished when the operation began.
function judge(side, rs, seen, start, cap) {
  const r = rs[rs.length - 1]
  const before = moved(rs.slice(0, -1))
  const least = side === 'w' ? cap - (start + before - seen) : start + seen - before
  const prev = rs[rs.length - 2]
  if (r.first !== undefined) {
    if (!Number.isInteger(r.ret) || r.ret < 0 || r.ret > r.n) return `pushing ${r.n} returned ${r.ret}`
    if (r.ret < Math.min(r.n, least)) return `pushing ${r.n} took ${r.ret} though ${least} places were free`
    if (!r.kept) return `pushing changed the pushed array`
    if (prev && prev.op === 'avail' && r.ret < Math.min(r.n, prev.ret)) return `${prev.ret} places were promised and pushing ${r.n} took ${r.ret}`
    if (prev && prev.op === 'full' && !prev.ret && r.n > 0 && r.ret < 1) return `not full, and pushing took nothing`
  } else if (r.got) {
    if (!Number.isInteger(r.ret) || r.ret < 0 || r.ret > r.n) return `popping ${r.n} returned ${r.ret}`
    if (r.ret < Math.min(r.n, least)) return `popping ${r.n} gave ${r.ret} though ${least} were there`
    if (r.got.slice(r.ret).some(v => v !== CANARY)) return `popping ${r.n} returned ${r.ret} and wrote beyond: ${r.got}`
    if (prev && prev.op === 'avail' && r.ret < Math.min(r.n, prev.ret)) return `${prev.ret} elements were promised and popping ${r.n} gave ${r.ret}`
    if (prev && prev.op === 'empty' && !prev.ret && r.n > 0 && r.ret < 1) return `not empty, and popping gave nothing`
  } else if (r.op === 'avail') {
    if (!Number.isInteger(r.ret) || r.ret < 0 || r.ret > cap) return `the ${side === 'w' ? 'free' : 'readable'} count is ${r.ret} with a capacity of ${cap}`
    if (r.ret < least) return `the ${side === 'w' ? 'free' : 'readable'} count is ${r.ret} though it is at least ${least}`
  } else if (r.op === 'full' || r.op === 'empty') {
    if (r.ret && least > 0) return `${r.op}() says yes though at least ${least} ${side === 'w' ? 'are free' : 'are there'}`
  }
  return null
}

function explore(key, cap, pos, fill, wscript, rscript) {
  cases++
  if (cases % 4001 === 1 && samples.length < 6) samples.push(key)
  const type = fakes.Uint8Array
  cur = null
  const sab = fake.RingBuffer.getStorageForCapacity(cap, type)
  const ring = new fake.RingBuffer(sab, type)
  for (let i = 0; i < pos; i++) {
    if (ring.push(new Uint8Array([200])) !== 1 || ring.pop(new Uint8Array(1)) !== 1) return fail(key, 'one element does not pass through an empty ring')
  }
  const pre = Array.from({ length: fill }, (_, i) => 100 + i)
  if (fill && ring.push(new Uint8Array(pre)) !== fill) return fail(key, `${fill} elements do not fit a ring of ${cap}`)
  const init = mem.slice()
  const W = thread('w', wscript, sab, type, 1)
  const R = thread('r', rscript, sab, type, 0)
  const seen = new Set()
  const stack = [[W.root, R.root, init, 0, 0, '']]
  while (stack.length) {
    const [w, r, m, sw, sr, trace] = stack.pop()
    const k = `${w.id},${r.id},${sw},${sr},${String.fromCharCode(...m)}`
    if (seen.has(k)) continue
    seen.add(k)
    states.add(hash(`${cap},${w.log},${r.log},${m}`))
    const bad = detail => fail(key, `${detail} (schedule ${trace || '-'})`)
    for (const [n, s] of [[w, 'writer'], [r, 'reader']]) if (n.crash) return bad(`the ${s} throws ${n.crash}`)
    if (w.pending && r.pending && w.pending.loc === r.pending.loc && !(w.pending.kind === 'r' && r.pending.kind === 'r') && !(w.pending.atomic && r.pending.atomic)) {
      return bad(`both sides reach byte ${w.pending.loc} of the shared memory at the same time, without atomics`)
    }
    if (!w.pending && !r.pending) {
      const accepted = [...pre]
      for (const x of w.results) if (x.first !== undefined) for (let i = 0; i < x.ret; i++) accepted.push(x.first + i)
      const got = r.results.filter(x => x.got).flatMap(x => x.got.slice(0, x.ret))
      mem = m.slice()
      const rest = new Uint8Array(cap + 3).fill(CANARY)
      const left = new fake.RingBuffer(sab, type).pop(rest)
      const all = [...got, ...rest.slice(0, left)]
      if (all.length !== accepted.length || all.some((v, i) => v !== accepted[i])) return bad(`written ${accepted}, read ${got} and left ${[...rest.slice(0, left)]}`)
      outcomes.add(hash(`${cap},${got},${accepted}`))
      continue
    }
    for (const side of ['w', 'r']) {
      const n = side === 'w' ? w : r
      if (!n.pending) continue
      transitions++
      mem = m.slice()
      const nsw = side === 'w' && n.opStart === n.log.length ? moved(r.results) : sw
      const nsr = side === 'r' && n.opStart === n.log.length ? moved(w.results) : sr
      const v = perform(n.pending)
      const c = (side === 'w' ? W : R).step(n, v)
      for (let i = n.results.length; i < c.results.length; i++) {
        const e = judge(side, c.results.slice(0, i + 1), side === 'w' ? nsw : nsr, fill, cap)
        if (e) return fail(key, `${e} (schedule ${trace}${side})`)
      }
      stack.push(side === 'w' ? [c, r, mem, nsw, nsr, trace + 'w'] : [w, c, mem, nsw, nsr, trace + 'r'])
    }
  }
}

// ---- sequential words on native memory ----------------------------------
function native(key, cap, Type, pos, word) {
  cases++
  const ring = new real.RingBuffer(real.RingBuffer.getStorageForCapacity(cap, Type), Type)
  for (let i = 0; i < pos; i++) {
    ring.push(new Type([9]))
    ring.pop(new Type(1))
  }
  const queue = []
  let next = 1
  for (const [op, n] of word) {
    transitions++
    if (op === 'push') {
      const a = new Type(n).map((_, i) => next + i)
      const want = Math.min(n, cap - queue.length)
      const ret = ring.push(a)
      if (ret !== want) return fail(key, `pushing ${n} into ${queue.length} of ${cap} took ${ret}`)
      for (let i = 0; i < ret; i++) queue.push(next + i)
      next += n
    } else {
      const a = new Type(n).fill(CANARY)
      const want = queue.splice(0, Math.min(n, queue.length))
      const ret = ring.pop(a)
      const exp = [...want, ...Array(n - want.length).fill(CANARY)]
      if (ret !== want.length || exp.some((v, i) => v !== a[i])) return fail(key, `popping ${n} gave ${ret}: ${[...a]}, expected ${want}`)
    }
    const q = [ring.available_read(), ring.available_write(), ring.empty(), ring.full()]
    const e = [queue.length, cap - queue.length, queue.length === 0, queue.length === cap]
    if (e.some((v, i) => v !== q[i])) return fail(key, `with ${queue.length} of ${cap} the counts are ${q}, expected ${e}`)
    states.add(hash(`n${cap},${pos},${queue.length},${op}`))
  }
  outcomes.add(hash(`n${cap},${queue}`))
}

function words(alphabet, max, min = 1) {
  let all = [], layer = [[]]
  for (let l = 1; l <= max; l++) {
    layer = layer.flatMap(w => alphabet.map(a => [...w, a]))
    if (l >= min) all = all.concat(layer)
  }
  return all
}
const show = s => s.map(x => x.join('')).join(' ')
let turn = 0
const beat = isMainThread && !replay ? () => {} : watch('C34')
const visit = (key, f) => {
  if (!(replay ? key === replay : turn++ % SHARDS === shard && nviol < 20)) return
  beat(key)
  try {
    f()
  } catch (e) {
    fail(key, `throws ${e && e.stack ? e.stack.split('\n')[0] : e}`)
  }
  beat(null)
}

const plans = thorough
  ? [[1, 3, true], [2, 3, true], [3, 3, false], [4, 2, true], [5, 2, false]]
  : [[1, 2, true], [1, 3, false], [2, 2, true], [2, 3, false], [3, 2, false]]
function work() {
  for (const [cap, len, queries] of plans) {
    const push = [], pop = []
    for (let n = queries ? 0 : 1; n <= cap + 1; n++) {
      push.push([n === 1 ? 'enqueue' : 'push', n])
      pop.push([n === 1 || n === cap + 1 ? 'dequeue' : 'pop', n])
    }
    if (queries) {
      push.push(['avail'], ['full'])
      pop.push(['avail'], ['empty'], ['pop', cap + 1])
      if (cap < 3) push.push(['tavail']), pop.push(['tavail'])
    }
    const ws = words(push, len, len), rs = words(pop, len, len)
    for (let pos = 0; pos <= cap; pos++) {
      for (let fill = 0; fill <= cap; fill++) {
        if (len === 3 && !thorough && cap > 1 && (pos !== cap || fill === 1)) continue
        for (const w of ws) for (const r of rs) {
          const key = `capacity ${cap} at ${pos} with ${fill}: ${show(w)} | ${show(r)}`
          visit(key, () => explore(key, cap, pos, fill, w, r))
        }
      }
    }
  }
  for (const [name, Type] of Object.entries({ Uint8Array, Uint16Array, Float32Array })) {
    for (let cap = 1; cap <= (thorough ? 7 : 5); cap++) {
      const ops = []
      for (let n = 0; n <= cap + 2; n++) ops.push(['push', n], ['pop', n])
      for (let pos = 0; pos <= cap; pos++) {
        for (const w of words(ops, thorough && cap < 5 ? 4 : 3, 1)) {
          const key = `native ${name} ${cap} at ${pos}: ${show(w)}`
          visit(key, () => native(key, cap, Type, pos, w))
        }
      }
    }
  }
}
if (!isMainThread || replay) work()
if (!isMainThread) {
  parentPort.postMessage({ cases, transitions, nviol, states, outcomes, samples, viol })
} else {
  if (!replay) {
    const parts = await Promise.all(
      Array.from({ length: SHARDS }, (_, i) => new Promise((ok, no) => {
        const w = new Worker(fileURLToPath(import.meta.url), { argv, workerData: i })
        w.once('message', ok)
        w.once('error', no)
        w.once('exit', c => c && no(new Error(`a worker ended with ${c}`)))
      })),
    )
    for (const p of parts) {
      cases += p.cases
      transitions += p.transitions
      nviol += p.nviol
      for (const x of p.states) states.add(x)
      for (const x of p.outcomes) outcomes.add(x)
      samples.push(...p.samples.slice(0, 1))
      viol.push(...p.viol)
    }
    viol.splice(20)
  }
  report()
}

// ---- report -------------------------------------------------------------
function report() {
  const wall = Number(process.hrtime.bigint() - started) / 1e9
  const rule = `for rings of ${plans.map(p => `${p[0]} elements (${p[1]} operations a side${p[2] ? ', with counts' : ''})`).join(', ')}: every pair of writer and reader scripts over all chunk sizes up to one more than the capacity, from every position and fill (with three operations on rings of two, the last position), under every interleaving of shared accesses; then every word of operations on native memory for three element types. States are the distinct combinations of both sides' progress and the memory`
  const evidence = {
    property: 'C34', tier, seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking',
    coverage: { states: states.size, transitions, traces_validated_against_impl: cases, distinct_outcomes: outcomes.size, rule, samples, exhaustive: nviol === 0 && !replay },
    assumptions: ['accesses to shared memory are sequentially consistent; two accesses to one place of which one is a write and one is not atomic count as a failure', 'one writer and one reader'],
    wall_s: Math.round(wall * 1000) / 1000, violations: nviol,
  }
  const dir = path.join(root, 'evidence')
  fs.mkdirSync(path.join(dir, 'replay'), { recursive: true })
  if (!replay) fs.writeFileSync(path.join(dir, 'C34.json'), JSON.stringify(evidence, null, 1) + '\n')
  console.log(`C34 ${tier}: ${cases} cases, ${transitions} steps, ${states.size} states, ${outcomes.size} distinct outcomes, ${wall.toFixed(1)} s`)
  if (replay && cases === 0) {
    console.error("the recorded case is not part of this check's space")
    process.exit(2)
  }
  viol.forEach((v, i) => {
    const f = path.join(dir, 'replay', `C34-${i + 1}.txt`)
    if (!replay) fs.writeFileSync(f, `property: C34\ncase: ${v.key}\ndetail: ${v.detail}\n`)
    if (i < 5) console.log(`VIOLATION property=C34 replay=${replay ? '-' : f}\n  case: ${v.key}\n  ${v.detail}`)
  })
  process.exit(nviol ? 1 : 0)
}
