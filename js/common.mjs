// What the JavaScript drivers share: arguments, bookkeeping, report.
import fs from 'node:fs'
import path from 'node:path'
import { spawnSync } from 'node:child_process'
import { Worker } from 'node:worker_threads'

// what the code under test throws outside of any call belongs to the case that
// runs; before the first case it is the loading that fails
let running = null, stray = null, property = null
const onStray = e => {
  if (running === null && property === null) {
    console.error(e)
    process.exit(3)
  }
  stray ??= e
  if (running === null) {
    fail('loading', describe(e))
    report(property, 'stopped while loading', [])
  }
}
process.on('uncaughtException', onStray)
process.on('unhandledRejection', onStray)
const describe = e => `throws ${e && e.stack ? e.stack.split('\n').slice(0, 2).join(' ') : e}`
// Names the property; from here on whatever is thrown is its failure.
export const begin = id => {
  property = id
  beat = watch(id)
}
const argv = process.argv.slice(2)
const opt = (n, d) => (argv.includes(n) ? argv[argv.indexOf(n) + 1] : d)
export const tier = opt('--tier', 'quick')
export const thorough = tier === 'thorough'
export const root = opt('--root', '/verif')
const replayFile = opt('--replay', null)
const replay = replayFile && /^case: (.*)$/m.exec(fs.readFileSync(replayFile, 'utf8'))[1]
const started = process.hrtime.bigint()

// A case that does not come to an end: a second thread sees that the number of
// the case stands still, reports it and ends the process (`check` knows).
export function watch(id) {
  const LIMIT = thorough ? 300 : 60
  const head = new Int32Array(new SharedArrayBuffer(8)), text = new Uint8Array(new SharedArrayBuffer(4096))
  const job = `
    const { workerData: { head, text, id, dir, limit, replay, tier } } = require('node:worker_threads')
    const fs = require('node:fs'), path = require('node:path')
    const never = new Int32Array(new SharedArrayBuffer(4))
    let last = 0, still = 0
    for (;;) {
      Atomics.wait(never, 0, 0, 1000)
      const n = Atomics.load(head, 0)
      still = n === last && head[1] > 0 ? still + 1 : 0
      last = n
      if (still < limit) continue
      const key = new TextDecoder().decode(text.slice(0, head[1]))
      fs.mkdirSync(path.join(dir, 'replay'), { recursive: true })
      const f = path.join(dir, 'replay', id + '-hang.txt')
      fs.writeFileSync(f, 'property: ' + id + '\\ncase: ' + key + '\\ndetail: the case does not come to an end\\n')
      if (!replay) fs.writeFileSync(path.join(dir, id + '.json'), JSON.stringify({
        property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking',
        coverage: { states: 1, transitions: 1, traces_validated_against_impl: n, distinct_outcomes: 1, rule: 'stopped in a case that does not end', samples: [key], exhaustive: false },
        assumptions: [], wall_s: limit, violations: 1 }) + '\\n')
      fs.writeSync(1, 'VIOLATION property=' + id + ' replay=' + (replay ? '-' : f) + '\\n  case: ' + key + '\\n  the case does not come to an end\\n')
      process.kill(process.pid, 'SIGKILL')
    }`
  const w = new Worker(job, { eval: true, workerData: { head, text, id, dir: path.join(root, 'evidence'), limit: LIMIT, tier, replay: replay !== null } })
  w.unref()
  const enc = new TextEncoder()
  return key => {
    head[1] = key === null ? 0 : Math.max(1, enc.encodeInto(key, text).written)
    Atomics.add(head, 0, 1)
  }
}
let beat = () => {}

let cases = 0, transitions = 0, nviol = 0
const states = new Set(), outcomes = new Set(), samples = [], viol = [], kinds = new Set()
function hash(s) {
  let a = 2166136261, b = 5381
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i)
    a = Math.imul(a ^ c, 16777619)
    b = Math.imul(b, 33) ^ c
  }
  return (a >>> 0) * 1048576 + ((b >>> 0) & 0xfffff)
}
export const replaying = replay && (key => key.replace(/[\r\n]/g, '\\n') === replay)
// what one worker found, and taking it over
export const tally = () => ({ cases, transitions, nviol, states, outcomes, samples, viol })
export function absorb(p) {
  cases += p.cases
  transitions += p.transitions
  nviol += p.nviol
  for (const x of p.states) states.add(x)
  for (const x of p.outcomes) outcomes.add(x)
  samples.push(...p.samples.slice(0, 1))
  viol.push(...p.viol)
  viol.splice(20)
}
export const step = (n = 1) => { transitions += n }
export const state = s => states.add(hash(s))
export const outcome = s => outcomes.add(hash(s))

// Runs one case.  `f` answers with what failed, or with nothing.
export async function visit(key, f) {
  key = key.replace(/[\r\n]/g, '\\n')
  if (replay !== null && key !== replay) return
  if (nviol >= 40) return
  cases++
  if (cases % 997 === 1 && samples.length < 8) samples.push(key)
  let detail
  running = key
  beat(key)
  stray = null
  try {
    detail = await f()
  } catch (e) {
    detail = describe(e)
  }
  detail ||= stray && describe(stray)
  running = null
  beat(null)
  if (!detail) return
  fail(key, detail)
}
function fail(key, detail) {
  nviol++
  if (process.env.MC_DISTINCT) {
    const k = String(detail).replace(/[\d.]+/g, '0').slice(0, 60)
    if (!kinds.has(k)) console.log(`${key}\n    ${detail}`)
    kinds.add(k)
    nviol = 1
    return
  }
  if (viol.length < 20) viol.push({ key, detail: String(detail).replace(/\s*\n\s*/g, ' ') })
}

// The answers the browser crate gives to each text on a new engine.
export function answers(texts) {
  const r = spawnSync(path.join(root, 'target', 'release', 'wasmhost'), ['pack'], { input: texts.join('\x1e'), encoding: 'utf8', maxBuffer: 1 << 28 })
  if (r.status !== 0) {
    console.error(r.stderr)
    process.exit(3)
  }
  const rows = r.stdout.split('\n').filter(Boolean)
  if (rows.length !== texts.length) {
    console.error('the browser crate did not answer every text')
    process.exit(3)
  }
  return new Map(texts.map((t, i) => [t, Uint8Array.from(Buffer.from(rows[i], 'hex'))]))
}

export function* words(alphabet, max, min = 1) {
  const w = []
  function* go(n) {
    if (n === 0) yield w.slice()
    else for (const a of alphabet) {
      w.push(a)
      yield* go(n - 1)
      w.pop()
    }
  }
  for (let l = min; l <= max; l++) yield* go(l)
}

// What any page finds besides what the drivers put there.
export const browser = { structuredClone, queueMicrotask, performance, clearTimeout() {}, clearInterval() {}, setInterval() { return 0 }, URLSearchParams, atob, btoa, AbortController, Event, EventTarget }
// One end of a message channel; `other` and `queue` are the driver's.
export class Port {
  constructor() { this.onmessage = null; this.queue = [] }
  postMessage(m) { this.other.queue.push(structuredClone(m)) }
  addEventListener(kind, f) { if (kind === 'message') this.onmessage = f }
  removeEventListener(kind) { if (kind === 'message') this.onmessage = null }
  start() {}
  close() {}
}
// An answer to a request, from what of it matters.
export const answered = parts => ({ ok: true, status: 200, statusText: 'OK', ...parts })
// A new input element that can be told what was picked.
export const input = clicked => {
  const i = { click: () => clicked(i), setAttribute(k, v) { i[k] = k === 'multiple' || k === 'webkitdirectory' ? true : v }, addEventListener(kind, f) { if (kind === 'change') i.onchange = f } }
  return i
}
// Reads picked files; `decode` gives what is in one.
export const reader = decode => class {
  addEventListener(kind, f) { if (kind === 'load') this.onload = f }
  readAsArrayBuffer(f) {
    this.result = { decoded: decode(f) }
    this.onload({ target: this })
  }
}
export const decodes = data => (ok => { ok?.(data.decoded); return Promise.resolve(data.decoded) })

// What a page has to show for a refused text: the line, the marked column and
// the rules that were named.  `shown` are the texts that were written.
export function display(shown, answer, code) {
  const text = new TextDecoder().decode(answer.slice(2)).replace(/\0+$/, '')
  const plain = shown.join('\n')
  if (answer[0] !== 1) return plain.includes(text) ? null : `"${text}" is not shown; shown is ${JSON.stringify(shown)}`
  const m = /^pos\[(\d+)\], line\[(\d+)\], col\[(\d+)\], positives\[/.exec(text)
  const line = +m[2], col = +m[3]
  if (!new RegExp(`\\bline ${line}\\b`).test(plain)) return `line ${line} is not named; shown is ${JSON.stringify(shown)}`
  const src = code.split('\n')[line - 1]
  const marked = src.slice(0, col - 1) + '%c %c' + src.slice(col - 1)
  if (!shown.includes(marked)) return `column ${col} of ${JSON.stringify(src)} is not marked; shown is ${JSON.stringify(shown)}`
  const caret = shown.find(s => s.includes('^'))
  if (!caret || caret.replaceAll('%c', '').indexOf('^') !== col - 1) return `no caret under column ${col}; shown is ${JSON.stringify(shown)}`
  const [pos, neg] = text.slice(m[0].length).split('negatives[')
  const whole = s => (s === undefined ? [] : s.includes(']') ? s.split(']')[0].split(', ') : s.split(', ').slice(0, -1)).filter(Boolean)
  for (const [names, label] of [[whole(pos), 'expecting'], [whole(neg), 'unexpected']]) {
    for (const n of names) if (!caret.includes(n === 'EOI' ? 'END OF INPUT' : n)) return `${n} is not shown; shown is ${JSON.stringify(caret)}`
    if (names.length && !caret.includes(label)) return `"${label}" is not shown; shown is ${JSON.stringify(caret)}`
    const list = label === 'expecting' ? pos : neg
    if (list?.startsWith(']') && caret.includes(label)) return `"${label}" is shown with nothing to follow: ${JSON.stringify(caret)}`
  }
  return null
}

export function report(property, rule, assumptions) {
  const wall = Number(process.hrtime.bigint() - started) / 1e9
  const evidence = {
    property, tier, seed: Number(process.env.VERIF_SEED || 1), level: 'model_checking',
    coverage: { states: states.size, transitions, traces_validated_against_impl: cases, distinct_outcomes: outcomes.size, rule, samples, exhaustive: nviol === 0 && !replay },
    assumptions, wall_s: Math.round(wall * 1000) / 1000, violations: nviol,
  }
  const dir = path.join(root, 'evidence')
  fs.mkdirSync(path.join(dir, 'replay'), { recursive: true })
  if (!replay) fs.writeFileSync(path.join(dir, `${property}.json`), JSON.stringify(evidence, null, 1) + '\n')
  console.log(`${property} ${tier}: ${cases} cases, ${transitions} steps, ${states.size} states, ${outcomes.size} distinct outcomes, ${wall.toFixed(1)} s`)
  if (replay && cases === 0) {
    console.error("the recorded case is not part of this check's space")
    process.exit(2)
  }
  viol.forEach((v, i) => {
    const f = path.join(dir, 'replay', `${property}-${i + 1}.txt`)
    if (!replay) fs.writeFileSync(f, `property: ${property}\ncase: ${v.key}\ndetail: ${v.detail}\n`)
    if (i < 5) console.log(`VIOLATION property=${property} replay=${replay ? '-' : f}\n  case: ${v.key}\n  ${v.detail}`)
  })
  process.exit(nviol ? 1 : 0)
}
