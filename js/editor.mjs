// C43: the editor of the page.  js/main.js runs with an editor that has a text
// and a cursor and records what is done to it; js/src/glicol-mode.js is read the
// way the editor's simple modes are defined: the first rule of the state that
// matches here gives the token.
import vm from 'node:vm'
import fs from 'node:fs'
import { thorough, visit, step, state, outcome, words, report, begin, browser } from './common.mjs'

begin('C43')
const DIR = '/repo/js/'
const text = f => fs.readFileSync(DIR + f, 'utf8')

class Editor {
  constructor(w, options) { this.w = w; this.options = options; this.value = ''; this.cursor = { line: 0, ch: 0 } }
  getValue() { return this.value }
  setValue(v) { this.value = String(v); this.cursor = { line: 0, ch: 0 } }
  getCursor() { return { ...this.cursor } }
  findWordAt({ line, ch }) {
    const l = this.value.split('\n')[line] ?? ''
    let a = ch, b = ch
    const kind = c => (c === undefined ? '' : /\w/.test(c) ? 'w' : /\s/.test(c) ? 's' : 'p')
    const k = kind(l[ch]) === 'w' || ch === 0 ? kind(l[ch]) : kind(l[ch - 1])
    while (a > 0 && kind(l[a - 1]) === k) a--
    while (b < l.length && kind(l[b]) === k) b++
    return { anchor: { line, ch: a }, head: { line, ch: b } }
  }
  getRange(a, b) {
    const ls = this.value.split('\n').slice(a.line, b.line + 1)
    ls[ls.length - 1] = ls[ls.length - 1].slice(0, b.ch)
    ls[0] = ls[0].slice(a.ch)
    return ls.join('\n')
  }
  execCommand(c) { this.w.log.push(['command', c]) }
}
const FIRST = 'o: sin 440'
const TEXTS = { short: 'o: saw 1', lines: '~mod: sin 3\no: speed 2.0 >> seq 60 ~mod\n', empty: '', script: 'o: sin ##440#' }
const made = t => t.replace('##440#', '440')

async function open() {
  const w = { log: [], area: null, mode: null }
  const listeners = {}
  const window = {
    ...browser,
    code: FIRST,
    run: t => { w.log.push(['run', t]); window.code = made(t) },
    stop: () => { w.log.push(['stop']) },
    help: t => { w.log.push(['help', t]) },
  }
  const CodeMirror = {
    defineSimpleMode: (n, m) => { w.mode = [n, m] },
    fromTextArea: (a, o) => { w.area = a; return new Editor(w, o) },
  }
  window.CodeMirror = CodeMirror
  window.document = {
    getElementById: id => ({ id, addEventListener: (e, f) => { listeners[`${id} ${e}`] = f }, set onclick(f) { listeners[`${id} click`] = f } }),
    querySelector: s => (s[0] === '#' ? window.document.getElementById(s.slice(1)) : null),
  }
  window.console = { log() {}, warn() {}, error() {} }
  window.window = window
  const context = vm.createContext(window)
  const cache = new Map()
  const get = spec => {
    if (!cache.has(spec)) {
      if (/\.css$/.test(spec)) cache.set(spec, new vm.SyntheticModule([], () => {}, { context }))
      else {
        const f = spec.replace(/^\.\//, '').replace(/(\.js)?$/, '.js')
        cache.set(spec, new vm.SourceTextModule(text(f), { context, identifier: f }))
      }
    }
    return cache.get(spec)
  }
  const m = get('./main.js')
  await m.link(get)
  await m.evaluate()
  return { w, window, listeners, editor: window.editor }
}

// ---- the keys ---------------------------------------------------------------
const RUN = ['Ctrl-Enter', 'Cmd-Enter'], EXPAND = ['Ctrl-Shift-Enter', 'Cmd-Shift-Enter'], STOP = ['Ctrl-Alt-.', 'Cmd-Alt-.'], COMMENT = ['Ctrl-/', 'Cmd-/']
const letters = [...RUN, ...EXPAND, ...STOP, ...COMMENT, 'Alt-D', 'run', 'stop', ...Object.keys(TEXTS), 'go 0 4', 'go 1 5', 'go 1 21']
const wordAt = (t, { line, ch }) => {
  const l = t.split('\n')[line] ?? ''
  for (const m of l.matchAll(/\w+/g)) if (m.index <= ch && ch <= m.index + m[0].length) return m[0]
  return null
}
async function keys(w) {
  const p = await open()
  if (p.w.area?.id !== 'code') return `the editor is made of ${p.w.area?.id}`
  if (!p.editor) return 'there is no editor'
  if (!p.w.mode) return 'no mode is defined for the editor'
  if (p.editor.value !== FIRST) return `the editor starts with ${JSON.stringify(p.editor.value)}`
  let content = FIRST
  for (const k of w) {
    step()
    p.w.log.length = 0
    let want = []
    if (k in TEXTS) {
      p.editor.setValue((content = TEXTS[k]))
    } else if (k.startsWith('go ')) {
      const [, line, ch] = k.split(' ').map(Number)
      const ls = content.split('\n')
      if (line < ls.length) p.editor.cursor = { line, ch: Math.min(ch, ls[line].length) }
    } else if (k === 'run' || k === 'stop') {
      const f = p.listeners[`${k} click`]
      if (!f) return `the button ${k} does nothing`
      await f({})
      want = k === 'run' ? [['run', content]] : [['stop']]
    } else {
      const f = p.editor.options?.extraKeys?.[k]
      if (!f) return `${k} does nothing`
      const at = wordAt(content, p.editor.cursor)
      // what is looked up where there is no word is not said
      if (k === 'Alt-D' && at === null) continue
      await f(p.editor)
      if (RUN.includes(k)) want = [['run', content]]
      else if (EXPAND.includes(k)) { want = [['run', content]]; content = made(content) }
      else if (STOP.includes(k)) want = [['stop']]
      else if (COMMENT.includes(k)) want = [['command', 'toggleComment']]
      else want = [['help', at]]
    }
    const got = JSON.stringify(p.w.log)
    if (got !== JSON.stringify(want)) return `${k} does ${got}, expected ${JSON.stringify(want)}`
    if (p.editor.value !== content) return `after ${k} the editor shows ${JSON.stringify(p.editor.value)}, expected ${JSON.stringify(content)}`
    state(`${content} ${JSON.stringify(p.editor.cursor)} ${k}`)
    outcome(got)
  }
  return null
}
const core = ['Ctrl-Enter', 'Cmd-Shift-Enter', 'Alt-D', 'run', 'Ctrl-Alt-.', 'script', 'lines', 'go 1 5']
for (const w of words(letters, thorough ? 3 : 2)) await visit(`keys ${w.join(', ')}`, () => keys(w))
for (const w of words(core, thorough ? 4 : 3, thorough ? 4 : 3)) await visit(`keys ${w.join(', ')}`, () => keys(w))

// ---- the colours --------------------------------------------------------------
const MODE = (await open()).w.mode?.[1]
function tokens(line, mode, from) {
  const out = []
  let s = from, pos = 0, still = 0
  while (pos < line.length) {
    step()
    if (!mode[s]) return { bad: `there is no state ${s}` }
    let hit = null, rest = line.slice(pos)
    for (const r of mode[s]) {
      const m = new RegExp(`^(?:${r.regex.source})`, r.regex.flags).exec(rest)
      if (m) { hit = [m[0], r]; break }
    }
    const n = hit ? hit[0].length : 1
    if (n === 0 && ++still > 5) return { bad: `the colouring stays at ${pos}` }
    if (n) still = 0
    out.push([line.slice(pos, pos + n), hit?.[1].token ?? null])
    if (hit?.[1].next) s = hit[1].next
    pos += n
  }
  return { out, s }
}
const PIECES = ['sin', 'mul', 'envperc', '440', '0.5', '-0.25', '60_', '~a', '~mod', '>>', ':', 'o', 'out1', '\\bd', '//', '##', '#', 'PI', '`']
// what a piece between spaces is shown as
const COLOUR = { sin: 'string', mul: 'string', envperc: 'string', 440: 'variable', 0.5: 'variable', '-0.25': 'variable', '60_': 'variable', '~a': 'variable', '~mod': 'variable-2', '>>': 'error', ':': 'error', '\\bd': 'variable', o: 'keyword', out1: 'keyword', PI: 'variable', '`': 'error' }
function colours(line, pieces) {
  const { out, bad, s } = tokens(line, MODE, 'start')
  if (bad) return bad
  if (out.map(t => t[0]).join('') !== line) return `the colours are of ${JSON.stringify(out.map(t => t[0]).join(''))}`
  const at = i => { let p = 0; for (const [t, c] of out) { if (i < p + t.length) return c; p += t.length } }
  let pos = 0, inside = null
  for (const p of pieces) {
    // how a script that is opened again inside itself ends is not said
    if (inside === 'script' && p === '##') return null
    for (let i = pos; i < pos + p.length; i++) {
      const want = inside === 'comment' ? 'comment' : inside === 'script' || p === '##' ? 'error' : p === '//' ? 'comment' : p === '#' ? undefined : COLOUR[p]
      if (want !== undefined && at(i) !== want) return `${p} at ${pos} is shown as ${at(i)}, expected ${want}: ${JSON.stringify(out)}`
    }
    if (inside === null) inside = p === '//' ? 'comment' : p === '##' ? 'script' : null
    else if (inside === 'script' && p === '#') inside = null
    pos += p.length + 1
  }
  const end = inside === 'script' ? 'error' : 'start'
  if (s !== end) return `the line ends in the state ${s}, expected ${end}`
  state(out.map(t => t[1]).join())
  outcome(JSON.stringify(out))
  return null
}
if (!MODE) await visit('the colours', () => 'no mode is defined for the editor')
else {
  for (const w of words(PIECES, thorough ? 4 : 3)) await visit(`colours of ${w.join(' ')}`, () => colours(w.join(' '), w))
  await visit('the comment sign', () => (MODE.meta?.lineComment === '//' ? null : `lines are commented out with ${MODE.meta?.lineComment}`))
}
report('C43', `every word of up to ${thorough ? 'three' : 'two'} letters over the keys and buttons of the editor, four texts and three cursor places, and of ${thorough ? 'four' : 'three'} over ${core.join(', ')}; every line of up to ${thorough ? 'four' : 'three'} pieces over ${PIECES.join(' ')}. States are the distinct editor contents with the last key, and the distinct token rows`, ['the editor is a stand-in with a text and a cursor', 'a key calls the function bound to it with the editor'])
