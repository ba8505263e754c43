'use strict'
// [cases.json] -> [out.json]: searches for a Python, with answers made up (mode "fake") or given by real programs (mode "real")
const fs = require('fs')
const path = require('path')
const repo = process.env.VERIF_REPO
const lib = (n) => path.join(repo, 'lib', n)
const log = require(lib('log.js'))
log.logger.level = 'silent'
const [inFile, outFile] = process.argv.slice(2)
const cases = JSON.parse(fs.readFileSync(inFile))
const os = require('os')
const stray = [] // what fails where nobody waits for it
for (const k of ['unhandledRejection', 'uncaughtException']) process.on(k, (e) => stray.push(String((e && e.message) || e)))
const tick = () => new Promise((resolve) => setImmediate(resolve))
const find = (t, n) => (t.find((x) => x.name === n) || { answer: { ok: false, out: '', how: 'missing' } }).answer

async function fake (c) {
  const o = { ran: [], found: false, path: '', atonce: 0, places_: [], why: '' }
  const names = { SystemDrive: 'SystemDrive', USERNAME: 'USERNAME', USER: 'USER', LOCALAPPDATA: 'LOCALAPPDATA', ProgramW6432: 'ProgramW6432', ProgramFiles: 'ProgramFiles', ProgramFilesX86: 'ProgramFiles(x86)' }
  const saved = { ...process.env }
  for (const k in names) { if (c.penv[k]) process.env[names[k]] = c.penv[k]; else delete process.env[names[k]] }
  const ui = os.userInfo
  os.userInfo = () => { if (!c.penv.osUser) throw new Error('no user'); return { username: c.penv.osUser } }
  let PythonFinder
  try {
    delete require.cache[lib('find-python.js')]
    PythonFinder = require(lib('find-python.js'))
  } finally { os.userInfo = ui; for (const k in process.env) delete process.env[k]; Object.assign(process.env, saved) }
  const f = new PythonFinder(c.config || undefined)
  o.places_ = f.winDefaultLocations
  f.winDefaultLocations = c.places
  f.win = c.win
  f.env = {}
  if (c.env) f.env.PYTHON = c.env
  if (c.force) f.env.NODE_GYP_FORCE_PYTHON = c.force
  let now = 0
  f.execFile = async (prog, args, opts) => {
    if (prog === '') throw new TypeError('no program') // as child_process does
    now++
    o.atonce = Math.max(o.atonce, now)
    let asks = args.some((a) => /version_info/.test(a)) ? 'version' : args[0] === '-3' ? 'launcher' : 'path'
    let name = prog
    if (c.win && opts.shell) {
      // in a command shell everything is quoted
      name = /^"(.*)"$/.test(prog) && args.every((a) => /^".*"$/s.test(a)) ? prog.slice(1, -1) : 'not quoted: ' + prog
    }
    if (!!opts.shell !== (c.win && asks === 'path')) asks += ' in the wrong shell'
    if (opts.env.TERM !== 'dumb') asks += ' on a terminal'
    o.ran.push({ prog: name, asks })
    const a = find(asks === 'version' ? c.versions : c.asks, name)
    await new Promise((resolve) => a.slow ? setTimeout(resolve, 2) : setImmediate(resolve))
    now--
    if (a.how === 'throw') throw new Error('cannot run')
    return [a.ok ? null : Object.assign(new Error('failed'), { code: a.how === 'missing' ? 'ENOENT' : 1 }), a.out, a.err || '']
  }
  try { o.path = await f.findPython(); o.found = true } catch (e) { o.why = e.message }
  await new Promise((resolve) => setTimeout(resolve, c.slowAll ? 6 : 0))
  await tick()
  if (stray.length) Object.assign(o, { found: false, why: 'nobody waits for ' + stray.splice(0)[0] })
  return o
}

const quote = (s) => "'" + s.replace(/'/g, "'\\''") + "'"
async function real (c, n) {
  // every name is a shell script that notes the question and gives its answer
  const d = path.join(process.cwd(), 'py' + n)
  const bin = path.join(d, 'bin')
  fs.mkdirSync(bin, { recursive: true })
  const note = path.join(d, 'log')
  const at = (name) => name.startsWith('/') ? path.join(d, name) : path.join(bin, name)
  const all = new Set([...c.asks, ...c.versions].map((x) => x.name))
  for (const name of all) {
    const p = find(c.asks, name)
    const v = find(c.versions, name)
    const say = (a, isPath) => {
      const out = isPath && a.out.trim().startsWith('/') ? a.out.replace(a.out.trim(), path.join(d, a.out.trim())) : a.out
      return `printf %s ${quote(out)}; printf %s ${quote(a.err || '')} >&2; ` + (a.ok ? 'exit 0' : a.how === 'signal' ? 'kill -9 $$' : 'exit 3')
    }
    if (p.how === 'missing' && v.how === 'missing') continue
    fs.mkdirSync(path.dirname(at(name)), { recursive: true })
    fs.writeFileSync(at(name), `#!/bin/sh\ncase "$2" in *version_info*) q=version;; *) q=path;; esac\necho "begin $q $0" >> ${quote(note)}\nsleep 0.00${n % 7}\necho "end" >> ${quote(note)}\n` +
      `if [ $q = version ]; then ${say(v, false)}; else ${say(p, true)}; fi\n`)
    fs.chmodSync(at(name), p.how === 'noexec' ? 0o644 : 0o755)
  }
  delete require.cache[lib('find-python.js')]
  const PythonFinder = require(lib('find-python.js'))
  const saved = { ...process.env }
  const local = (x) => x.startsWith('/') ? path.join(d, x) : x
  process.env.PATH = bin
  delete process.env.PYTHON
  delete process.env.NODE_GYP_FORCE_PYTHON
  if (c.env) process.env.PYTHON = local(c.env)
  if (c.force) process.env.NODE_GYP_FORCE_PYTHON = local(c.force)
  const o = { ran: [], found: false, path: '', atonce: 0, places_: [], why: '', scripts: [...all].filter((x) => fs.existsSync(at(x)) && find(c.asks, x).how !== 'noexec') }
  process.env.PATH = bin + ':/usr/bin/none'
  try {
    o.path = await PythonFinder.findPython(c.config ? local(c.config) : undefined)
    o.found = true
    if (o.path.startsWith(d)) o.path = o.path.slice(d.length)
  } catch (e) { o.why = e.message }
  await tick()
  if (stray.length) Object.assign(o, { found: false, why: 'nobody waits for ' + stray.splice(0)[0] })
  for (const k in process.env) delete process.env[k]
  Object.assign(process.env, saved)
  let depth = 0
  for (const l of fs.existsSync(note) ? fs.readFileSync(note, 'utf8').split('\n') : []) {
    if (l === 'end') depth--
    if (!l.startsWith('begin ')) continue
    o.atonce = Math.max(o.atonce, ++depth)
    const [, q, prog] = l.match(/^begin (\w+) (.*)$/)
    o.ran.push({ prog: prog.startsWith(bin + '/') ? prog.slice(bin.length + 1) : prog.startsWith(d) ? prog.slice(d.length) : prog, asks: q })
  }
  try { fs.rmSync(d, { recursive: true, force: true, maxRetries: 5, retryDelay: 20 }) } catch (e) { } // what nobody waited for may still write
  return o
}
(async () => {
  const out = []
  for (let n = 0; n < cases.length; n++) out.push(cases[n].mode === 'real' ? await real(cases[n], n) : await fake(cases[n]))
  fs.writeFileSync(outFile, JSON.stringify(out, (k, v) => v === undefined ? '(undefined)' : v))
})().then(() => process.exit(0), (e) => { console.error(e); process.exit(1) })
