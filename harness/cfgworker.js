'use strict'
// [cases.json] -> [out.json]: runs the real lib/configure.js with stand-ins for installing, finding programs and spawning
const fs = require('fs')
const path = require('path')
const { EventEmitter } = require('events')
const repo = fs.realpathSync(process.env.VERIF_REPO)
const lib = (n) => path.join(repo, 'lib', n)
const log = require(lib('log.js'))
log.logger.level = 'silent'
const [inFile, outFile] = process.argv.slice(2)
const cases = JSON.parse(fs.readFileSync(inFile))
const top = fs.mkdtempSync(path.join(process.cwd(), 'cfg-'))
let c, o
const stray = [] // what fails where nobody waits for it
for (const k of ['unhandledRejection', 'uncaughtException']) process.on(k, (e) => stray.push(String((e && e.message) || e)))
const tick = () => new Promise((resolve) => setImmediate(resolve))
const stub = (name, exports) => { require.cache[lib(name)] = { id: lib(name), filename: lib(name), loaded: true, exports } }
const findNodeDirectory = require(lib('find-node-directory.js'))
stub('find-node-directory.js', () => c.nodeRoot)
stub('find-python.js', {
  findPython: async (p) => {
    o.pythonAsked.push(p || '')
    if (!c.pythonOk) throw new Error('no python')
    return 'PY'
  }
})
stub('find-visualstudio.js', {
  findVisualStudio: async () => {
    if (!c.vsOk) throw new Error('no visual studio')
    const v = c.vs
    return { versionMajor: v.major, versionMinor: v.minor, versionYear: v.year, toolset: v.toolset, sdk: v.sdk || null, msBuild: v.msBuild, path: v.path }
  }
})
const was = {}
for (const k of ['platform', 'arch', 'version', 'release', 'config']) was[k] = Object.getOwnPropertyDescriptor(process, k)
const set = (k, value) => Object.defineProperty(process, k, { value, configurable: true, writable: true, enumerable: true })
const back = () => { for (const k in was) Object.defineProperty(process, k, was[k]) }
const plain = (n) => n.t === 's' ? n.s : n.t === 'i' ? Number(n.s) : n.t === 'b' ? n.s === 'true' : n.t === 'n' ? null
  : n.t === 'l' ? n.l.map(plain) : Object.fromEntries(n.k.map((k, i) => [k, plain(n.l[i])]))
function load (win) {
  delete require.cache[lib('configure.js')]
  if (win) set('platform', 'win32')
  try { return require(lib('configure.js')) } finally { back() }
}
const configure = { false: load(false), true: load(true) }
require(lib('install.js'))
const Gyp = require(lib('node-gyp.js'))
const write = (f, s) => { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, s) }

function layout (dir) {
  if (c.headers.kind !== 'none') write(path.join(dir, 'include/node/config.gypi'), c.headers.text)
  if (c.incCommon) write(path.join(dir, 'include/node/common.gypi'), '{}')
  fs.mkdirSync(dir, { recursive: true })
}
function replace (v, dirs) {
  if (typeof v === 'string') { for (const k in dirs) v = v.split(k).join(dirs[k]); return v }
  if (Array.isArray(v)) return v.map((x) => replace(x, dirs))
  if (v && typeof v === 'object') return Object.fromEntries(Object.entries(v).map(([k, x]) => [replace(k, dirs), replace(x, dirs)]))
  return v
}
async function one (c0, n) {
  const d = path.join(top, String(n))
  const dirs = { '@D@': d }
  c = replace(c0, dirs)
  o = { pythonAsked: [], installs: [], spawned: [], wrote: false, text: '', ok: true, why: '', buildReads: '', root: '', dir: d }
  const w = path.join(d, 'w')
  fs.mkdirSync(w, { recursive: true })
  fs.mkdirSync(path.join(d, 'home'), { recursive: true })
  if (c.hasConfig) write(path.join(w, 'config.gypi'), '{}')
  if (c.hasCommon) write(path.join(w, 'common.gypi'), '{}')
  if (c.buildIsFile) write(path.join(w, 'build'), 'x')
  for (const f of c.rootFiles) write(path.join(c.nodeRoot, f), 'x')
  if (c.zosEnv && c.zosEnvHas) write(path.join(c.zosEnv, 'zos-base.h'), 'x')
  for (const x of c.layouts) layout(x)
  if (c.prefixH) write(path.join(d, 'prefix/include/node/node_version.h'), c.prefixH)
  process.chdir(w)
  const gyp = Gyp()
  gyp.opts = plain(c.opts)
  gyp.devDir = c.devDir
  gyp.commands.install = async (words) => {
    o.installs.push({ words, ensure: !!gyp.opts.ensure })
    if (!c.installOk) throw new Error('not installed')
    for (const p of ['', 'iojs-', 'corp-']) layout(path.join(c.devDir, p + words[0]))
  }
  gyp.spawn = (cmd, argv) => {
    o.spawned.push({ cmd: typeof cmd === 'string' ? cmd : 'not a word: ' + typeof cmd, argv: argv.map((a) => typeof a === 'string' ? a : 'not a word: ' + typeof a), path: process.env.PYTHONPATH || '', python: process.env.PYTHON || '',
      msvs: process.env.GYP_MSVS_VERSION || '', vspath: process.env.GYP_MSVS_OVERRIDE_PATH || '' })
    const p = new EventEmitter()
    setImmediate(() => c.exit.startsWith('SIG') ? p.emit('exit', null, c.exit) : p.emit('exit', Number(c.exit), null))
    return p
  }
  process.env.HOME = path.join(d, 'home')
  for (const [k, v] of [['PYTHONPATH', c.pythonPath], ['ZOSLIB_INCLUDES', c.zosEnv], ['PYTHON', ''], ['GYP_MSVS_VERSION', ''], ['GYP_MSVS_OVERRIDE_PATH', '']]) if (v) process.env[k] = v; else delete process.env[k]
  const rel = c.rel.has ? { name: c.rel.name, headersUrl: c.rel.headersUrl || undefined } : undefined
  set('platform', c.platform); set('arch', c.arch); set('version', c.version); set('release', rel); set('config', plain(c.running))
  const raw = c.optsRaw
  if (raw) for (const k in raw) gyp.opts[k] = raw[k]
  // what the argument parser always leaves there
  gyp.opts.argv = { remain: [], cooked: ['configure', ...c.words], original: c.words.slice() }
  try { await configure[c.platform === 'win32'](gyp, c.words.slice()) } catch (e) { o.ok = false; o.why = String(e && e.message) } finally { back() }
  await tick()
  if (stray.length) { o.ok = false; o.why = 'nobody waits for ' + stray.splice(0)[0] }
  try { o.root = findNodeDirectory(c.script, { platform: c.platform, execPath: c.exe }) } catch (e) { o.root = 'threw ' + e.message }
  if (o.root && o.root.endsWith('/') && o.root !== '/') o.root = o.root.slice(0, -1)
  const f = path.join(w, 'build/config.gypi')
  if (!c.buildIsFile && fs.existsSync(f)) { o.wrote = true; o.text = fs.readFileSync(f, 'latin1') }
  // what the build command makes of it
  if (o.wrote) {
    delete require.cache[lib('build.js')]
    let ran = null
    const g2 = Gyp()
    g2.opts = { make: 'true' }
    g2.spawn = (cmd, argv) => { ran = argv; const p = new EventEmitter(); setImmediate(() => p.emit('exit', 0, null)); return p }
    try {
      await require(lib('build.js'))(g2, [])
      o.buildReads = ran ? 'ok' : 'no tool run'
      o.buildType = ran ? String(ran.find((a) => /^BUILDTYPE=/.test(a))).slice(10) : ''
    } catch (e) { o.buildReads = e.message }
  }
  process.chdir(top)
  try { fs.rmSync(d, { recursive: true, force: true, maxRetries: 5, retryDelay: 20 }) } catch (e) { } // what nobody waited for may still write
  return { o, c }
}
(async () => {
  const out = []
  for (let n = 0; n < cases.length; n++) out.push(await one(cases[n], n))
  process.chdir('/')
  try { fs.rmSync(top, { recursive: true, force: true, maxRetries: 5, retryDelay: 50 }) } catch (e) { }
  fs.writeFileSync(outFile, JSON.stringify(out, (k, v) => v === undefined ? '(undefined)' : v))
})().then(() => process.exit(0), (e) => { back(); console.error(e); process.exit(1) })
