'use strict'
// [cases.json] -> [out.json]: runs the real lib/build.js; stand-in tools (real processes except on "Windows") record how they are called
const fs = require('fs')
const path = require('path')
const { EventEmitter } = require('events')
const os = require('os')
const repo = fs.realpathSync(process.env.VERIF_REPO)
const lib = (n) => path.join(repo, 'lib', n)
const log = require(lib('log.js'))
const [inFile, outFile] = process.argv.slice(2)
const cases = JSON.parse(fs.readFileSync(inFile))
const top = fs.realpathSync(fs.mkdtempSync(path.join(process.cwd(), 'mk-')))
const platform = Object.getOwnPropertyDescriptor(process, 'platform')
const set = (v) => Object.defineProperty(process, 'platform', { ...platform, value: v })
function load (p) {
  delete require.cache[lib('build.js')]
  set(p)
  try { return require(lib('build.js')) } finally { set(platform.value) }
}
const build = { false: load('linux'), true: load('win32') }
const Gyp = require(lib('node-gyp.js'))
const write = (f, s, m) => { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, s, m ? { mode: m } : {}) }
const sh = (s) => "'" + s.replace(/'/g, "'\\''") + "'"
const streams = [1, 2].map((n) => fs.readlinkSync('/proc/self/fd/' + n))
const startEnv = { ...process.env }
let escaped = null
process.on('uncaughtException', (e) => { if (escaped) escaped(e); else { console.error(e); process.exit(1) } })

async function one (c, n) {
  const d = path.join(top, String(n))
  const w = path.join(d, 'mod')
  const bin = path.join(d, 'bin')
  const rec = path.join(d, 'rec')
  fs.mkdirSync(w, { recursive: true })
  fs.mkdirSync(bin)
  const at = (t) => t.split('@D@').join(d)
  const conf = c.conf
  if (conf.kind !== 'absent') {
    const v = { target_defaults: {}, variables: { target_arch: conf.arch, nodedir: '/n', python: conf.python } }
    if (conf.type) v.target_defaults.default_configuration = conf.type
    if (conf.msbuild) v.variables.msbuild_path = conf.msbuild
    const text = '# Do not edit. File was generated by node-gyp\'s "configure" step\n' + JSON.stringify(v, null, 2) + '\n'
    write(path.join(w, 'build/config.gypi'), conf.kind === 'damaged' ? text.slice(0, text.length >> 1) : text)
  }
  if (c.sln) write(path.join(w, 'build', c.sln), '')
  if (c.makefile) write(path.join(w, 'build', c.makefileName), '')
  if (c.before === 'stale') { fs.mkdirSync(path.join(w, 'build/node_gyp_bins'), { recursive: true }); fs.symlinkSync('/stale', path.join(w, 'build/node_gyp_bins/python3')) }
  if (c.before === 'file') write(path.join(w, 'build/node_gyp_bins/python3'), 'x')
  if (c.before === 'other') write(path.join(w, 'build/node_gyp_bins/more/x'), 'x')
  if (c.before === 'empty') fs.mkdirSync(path.join(w, 'build/node_gyp_bins'), { recursive: true })
  const act = { none: '', 'rm-link': '/bin/rm -f build/node_gyp_bins/python3', 'rm-dir': '/bin/rm -rf build/node_gyp_bins', fill: '/bin/mkdir build/node_gyp_bins/sub; echo x > build/node_gyp_bins/sub/f', swap: '/bin/rm -f build/node_gyp_bins/python3; echo > build/node_gyp_bins/python3' }[c.does.act]
  const body = (name) => `#!/bin/sh\no=$(/bin/readlink /proc/$$/fd/1)\ne=$(/bin/readlink /proc/$$/fd/2)\n{ printf 'tool=%s\\n' ${sh(name)}; printf 'cwd=%s\\n' "$PWD"; printf 'path=%s\\n' "$PATH"; printf 'out=%s\\n' "$o"; printf 'err=%s\\n' "$e"; printf 'link=%s\\n' "$(/bin/readlink build/node_gyp_bins/python3)"; for a in "$@"; do printf 'arg=%s\\n' "$a"; done; echo end; } >> ${sh(rec)}\n${act}\n` +
    (c.does.signal ? `kill -${c.does.signal} $$\n/bin/sleep 1\n` : `exit ${c.does.code}\n`)
  for (const t of c.tools) {
    const name = at(t.name)
    const f = name.includes('/') ? path.resolve(w, name) : path.join(bin, name)
    if (t.kind === 'dir') fs.mkdirSync(f, { recursive: true })
    else write(f, t.kind === 'broken' ? '#!/no/such/interpreter\n' : body(name), t.kind === 'noexec' ? 0o644 : 0o755)
  }
  const calls = []
  const gyp = Gyp()
  for (const k of Object.keys(process.env)) delete process.env[k]
  Object.assign(process.env, startEnv, { PATH: bin + at(c.morePath) })
  for (const k of Object.keys(process.env)) if (/^npm_config_/i.test(k) || k === 'MAKE' || k === 'JOBS') delete process.env[k]
  for (const [k, v] of c.env) process.env['npm_config_' + k] = at(v)
  if (c.levelEnv) process.env.npm_config_loglevel = c.levelEnv
  if (c.makeEnv) process.env.MAKE = at(c.makeEnv)
  if (c.jobsEnv) process.env.JOBS = c.jobsEnv
  log.logger.stream = null
  log.logger.level = 'info'
  process.chdir(w)
  const win = c.platform === 'win32'
  if (win) {
    gyp.spawn = (tool, args) => {
      const e = new EventEmitter()
      if (c.does.starts) {
        calls.push({ tool, args: args.map(String), cwd: process.cwd(), path: process.env.PATH, link: '', out: streams[0], err: streams[1] })
        setImmediate(() => { e.emit('exit', c.does.signal ? null : c.does.code, c.does.signal ? 'SIG' + c.does.signal : null); e.emit('close', 0) })
      } else setImmediate(() => e.emit('error', Object.assign(new Error('spawn ' + tool + ' ENOENT'), { code: 'ENOENT' })))
      return e
    }
  }
  const res = { ok: true, err: '', escaped: false, hang: false, left: false, calls, dir: w, path: bin + at(c.morePath), cpus: String(os.cpus().length), out: streams[0], errors: streams[1] }
  set(c.platform)
  try {
    gyp.parseArgv(['node', 'node-gyp', 'build', ...c.words.map(at)])
    const q = gyp.todo.shift()
    const over = new Promise((resolve, reject) => {
      escaped = (e) => { res.escaped = true; reject(e) }
      setTimeout(() => { res.hang = true; resolve() }, 20000).unref()
    })
    // build.js is loaded per platform family; its arguments as the command table passes them
    await Promise.race([over, build[win](gyp, q.args)])
  } catch (e) { res.ok = false; res.err = String(e.message) }
  if (res.escaped) await new Promise((resolve) => setTimeout(resolve, 20))
  escaped = null
  set(platform.value)
  process.chdir(top)
  if (!win && fs.existsSync(rec)) {
    let cur
    for (const l of fs.readFileSync(rec, 'utf8').split('\n')) {
      const [, k, v] = /^(\w+)=?(.*)$/.exec(l) || []
      if (k === 'tool') calls.push(cur = { tool: v, args: [] })
      else if (k === 'arg') cur.args.push(v)
      else if (k && k !== 'end') cur[k] = v
    }
  }
  res.left = fs.existsSync(path.join(w, 'build/node_gyp_bins'))
  try { fs.rmSync(d, { recursive: true, force: true, maxRetries: 5, retryDelay: 20 }) } catch (e) { } // a tool nobody waited for may still write
  return JSON.parse(JSON.stringify(res).split(d).join('@D@'))
}
(async () => {
  const out = []
  let n = 0
  for (const x of cases) out.push(await one(x, ++n))
  try { fs.rmSync(top, { recursive: true, force: true, maxRetries: 5, retryDelay: 50 }) } catch (e) { }
  fs.writeFileSync(outFile, JSON.stringify(out, (k, v) => v === undefined ? '(undefined)' : v))
})().then(() => process.exit(0), (e) => { console.error(e); process.exit(1) })
