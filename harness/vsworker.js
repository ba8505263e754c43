'use strict'
// [cases.json] -> [out.json]: the real Visual Studio finder on made-up machines (programs and registry answered here)
const fs = require('fs')
const path = require('path')
const cp = require('child_process')
const repo = process.env.VERIF_REPO
const lib = (n) => path.join(repo, 'lib', n)
const [inFile, outFile] = process.argv.slice(2)
const cases = JSON.parse(fs.readFileSync(inFile))
let c
const lower = (s) => s.toLowerCase()
const exists = fs.existsSync
fs.existsSync = (p) => /^[A-Za-z]:/.test(String(p)) ? c.files.some((f) => lower(f) === lower(path.win32.resolve(p))) : exists(p)
cp.execFile = (prog, args, opts, cb) => {
  const answer = (err, out) => setImmediate(() => cb(err, out, ''))
  const line = args.join(' ')
  if (/reg\.exe$/i.test(prog)) {
    const hit = c.reg.find((r) => args[0] === 'query' && lower(r.key) === lower(args[1]) && args[2] === '/v' && r.value === args[3] && (!r.value32 || args.includes('/reg:32') || c.arch === 'ia32'))
    if (!hit) answer(new Error('ERROR: The system was unable to find the specified registry key or value.'), '')
    else answer(null, `\r\n${hit.key}\r\n    ${hit.value}    REG_SZ    ${hit.text}\r\n\r\n`)
  } else if (/Get-Module/.test(line)) {
    answer(c.module.ok || c.module.how ? null : new Error('no such module'), '2.2.16')
  } else if (/Get-VSSetupInstance/.test(line)) {
    if (!c.module.ok) {
      const how = c.module.how
      answer(how === 'error' ? new Error('failed') : null, how === 'null' ? 'null' : how === 'empty' ? '' : how === 'text' ? 'no json' : '')
    } else {
      const m = line.match(/InstallationPath -eq '([^']*)'/)
      const l = c.module.list.filter((x) => !m || lower(x.path) === lower(m[1])).map((x) => ({
        InstanceId: 'a', InstallationPath: x.path, InstallationVersion: Object.fromEntries(x.version.split('.').map((n, k) => [['Major', 'Minor', 'Build', 'Revision'][k], Number(n)])),
        Packages: x.packages.map((p) => ({ Id: p, Version: '1' }))
      }))
      answer(null, l.length === 0 ? '' : JSON.stringify(l.length === 1 ? l[0] : l))
    }
  } else if (/Find-VisualStudio\.cs/.test(line)) {
    const how = c.script.how
    if (c.script.ok) answer(null, JSON.stringify(c.script.list))
    else answer(how === 'error' ? new Error('failed') : null, how === 'object' ? '{}' : how === 'text' ? 'no json' : '')
  } else answer(new Error('unexpected program ' + prog + ' ' + line), '')
  return { stdin: { end () {} } }
}
require(lib('log.js')).logger.level = 'silent'
const { findVisualStudio } = require(lib('find-visualstudio.js'))
const semver = require('semver')
const stray = [] // what fails where nobody waits for it
for (const k of ['unhandledRejection', 'uncaughtException']) process.on(k, (e) => stray.push(String((e && e.message) || e)))
const tick = () => new Promise((resolve) => setImmediate(resolve))
const archWas = Object.getOwnPropertyDescriptor(process, 'arch')
async function one (x) {
  c = x
  process.env.SystemRoot = 'C:\\Windows'
  for (const [k, v] of [['VCINSTALLDIR', c.vcDir], ['VSCMD_VER', c.vcVer], ['WindowsSDKVersion', c.sdkEnv]]) if (v) process.env[k] = v; else delete process.env[k]
  Object.defineProperty(process, 'arch', { ...archWas, value: c.arch })
  const res = { found: false, version: '', major: '', minor: '', year: 0, path: '', msBuild: '', toolset: '', sdk: '', why: '' }
  try {
    const r = await findVisualStudio(semver.parse(c.node + '.1.0'), c.msvs || undefined)
    Object.assign(res, { found: true, version: r.version, major: String(r.versionMajor), minor: String(r.versionMinor), year: r.versionYear, path: r.path, msBuild: String(r.msBuild), toolset: String(r.toolset), sdk: r.sdk || '' })
  } catch (e) { res.why = e.message }
  await tick()
  if (stray.length) Object.assign(res, { found: false, why: 'nobody waits for ' + stray.splice(0)[0] })
  Object.defineProperty(process, 'arch', archWas)
  return res
}
(async () => {
  const out = []
  for (const x of cases) out.push(await one(x))
  fs.writeFileSync(outFile, JSON.stringify(out, (k, v) => v === undefined ? '(undefined)' : v))
})().then(() => process.exit(0), (e) => { console.error(e); process.exit(1) })
