'use strict'
// [cases.json] -> [out.json]: what a request resolves to, and what installing it asks a stand-in distribution site for
const fs = require('fs')
const path = require('path')
const crypto = require('crypto')
const zlib = require('zlib')
const { Readable } = require('stream')
const repo = process.env.VERIF_REPO
const lib = (n) => path.join(repo, 'lib', n)
const log = require(lib('log.js'))
log.logger.level = 'silent'
const [inFile, outFile] = process.argv.slice(2)
const cases = JSON.parse(fs.readFileSync(inFile))
const top = fs.mkdtempSync(path.join(process.cwd(), 'rel-'))

let urls = []
const stray = [] // what fails where nobody waits for it
for (const k of ['unhandledRejection', 'uncaughtException']) process.on(k, (e) => stray.push(String((e && e.message) || e)))
const tick = () => new Promise((resolve) => setImmediate(resolve))
const small = Buffer.from('library')
const tar = (() => {
  const h = Buffer.alloc(512)
  h.write('x/include/node/node.h', 0); h.write('0000644', 100); h.write('0000000', 108); h.write('0000000', 116)
  h.write('00000000001 ', 124); h.write('00000000000 ', 136); h.write('        ', 148); h.write('0', 156); h.write('ustar\0' + '00', 257)
  let s = 0
  for (const b of h) s += b
  h.write(s.toString(8).padStart(6, '0') + '\0 ', 148)
  const body = Buffer.alloc(512); body.write('x')
  return zlib.gzipSync(Buffer.concat([h, body, Buffer.alloc(1024)]))
})()
const sha = (b) => crypto.createHash('sha256').update(b).digest('hex')
const libs = []
for (const n of ['node', 'iojs', 'corp', 'my-node']) {
  for (const d of ['', 'x64/', 'arm64/', 'win-x86/', 'win-x64/', 'win-arm64/']) for (const p of ['', 'win-x86/more/', 'win-x64/more/', 'win-ia32/more/', 'win-arm64/more/', 'more/']) libs.push(p + d + n + '.lib')
}
require.cache[lib('download.js')] = {
  id: lib('download.js'), filename: lib('download.js'), loaded: true, exports: {
    download: async (gyp, url) => {
      urls.push(url)
      if (/SHASUMS256\.txt$/.test(url)) {
        const tarName = path.posix.basename(urls.find((u) => !/SHASUMS256|\.lib$/.test(u)) || 'none')
        return { status: 200, text: async () => [sha(tar) + '  ' + tarName, ...libs.map((l) => sha(small) + '  ' + l)].join('\n') }
      }
      return { status: 200, body: Readable.from([/\.lib$/.test(url) ? small : tar]) }
    }
  }
}
const processRelease = require(lib('process-release.js'))
function load (win) {
  delete require.cache[lib('install.js')]
  const d = Object.getOwnPropertyDescriptor(process, 'platform')
  if (win) Object.defineProperty(process, 'platform', { ...d, value: 'win32' })
  try { return require(lib('install.js')) } finally { Object.defineProperty(process, 'platform', d) }
}
const installs = { false: load(false), true: load(true) }
const walk = (d, rel) => fs.existsSync(d) ? fs.readdirSync(d, { withFileTypes: true }).flatMap((e) => e.isDirectory() ? walk(path.join(d, e.name), rel + e.name + '/') : [rel + e.name]) : []

async function main () {
  const out = []
  let n = 0
  for (const c of cases) {
    const opts = {}
    if (c.target) opts.target = c.target
    if (c.distUrl) opts['dist-url'] = c.distUrl
    if (c.disturl) opts.disturl = c.disturl
    if (c.mirror) process.env.NODEJS_ORG_MIRROR = c.mirror; else delete process.env.NODEJS_ORG_MIRROR
    const rel = c.rel.has ? { name: c.rel.name } : undefined
    if (rel && c.rel.headersUrl) rel.headersUrl = c.rel.headersUrl
    if (rel && c.rel.libUrl) rel.libUrl = c.rel.libUrl
    const argv = c.word ? [c.word] : []
    const res = { version: '', semver: false, name: '', baseUrl: '', tarballUrl: '', shasumsUrl: '', versionDir: '' }
    for (const a of ['ia32', 'x64', 'arm64']) res[a] = { url: '', path: '' }
    try {
      const r = processRelease(argv, { opts: { ...opts } }, c.version, rel)
      res.version = r.version
      res.semver = !!r.semver
      for (const k of ['name', 'baseUrl', 'tarballUrl', 'shasumsUrl', 'versionDir']) res[k] = String(r[k])
      for (const a of ['ia32', 'x64', 'arm64']) if (r[a]) res[a] = { url: r[a].libUrl, path: r[a].libPath }
    } catch (e) { res.version = 'threw ' + e.message }
    urls = []
    const dev = path.join(top, String(n++))
    const gyp = { opts: { ...opts, arch: c.arch }, devDir: dev, version: '0', package: { installVersion: 11 }, commands: { remove: async () => {} } }
    Object.defineProperty(process, 'version', { value: c.version, configurable: true })
    Object.defineProperty(process, 'release', { value: rel, configurable: true })
    const inst = { ok: true, why: '' }
    try { await installs[!!c.win](gyp, argv.slice()) } catch (e) { inst.ok = false; inst.why = e.message }
    await tick()
    if (stray.length) { inst.ok = false; inst.why = 'nobody waits for ' + stray.splice(0)[0] }
    inst.urls = urls
    inst.made = fs.existsSync(dev) ? fs.readdirSync(dev) : []
    inst.files = walk(dev, '')
    if (!inst.ok) inst.made = []
    try { fs.rmSync(dev, { recursive: true, force: true, maxRetries: 5, retryDelay: 20 }) } catch (e) { } // what nobody waited for may still write
    out.push({ res, inst })
  }
  try { fs.rmSync(top, { recursive: true, force: true, maxRetries: 5, retryDelay: 50 }) } catch (e) { }
  fs.writeFileSync(outFile, JSON.stringify(out, (k, v) => v === undefined ? '(undefined)' : v))
}
const v = process.version
main().then(() => { Object.defineProperty(process, 'version', { value: v, configurable: true }); process.exit(0) }, (e) => { console.error(e); process.exit(1) })
