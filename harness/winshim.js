'use strict'
// makes lib/install.js take its Windows branches: the platform reads win32 while that one module is being loaded
const Module = require('module')
const real = Module._extensions['.js']
Module._extensions['.js'] = function (m, f) {
  if (!/[\\/]lib[\\/]install\.js$/.test(f)) return real(m, f)
  const d = Object.getOwnPropertyDescriptor(process, 'platform')
  for (const x of ['graceful-fs', 'tar', 'exponential-backoff', 'semver', 'make-fetch-happen']) { try { require(require.resolve(x, { paths: [f, ...Module.globalPaths] })) } catch {} }
  require(f.replace(/install\.js$/, 'download.js'))
  require(f.replace(/install\.js$/, 'process-release.js'))
  Object.defineProperty(process, 'platform', { ...d, value: 'win32' })
  try { return real(m, f) } finally { Object.defineProperty(process, 'platform', d) }
}
