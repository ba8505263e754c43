'use strict'
// replaces the command modules of lib/ by recorders (rebuild stays real); CLI_PLANS, CLI_OUT: files
const Module = require('module')
const fs = require('fs')
const path = require('path')
const lib = path.join(fs.realpathSync(process.env.VERIF_REPO || '/repo'), 'lib')
const plans = JSON.parse(fs.readFileSync(process.env.CLI_PLANS))
const out = process.env.CLI_OUT
const count = {}
const tag = (v) => typeof v === 'boolean' ? 'b:' + v : typeof v === 'string' ? 's:' + v : 'x:' + typeof v + JSON.stringify(v)
function recorder (name) {
  const f = async (gyp, argv) => {
    const opts = {}
    for (const k of Object.keys(gyp.opts)) if (k !== 'argv') opts[k] = tag(gyp.opts[k])
    fs.appendFileSync(out, JSON.stringify({ name, args: argv.map((a) => typeof a === 'string' ? a : 'not a word: ' + typeof a), opts, devdir: String(gyp.devDir), cwd: process.cwd() }) + '\n')
    count[name] = (count[name] || 0) + 1
    const p = plans.find((x) => x.name === name && x.k === count[name])
    if (!p) return
    for (const t of p.push) gyp.todo.push({ name: t.name, args: t.args })
    if (p.how === 'ok') {
      if (p.after) await new Promise((resolve) => setTimeout(resolve, p.after))
      return p.result
    }
    if (p.how === 'throw') throw new Error('planned')
    if (p.how === 'late') { await new Promise((resolve) => setTimeout(resolve, 5)); throw new Error('planned') }
    if (p.how === 'never') return new Promise(() => {})
    if (p.how === 'crash') { setTimeout(() => { throw new Error('planned') }, 1); return new Promise((resolve) => setTimeout(resolve, 200)) }
  }
  f.usage = name
  return f
}
const real = Module._extensions['.js']
Module._extensions['.js'] = function (m, f) {
  const n = path.basename(f, '.js')
  let dir = path.dirname(f)
  try { dir = fs.realpathSync(dir) } catch {}
  if (dir === lib && ['build', 'clean', 'configure', 'install', 'list', 'remove'].includes(n)) { m.exports = recorder(n); return }
  return real(m, f)
}
