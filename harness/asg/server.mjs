// Validates graphs, one JSON text per line on stdin, against asg/schema.json
// (first argument: the asg folder) with the project's own `defaults` keyword.
import fs from 'node:fs'
import path from 'node:path'
import { createRequire } from 'node:module'
import { pathToFileURL } from 'node:url'
import readline from 'node:readline'

const dir = process.argv[2]
const require = createRequire('/opt/veriftools/node/node_modules/')
const Ajv = require('ajv/dist/2020.js').default
const defaults = (await import(pathToFileURL(path.join(dir, 'lib/ajv-keyword-defaults.js')))).default
process.chdir(dir)
const schema = (await import(pathToFileURL(path.join(dir, 'schema.js')))).default
const ajv = new Ajv({ allErrors: false, discriminator: true, keywords: [defaults()] })
const validate = ajv.compile(schema)
for await (const line of readline.createInterface({ input: process.stdin })) {
  const data = JSON.parse(line)
  const ok = validate(data)
  fs.writeSync(1, JSON.stringify({ ok, data, error: ok ? null : validate.errors[0].instancePath + ' ' + validate.errors[0].message }) + '\n')
}
