// Runs the deployment scripts of the repository (script/**) against a chain simulated by the parent process.
//
// The scripts are bundled from the working tree at start-up. What they import from elsewhere is replaced:
// files live in memory, prompts are answered as the parent says, and every call of a chain client is put to the parent
// as one line of JSON on stdout and answered by one line on stdin.
const fs = require('fs');
const path = require('path');
const vm = require('vm');
const Module = require('module');
const { TextDecoder, TextEncoder } = require('util');

const ROOT = process.env.REPO_ROOT || '/repo';
const LIB = process.env.NODE_LIB || '/opt/veriftools/node/node_modules';
const WORK = '/work';
const CONFIG = WORK + '/config.yaml';

// ---- lines

let pending = Buffer.alloc(0);
function readLine() {
  for (;;) {
    const i = pending.indexOf(10);
    if (i >= 0) {
      const line = pending.subarray(0, i).toString('utf8');
      pending = pending.subarray(i + 1);
      return line;
    }
    const b = Buffer.alloc(65536);
    let n;
    try {
      n = fs.readSync(0, b, 0, b.length, null);
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
      Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 1);
      continue;
    }
    if (n === 0) return undefined;
    pending = Buffer.concat([pending, b.subarray(0, n)]);
  }
}
function plain(v) {
  if (typeof v === 'bigint') return v.toString();
  if (ArrayBuffer.isView(v)) return { hex: Buffer.from(v.buffer, v.byteOffset, v.byteLength).toString('hex') };
  if (Array.isArray(v)) return v.map(plain);
  if (v && typeof v === 'object') {
    if (v instanceof Map) return plain(Object.fromEntries(v));
    return Object.fromEntries(Object.entries(v).filter(([, x]) => typeof x !== 'function').map(([k, x]) => [k, plain(x)]));
  }
  return v;
}
function writeLine(v) {
  const b = Buffer.from(JSON.stringify(plain(v)) + '\n');
  for (let i = 0; i < b.length; ) {
    try {
      i += fs.writeSync(1, b, i);
    } catch (e) {
      if (e.code !== 'EAGAIN') throw e;
      Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 1);
    }
  }
}
const never = new Promise(() => {});
let stop = () => {};
let asked = 0;
let epoch = 0;
function ask(call, args) {
  asked++;
  writeLine({ call, args });
  const line = readLine();
  if (line === undefined) process.exit(0);
  const r = JSON.parse(line);
  if ('stop' in r) {
    epoch++;
    stop({ fail: 'stopped' });
    return never;
  }
  if ('err' in r) throw new Error(r.err);
  return r.ok;
}

// ---- stand-ins

// a file system in memory
let files = {};
let written = new Set();
const norm = (p) => path.resolve(WORK, String(p));
const need = (p) => {
  const f = files[norm(p)];
  if (f === undefined) throw Object.assign(new Error(`ENOENT: no such file or directory, open '${p}'`), { code: 'ENOENT' });
  return f;
};
const fsStub = {
  readFileSync: (p, enc) => (enc ? need(p) : Buffer.from(need(p))),
  writeFileSync: (p, d) => void (written.add(norm(p)), (files[norm(p)] = String(d))),
  appendFileSync: (p, d) => void (written.add(norm(p)), (files[norm(p)] = (files[norm(p)] || '') + String(d))),
  renameSync: (a, b) => {
    written.add(norm(b));
    files[norm(b)] = need(a);
    delete files[norm(a)];
  },
  mkdirSync: () => undefined,
  accessSync: (p) => void need(p),
  statSync: (p) => {
    const dir = !(norm(p) in files) && fsStub.existsSync(p);
    if (!dir) need(p);
    return { isFile: () => !dir, isDirectory: () => dir, size: dir ? 0 : Buffer.byteLength(need(p)) };
  },
  rmSync: (p, o) => {
    if (o && o.recursive) for (const f of Object.keys(files)) if (f.startsWith(norm(p) + '/')) delete files[f];
    delete files[norm(p)];
  },
  createWriteStream: (p) => {
    files[norm(p)] = '';
    const { Writable } = require('stream');
    return new Writable({
      write(chunk, _, f) {
        files[norm(p)] += chunk.toString('utf8');
        f();
      },
    });
  },
  existsSync: (p) => norm(p) in files || Object.keys(files).some((f) => f.startsWith(norm(p) + '/')),
  readdirSync: (p) => {
    const d = norm(p) + '/';
    const v = Object.keys(files).filter((f) => f.startsWith(d)).map((f) => f.slice(d.length).split('/')[0]);
    if (v.length === 0) throw Object.assign(new Error(`ENOENT: no such file or directory, scandir '${p}'`), { code: 'ENOENT' });
    return [...new Set(v)];
  },
  createReadStream: (p) => require('stream').Readable.from([Buffer.from(need(p))]),
};
fsStub.promises = {
  readFile: async (...a) => fsStub.readFileSync(...a),
  writeFile: async (...a) => fsStub.writeFileSync(...a),
  mkdir: async () => undefined,
  access: async (...a) => fsStub.accessSync(...a),
  stat: async (...a) => fsStub.statSync(...a),
  readdir: async (...a) => fsStub.readdirSync(...a),
};

// bech32 without its checksum being looked at: addresses here are those of the parent
function fromBech32(addr) {
  const i = addr.lastIndexOf('1');
  if (i < 1 || addr.length - i < 8) throw new Error(`no bech32 address: ${addr}`);
  const out = [];
  let acc = 0, bits = 0;
  for (const ch of addr.slice(i + 1, -6)) {
    const v = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'.indexOf(ch);
    if (v < 0) throw new Error(`no bech32 address: ${addr}`);
    acc = ((acc << 5) | v) & 0xfff;
    bits += 5;
    if (bits >= 8) {
      bits -= 8;
      out.push((acc >> bits) & 0xff);
    }
  }
  return { prefix: addr.slice(0, i), data: Uint8Array.from(out) };
}

const anything = () =>
  new Proxy(function () {}, {
    get: (_, k) => (k === Symbol.toPrimitive ? () => 'stub' : k === 'then' ? undefined : anything()),
    apply: () => anything(),
    construct: () => anything(),
  });

const message = (kind) => ({ fromJSON: (v) => ({ message: kind, ...v }) });

console.log = console.error = console.warn = console.info = () => {};

let deps;
let answer = 'y';
const commander = () => {
  const m = require(LIB + '/commander');
  const P = m.Command.prototype;
  // what the version used by the scripts has in addition
  P.optsWithGlobals = function () {
    let o = {};
    for (let c = this; c; c = c.parent) o = { ...o, ...c.opts() };
    return o;
  };
  P.argument = function (name) {
    return this.arguments(/^[<[]/.test(name) ? name : `<${name}>`);
  };
  P.hook = function () {
    return this;
  };
  P._exit = function (code, name, text) {
    throw new Error(text);
  };
  return m;
};

const stubs = {
  fs: () => fsStub,
  'fs/promises': () => fsStub.promises,
  readline: () => ({
    createInterface: () => ({ question: (_, f) => f(answer), close: () => {}, on: () => {} }),
  }),
  'timers/promises': () => ({ setTimeout: (_ms, v) => new Promise((f) => setImmediate(f, v)), setImmediate: (v) => new Promise((f) => setImmediate(f, v)) }),
  'js-yaml': () => require(LIB + '/js-yaml'),
  commander,
  // an archive is a JSON object of its files here
  decompress: () => async (from, to) => {
    for (const [k, v] of Object.entries(JSON.parse(need(from)))) files[norm(`${to}/${k}`)] = v;
  },
  colors: () => ({ enable: () => {} }),
  inversify: () => ({
    Container: class {
      get() {
        return deps;
      }
      bind() {
        return { toConstantValue: () => {} };
      }
    },
    injectable: () => () => {},
    inject: () => () => {},
  }),
  'reflect-metadata': () => ({}),
  'cosmjs-types/cosmwasm/wasm/v1/types': () => ({ AccessType: { ACCESS_TYPE_UNSPECIFIED: 0, ACCESS_TYPE_NOBODY: 1, ACCESS_TYPE_ONLY_ADDRESS: 2, ACCESS_TYPE_EVERYBODY: 3, ACCESS_TYPE_ANY_OF_ADDRESSES: 4 } }),
  '@cosmjs/encoding': () => ({ fromBech32, toHex: (b) => Buffer.from(b).toString('hex'), fromHex: (s) => Uint8Array.from(Buffer.from(s, 'hex')), toUtf8: (s) => new TextEncoder().encode(s), fromUtf8: (b) => new TextDecoder().decode(b) }),
  '@hyperlane-xyz/utils': () => ({ ProtocolType: { Cosmos: 'cosmos', Ethereum: 'ethereum', Sealevel: 'sealevel' } }),
  '@injectivelabs/sdk-ts': () => ({
    MsgExecuteContract: message('execute'),
    MsgExecuteContractCompat: message('execute'),
    MsgInstantiateContract: message('instantiate'),
    MsgMigrateContract: message('migrate'),
    MsgUpdateAdmin: message('update-admin'),
    MsgBroadcasterWithPk: class {},
  }),
};

for (const c of ['red', 'green', 'blue', 'yellow', 'grey', 'gray', 'cyan', 'magenta', 'white', 'black', 'bold', 'dim', 'italic', 'underline']) {
  Object.defineProperty(String.prototype, c, { get() { return this.toString(); }, configurable: true });
}

// ---- the scripts

const entry = `
export { deployHook, deployIsm } from './script/deploy';
export { fromContext } from './script/shared/agent';
export { loadContext } from './script/shared/context';
export { contextCmd, contractCmd, deployCmd, migrateCmd, uploadCmd, warpCmd, walletCmd } from './script/commands';
export { updateCmd } from './script/commands/update';
import * as constants from './script/shared/constants';
export { constants };
`;
const esbuild = require(LIB + '/esbuild');
const built = esbuild.buildSync
  ? esbuild.buildSync({
      stdin: { contents: entry, resolveDir: ROOT, loader: 'ts' },
      bundle: true,
      write: false,
      format: 'cjs',
      platform: 'node',
      logLevel: 'silent',
      packages: 'external',
      tsconfigRaw: { compilerOptions: { experimentalDecorators: true, esModuleInterop: true } },
    })
  : undefined;
const script = new vm.Script(`(function (require, module, exports, console, setTimeout, process, fetch) {${built.outputFiles[0].text}\n})`, { filename: 'scripts.js' });

let said = [];
const note = (...a) => {
  if (said.length < 60) said.push(a.map((v) => (v instanceof Error ? v.message : typeof v === 'string' ? v : JSON.stringify(plain(v)) ?? String(v))).join(' ').slice(0, 400));
};
const quiet = { log: note, error: note, warn: note, info: note, debug: () => {}, trace: () => {}, dir: () => {}, table: () => {} };
const fakeProcess = Object.create(process, Object.getOwnPropertyDescriptors({
  cwd: () => WORK,
  env: { CONFIG },
  argv: ['node', 'cw-hpl'],
  stdin: { on: () => {} },
  stdout: { write: () => true },
  stderr: { write: () => true },
  exit: (c) => {
    throw new Error(`exit ${c}`);
  },
}));

function load() {
  const m = { exports: {} };
  const cache = {};
  const req = (name) => {
    const n = name.replace(/^node:/, '');
    if (!(n in cache)) cache[n] = stubs[n] ? stubs[n]() : Module.builtinModules.includes(n) ? require(n) : anything();
    return cache[n];
  };
  script.runInThisContext()(req, m, m.exports, quiet, (f, _ms, ...a) => setImmediate(f, ...a), fakeProcess, async (url) => {
    const v = ask('fetch', [String(url)]);
    return { ok: true, status: 200, json: async () => v, text: async () => JSON.stringify(v), body: new Response(JSON.stringify(v)).body };
  });
  return m.exports;
}

// what an earlier task left running is not answered any more
const remote = (name) => {
  const mine = epoch;
  return new Proxy({}, { get: (_, k) => (k === 'then' || typeof k === 'symbol' ? undefined : async (...a) => (mine === epoch ? revive(ask(name + '.' + k, a)) : never)) });
};
let unhandled;
process.on('unhandledRejection', (e) => {
  unhandled = e;
});
// as a process does, ends only when nothing is left to do
async function drain() {
  for (let quiet = 0; quiet < 12; quiet++) {
    const before = asked;
    await new Promise((f) => setImmediate(f));
    if (asked !== before) quiet = 0;
  }
}
// events carry their attributes as bytes
function revive(v) {
  if (v && Array.isArray(v.typed_events)) {
    const enc = new TextEncoder();
    v.events = v.typed_events.map((e) => ({ type: e.type, attributes: e.attributes.map(([k, x]) => ({ key: enc.encode(k), value: enc.encode(x), index: true })) }));
    delete v.typed_events;
  }
  return v;
}

async function run(t) {
  files = Object.fromEntries(Object.entries(t.files || {}).map(([k, v]) => [norm(k), v]));
  files[CONFIG] = JSON.stringify(t.config);
  written = new Set();
  said = [];
  deps = { ctx: t.ctx, network: t.network, client: { ...t.client, wasm: remote('wasm'), stargate: remote('stargate'), injective: remote('injective') } };
  answer = t.answer || 'y';
  const m = load();
  if (t.op === 'cli') {
    // the context as the last command left it, on disk; without one if there is nothing in it
    const { id } = t.network;
    const empty = Object.keys(t.ctx.artifacts || {}).length + Object.keys(t.ctx.deployments || {}).length === 0;
    if (!empty) files[norm(`context/${id}.json`)] = JSON.stringify(t.ctx);
    files[norm('context/other.json')] = JSON.stringify({ artifacts: { hpl_mailbox: 1 }, deployments: { core: {} } });
    deps.ctx = m.loadContext(id);
  }
  switch (t.op) {
    case 'hook':
      return m.deployHook(t.network.id, deps.ctx, deps.client, t.arg);
    case 'ism':
      return m.deployIsm(deps.ctx, deps.client, t.arg);
    case 'min':
      return m.constants.REMOTE_MIN_VERSION;
    case 'agent':
      return m.fromContext(t.network, deps.ctx);
    case 'cli': {
      const { Command } = commander();
      const cli = new Command();
      cli.name('cw-hpl').option('-n, --network-id <networkId>');
      for (const c of [m.contextCmd, m.contractCmd, m.deployCmd, m.migrateCmd, m.updateCmd, m.uploadCmd, m.walletCmd, m.warpCmd]) cli.addCommand(c);
      await cli.parseAsync(['node', 'cw-hpl', ...t.arg, '-n', t.network.id]);
      return null;
    }
  }
  throw new Error('unknown operation');
}

async function main() {
  for (;;) {
    const line = readLine();
    if (line === undefined) return;
    const t = JSON.parse(line);
    let out;
    epoch++;
    unhandled = undefined;
    try {
      const stopped = new Promise((f) => (stop = f));
      out = await Promise.race([run(t).then((done) => ({ done: done === undefined ? null : done })), stopped]);
    } catch (e) {
      out = { fail: String((e && e.stack) || e).split('\n').slice(0, 3).join(' | ') };
    }
    await drain();
    if (unhandled && 'done' in out) out = { fail: String((unhandled && unhandled.stack) || unhandled).split('\n').slice(0, 3).join(' | ') };
    // what the command wrote
    const saved = Object.fromEntries(Object.entries(files).filter(([k]) => written.has(k)));
    writeLine({ ...out, ctx: deps.ctx, files: saved, said });
  }
}
main().then(() => process.exit(0));
