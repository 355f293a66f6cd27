// Reads and writes messages with the published clients, one JSON request per
// line on the standard input, one JSON answer per line on the standard output.
// Values are {field: value} with "d:<bits>", "i:<number>", "s:<text>",
// "x:<hex>", booleans, objects and lists.
import { createInterface } from 'node:readline';
import { createRequire } from 'node:module';
import * as ts from './gpsgen.ts';
const js = createRequire(import.meta.url)('./gpsgen_pb.cjs');

let schema = {};

const camel = (s) => s.replace(/_([a-z0-9])/g, (_, c) => c.toUpperCase());
const pascal = (s) => camel('_' + s);
const local = (full) => full.split('.').slice(1);
const tsType = (full) => ts[local(full).join('_')];
const jsType = (full) => local(full).reduce((o, p) => o[p], js);

const view = new DataView(new ArrayBuffer(8));
function bits(v) {
  if (typeof v !== 'number') throw new Error(`a double is a ${typeof v}`);
  view.setFloat64(0, v);
  return 'd:' + view.getBigUint64(0).toString(16).padStart(16, '0');
}
function fromBits(s) {
  view.setBigUint64(0, BigInt('0x' + s.slice(2)));
  return view.getFloat64(0);
}
const hex = (b) => Buffer.from(b).toString('hex');
const unhex = (s) => new Uint8Array(Buffer.from(s, 'hex'));

function scalarOut(type, v, big) {
  switch (type) {
    case 'double': return bits(v);
    case 'int64':
      if (typeof v !== (big ? 'bigint' : 'number')) throw new Error(`an int64 is a ${typeof v}`);
      return 'i:' + v.toString();
    case 'bool':
      if (typeof v !== 'boolean') throw new Error(`a bool is a ${typeof v}`);
      return v;
    case 'string':
      if (typeof v !== 'string') throw new Error(`a string is a ${typeof v}`);
      return 's:' + v;
    case 'bytes':
      if (!(v instanceof Uint8Array)) throw new Error(`bytes are a ${typeof v}`);
      return 'x:' + hex(v);
  }
  throw new Error(`type ${type}`);
}
function scalarIn(type, v, big) {
  switch (type) {
    case 'double': return fromBits(v);
    case 'int64': return big ? BigInt(v.slice(2)) : Number(v.slice(2));
    case 'bool': return v;
    case 'string': return v.slice(2);
    case 'bytes': return unhex(v.slice(2));
  }
  throw new Error(`type ${type}`);
}
const zero = (v) => v === 'd:0000000000000000' || v === 'i:0' || v === false || v === 's:' || v === 'x:';

// walk builds a value from what get(field) finds, checking that every key of
// the object is a field.
function walk(full, get, sub) {
  const out = {};
  for (const f of schema[full]) {
    const v = get(f);
    if (f.repeated) {
      if (!Array.isArray(v)) throw new Error(`${full}.${f.name} is not a list`);
      if (v.length) out[f.name] = v.map((x) => sub(f.message, x));
    } else if (f.message) {
      if (v !== undefined && v !== null) out[f.name] = sub(f.message, v);
    } else {
      if (v === undefined || v === null) throw new Error(`${full}.${f.name} is missing`);
      if (!zero(v)) out[f.name] = v;
    }
  }
  return out;
}

const clients = {
  ts: {
    read(full, data) { return tsType(full).fromBinary(data); },
    write(full, m) { return tsType(full).toBinary(m); },
    out(full, m) {
      const names = new Set(schema[full].map((f) => camel(f.name)));
      for (const k of Object.keys(m)) if (!names.has(k)) throw new Error(`${full} has a field ${k}`);
      return walk(full, (f) => {
        const v = m[camel(f.name)];
        return f.message || v === undefined ? v : scalarOut(f.type, v, true);
      }, (t, x) => this.out(t, x));
    },
    partial(full, value) {
      const p = {};
      for (const f of schema[full]) {
        const v = value[f.name];
        if (v === undefined) continue;
        if (f.repeated) p[camel(f.name)] = v.map((x) => this.partial(f.message, x));
        else if (f.message) p[camel(f.name)] = this.partial(f.message, v);
        else p[camel(f.name)] = scalarIn(f.type, v, true);
      }
      return p;
    },
    build(full, value) { return tsType(full).create(this.partial(full, value)); },
  },
  js: {
    read(full, data) { return jsType(full).deserializeBinary(data); },
    write(full, m) { return m.serializeBinary(); },
    out(full, m) {
      const v = walk(full, (f) => {
        const name = 'get' + pascal(f.name);
        if (f.repeated) return m[name + 'List']();
        if (f.message) {
          if (m['has' + pascal(f.name)]() !== (m[name]() != null)) throw new Error(`has${pascal(f.name)}`);
          return m[name]();
        }
        if (f.type === 'bytes') return scalarOut(f.type, m[name + '_asU8']());
        return scalarOut(f.type, m[name]());
      }, (t, x) => this.out(t, x));
      return v;
    },
    object(full, o) {
      const names = new Set(schema[full].map((f) => camel(f.name) + (f.repeated ? 'List' : '')));
      for (const k of Object.keys(o)) if (!names.has(k)) throw new Error(`${full} has a field ${k}`);
      return walk(full, (f) => {
        const v = o[camel(f.name) + (f.repeated ? 'List' : '')];
        if (f.message) return v;
        return scalarOut(f.type, f.type === 'bytes' ? new Uint8Array(Buffer.from(v, 'base64')) : v);
      }, (t, x) => this.object(t, x));
    },
    build(full, value) {
      const m = new (jsType(full))();
      for (const f of schema[full]) {
        const v = value[f.name];
        if (v === undefined) continue;
        const name = 'set' + pascal(f.name);
        if (f.repeated) m[name + 'List'](v.map((x) => this.build(f.message, x)));
        else if (f.message) m[name](this.build(f.message, v));
        else m[name](scalarIn(f.type, v));
      }
      return m;
    },
  },
};

function answer(q) {
  switch (q.op) {
    case 'schema':
      schema = q.schema;
      return {};
    case 'tables': {
      const tables = {};
      for (const t of Object.values(ts)) {
        if (!t || !t.typeName) continue;
        tables[t.typeName] = t.fields.map((f) => ({
          no: f.no, name: f.name, kind: f.kind, repeat: f.repeat ?? 0, opt: !!f.opt, oneof: !!f.oneof,
          T: typeof f.T === 'function' ? f.T().typeName : f.T,
        }));
      }
      return { tables };
    }
    case 'read': {
      const c = clients[q.client];
      const m = c.read(q.message, unhex(q.hex));
      const value = c.out(q.message, m);
      const r = { value, hex: hex(c.write(q.message, m)) };
      if (q.client === 'js') r.object = c.object(q.message, m.toObject());
      return r;
    }
    case 'write': {
      const c = clients[q.client];
      const m = c.build(q.message, q.value);
      return { hex: hex(c.write(q.message, m)), value: c.out(q.message, m) };
    }
  }
  throw new Error(`op ${q.op}`);
}

for await (const line of createInterface({ input: process.stdin })) {
  let a;
  try {
    a = answer(JSON.parse(line));
  } catch (e) {
    a = { error: String(e && e.message ? e.message : e) };
  }
  process.stdout.write(JSON.stringify(a) + '\n');
}
