// The part of google-protobuf that gpsgen_pb.js uses.
'use strict';
const text = { dec: new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }), enc: new TextEncoder() };

exports.exportSymbol = function (name, object, base) {
  const parts = name.split('.');
  let cur = base || globalThis;
  while (parts.length) {
    const p = parts.shift();
    if (!parts.length && object !== undefined) cur[p] = object;
    else cur = cur[p] && cur[p] !== Object.prototype[p] ? cur[p] : (cur[p] = {});
  }
};
exports.inherits = function (child, parent) {
  child.superClass_ = parent.prototype;
  child.prototype = Object.create(parent.prototype);
  child.prototype.constructor = child;
};
exports.object = { extend: (target, ...from) => Object.assign(target, ...from) };

function Message() {}
exports.Message = Message;
Message.GENERATE_TO_OBJECT = true;
Message.initialize = (m) => { m.values = new Map(); };

function get(m, n) {
  const v = m.values.get(n);
  return v === undefined ? null : v;
}
function typed(want) {
  return (m, n, v) => {
    if (v !== null && v !== undefined && !want(v)) throw new Error(`field ${n} has no such type: ${typeof v}`);
    m.values.set(n, v);
    return m;
  };
}
Message.getField = get;
Message.getFieldWithDefault = (m, n, d) => get(m, n) ?? d;
Message.getFloatingPointFieldWithDefault = (m, n, d) => {
  const v = get(m, n);
  return v === null ? d : +v;
};
Message.getBooleanFieldWithDefault = (m, n, d) => {
  const v = get(m, n);
  return v === null ? d : !!v;
};
Message.setProto3IntField = typed((v) => typeof v === 'number');
Message.setProto3FloatField = typed((v) => typeof v === 'number');
Message.setProto3StringField = typed((v) => typeof v === 'string');
Message.setProto3BooleanField = typed((v) => typeof v === 'boolean');
Message.setProto3BytesField = typed((v) => typeof v === 'string' || v instanceof Uint8Array);
Message.bytesAsB64 = (v) => (typeof v === 'string' ? v : Buffer.from(v).toString('base64'));
Message.bytesAsU8 = (v) => (typeof v === 'string' ? new Uint8Array(Buffer.from(v, 'base64')) : v);
Message.getWrapperField = (m, ctor, n) => {
  const v = get(m, n);
  if (v !== null && !(v instanceof ctor)) throw new Error(`field ${n} holds another message`);
  return v;
};
Message.setWrapperField = typed((v) => v instanceof Message);
Message.getRepeatedWrapperField = (m, ctor, n) => {
  const v = get(m, n) ?? [];
  for (const x of v) if (!(x instanceof ctor)) throw new Error(`field ${n} holds another message`);
  m.values.set(n, v);
  return v;
};
Message.setRepeatedWrapperField = typed((v) => Array.isArray(v));
Message.addToRepeatedWrapperField = (m, n, v, ctor, at) => {
  const list = Message.getRepeatedWrapperField(m, ctor, n);
  const x = v || new ctor();
  list.splice(at === undefined ? list.length : at, 0, x);
  return x;
};
Message.toObjectList = (list, fn, inst) => list.map((x) => fn(inst, x));
Message.prototype.toString = () => '[message]';

class BinaryReader {
  constructor(bytes) {
    this.buf = bytes;
    this.pos = 0;
    this.end = bytes.length;
    this.view = new DataView(bytes.buffer, bytes.byteOffset, bytes.byteLength);
  }
  varint() {
    let v = 0n, shift = 0n;
    for (;;) {
      if (this.pos >= this.end) throw new Error('the message is cut off');
      const b = this.buf[this.pos++];
      v |= BigInt(b & 127) << shift;
      if (b < 128) return BigInt.asUintN(64, v);
      shift += 7n;
    }
  }
  need(n) {
    if (this.pos + n > this.end) throw new Error('the message is cut off');
    this.pos += n;
    return this.pos - n;
  }
  nextField() {
    if (this.pos >= this.end) return false;
    const t = Number(this.varint());
    this.field = t >>> 3;
    this.wire = t & 7;
    return true;
  }
  isEndGroup() { return this.wire === 4; }
  getFieldNumber() { return this.field; }
  is(wire) {
    if (this.wire !== wire) throw new Error(`field ${this.field} has wire type ${this.wire}, read as ${wire}`);
  }
  readDouble() { this.is(1); return this.view.getFloat64(this.need(8), true); }
  readFloat() { this.is(5); return this.view.getFloat32(this.need(4), true); }
  readInt64() { this.is(0); return Number(BigInt.asIntN(64, this.varint())); }
  readUint64() { this.is(0); return Number(this.varint()); }
  readInt32() { this.is(0); return Number(BigInt.asIntN(32, this.varint())); }
  readUint32() { this.is(0); return Number(BigInt.asUintN(32, this.varint())); }
  readSint64() { this.is(0); const v = this.varint(); return Number(BigInt.asIntN(64, (v >> 1n) ^ -(v & 1n))); }
  readBool() { this.is(0); return this.varint() !== 0n; }
  readBytes() {
    this.is(2);
    const n = Number(this.varint()), at = this.need(n);
    return this.buf.slice(at, at + n);
  }
  readString() { return text.dec.decode(this.readBytes()); }
  readMessage(m, fn) {
    this.is(2);
    const n = Number(this.varint()), at = this.need(n), end = this.end;
    this.pos = at;
    this.end = at + n;
    fn(m, this);
    this.pos = at + n;
    this.end = end;
  }
  skipField() { throw new Error(`field ${this.field} is unknown to the client`); }
}
exports.BinaryReader = BinaryReader;

class BinaryWriter {
  constructor() { this.out = []; }
  varint(v) {
    v = BigInt.asUintN(64, BigInt(v));
    while (v > 127n) {
      this.out.push(Number(v & 127n) | 128);
      v >>= 7n;
    }
    this.out.push(Number(v));
  }
  tag(n, wire) { this.varint((n << 3) | wire); }
  writeDouble(n, v) {
    this.tag(n, 1);
    const b = new Uint8Array(8);
    new DataView(b.buffer).setFloat64(0, v, true);
    this.out.push(...b);
  }
  writeFloat(n, v) {
    this.tag(n, 5);
    const b = new Uint8Array(4);
    new DataView(b.buffer).setFloat32(0, v, true);
    this.out.push(...b);
  }
  writeInt64(n, v) { this.tag(n, 0); this.varint(v); }
  writeUint64(n, v) { this.tag(n, 0); this.varint(v); }
  writeInt32(n, v) { this.tag(n, 0); this.varint(v); }
  writeUint32(n, v) { this.tag(n, 0); this.varint(v); }
  writeSint64(n, v) { this.tag(n, 0); v = BigInt(v); this.varint((v << 1n) ^ (v >> 63n)); }
  writeBool(n, v) { this.tag(n, 0); this.varint(v ? 1 : 0); }
  writeBytes(n, v) {
    this.tag(n, 2);
    const b = Message.bytesAsU8(v);
    this.varint(b.length);
    for (const x of b) this.out.push(x);
  }
  writeString(n, v) { this.writeBytes(n, text.enc.encode(v)); }
  writeMessage(n, m, fn) {
    const outer = this.out;
    this.out = [];
    fn(m, this);
    const inner = this.out;
    this.out = outer;
    this.tag(n, 2);
    this.varint(inner.length);
    for (const x of inner) this.out.push(x);
  }
  writeRepeatedMessage(n, list, fn) { for (const m of list) this.writeMessage(n, m, fn); }
  getResultBuffer() { return Uint8Array.from(this.out); }
}
exports.BinaryWriter = BinaryWriter;
