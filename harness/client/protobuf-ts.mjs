// The part of @protobuf-ts/runtime that gpsgen.ts uses.
export const WireType = { Varint: 0, Bit64: 1, LengthDelimited: 2, StartGroup: 3, EndGroup: 4, Bit32: 5 };
export const MESSAGE_TYPE = Symbol.for('protobuf-ts/message-type');

export const UnknownFieldHandler = {
  onRead(typeName, message, no) {
    throw new Error(`field ${no} of ${typeName} is unknown to the client`);
  },
  onWrite() {},
};

function camel(s) {
  return s.replace(/_([a-z0-9])/g, (_, c) => c.toUpperCase());
}

export function reflectionMergePartial(type, target, source) {
  for (const f of type.fields) {
    const n = f.localName ?? camel(f.name);
    const v = source[n];
    if (v === undefined) continue;
    if (f.kind === 'message') {
      target[n] = f.repeat ? v.map((x) => f.T().create(x)) : f.T().create(v);
    } else {
      target[n] = v;
    }
  }
}

const text = { dec: new TextDecoder('utf-8', { fatal: true, ignoreBOM: true }), enc: new TextEncoder() };

export class Reader {
  constructor(buf) {
    this.buf = buf;
    this.pos = 0;
    this.view = new DataView(buf.buffer, buf.byteOffset, buf.byteLength);
  }
  varint() {
    let v = 0n, shift = 0n;
    for (;;) {
      if (this.pos >= this.buf.length) throw new Error('the message is cut off');
      const b = this.buf[this.pos++];
      v |= BigInt(b & 127) << shift;
      if (b < 128) return BigInt.asUintN(64, v);
      shift += 7n;
    }
  }
  need(n) {
    if (this.pos + n > this.buf.length) throw new Error('the message is cut off');
    this.pos += n;
    return this.pos - n;
  }
  tag() {
    const t = Number(this.varint());
    return [t >>> 3, t & 7];
  }
  uint32() { return Number(BigInt.asUintN(32, this.varint())); }
  int32() { return Number(BigInt.asIntN(32, this.varint())); }
  sint32() { const n = this.uint32(); return (n >>> 1) ^ -(n & 1); }
  long(v) { return { toBigInt: () => v, toNumber: () => Number(v), toString: () => v.toString() }; }
  int64() { return this.long(BigInt.asIntN(64, this.varint())); }
  uint64() { return this.long(this.varint()); }
  sint64() { const v = this.varint(); return this.long(BigInt.asIntN(64, (v >> 1n) ^ -(v & 1n))); }
  bool() { return this.varint() !== 0n; }
  double() { return this.view.getFloat64(this.need(8), true); }
  float() { return this.view.getFloat32(this.need(4), true); }
  fixed32() { return this.view.getUint32(this.need(4), true); }
  sfixed32() { return this.view.getInt32(this.need(4), true); }
  fixed64() { return this.long(this.view.getBigUint64(this.need(8), true)); }
  sfixed64() { return this.long(this.view.getBigInt64(this.need(8), true)); }
  bytes() {
    const n = this.uint32(), at = this.need(n);
    return this.buf.slice(at, at + n);
  }
  string() { return text.dec.decode(this.bytes()); }
  skip(wireType) {
    const at = this.pos;
    switch (wireType) {
      case 0: this.varint(); break;
      case 1: this.need(8); break;
      case 2: this.bytes(); break;
      case 5: this.need(4); break;
      default: throw new Error(`wire type ${wireType}`);
    }
    return this.buf.slice(at, this.pos);
  }
}

export class Writer {
  constructor() {
    this.out = [];
    this.stack = [];
  }
  varint(v) {
    v = BigInt.asUintN(64, BigInt(v));
    while (v > 127n) {
      this.out.push(Number(v & 127n) | 128);
      v >>= 7n;
    }
    this.out.push(Number(v));
    return this;
  }
  fixed(n, set) {
    const b = new Uint8Array(n);
    set(new DataView(b.buffer));
    for (const x of b) this.out.push(x);
    return this;
  }
  tag(no, wireType) { return this.varint((no << 3) | wireType); }
  uint32(v) { return this.varint(v); }
  int32(v) { return this.varint(v); }
  sint32(v) { return this.varint(((v << 1) ^ (v >> 31)) >>> 0); }
  int64(v) { return this.varint(v); }
  uint64(v) { return this.varint(v); }
  sint64(v) { v = BigInt(v); return this.varint((v << 1n) ^ (v >> 63n)); }
  bool(v) { return this.varint(v ? 1 : 0); }
  double(v) { return this.fixed(8, (d) => d.setFloat64(0, v, true)); }
  float(v) { return this.fixed(4, (d) => d.setFloat32(0, v, true)); }
  fixed32(v) { return this.fixed(4, (d) => d.setUint32(0, v, true)); }
  sfixed32(v) { return this.fixed(4, (d) => d.setInt32(0, v, true)); }
  fixed64(v) { return this.fixed(8, (d) => d.setBigUint64(0, BigInt(v), true)); }
  sfixed64(v) { return this.fixed(8, (d) => d.setBigInt64(0, BigInt(v), true)); }
  bytes(v) {
    this.varint(v.length);
    for (const x of v) this.out.push(x);
    return this;
  }
  string(v) { return this.bytes(text.enc.encode(v)); }
  raw(v) {
    for (const x of v) this.out.push(x);
    return this;
  }
  fork() {
    this.stack.push(this.out);
    this.out = [];
    return this;
  }
  join() {
    const inner = this.out;
    this.out = this.stack.pop();
    return this.bytes(inner);
  }
  finish() { return Uint8Array.from(this.out); }
}

export class MessageType {
  constructor(typeName, fields) {
    this.typeName = typeName;
    this.fields = fields;
  }
  fromBinary(data) {
    const r = new Reader(data);
    const m = this.internalBinaryRead(r, data.length, { readUnknownField: true, readerFactory: (b) => new Reader(b) });
    if (r.pos !== data.length) throw new Error('the message is longer than its fields');
    return m;
  }
  toBinary(m) {
    return this.internalBinaryWrite(m, new Writer(), { writeUnknownFields: true, writerFactory: () => new Writer() }).finish();
  }
}
