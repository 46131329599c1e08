// asset.js <file> <coding> <kind> <sha256 of the decoded document or -> : decodes an asset and checks that it is a complete document
const fs = require('fs'), zlib = require('zlib'), crypto = require('crypto'), vm = require('vm');
const [, , file, coding, kind, sha] = process.argv;
function bad(why) {
  console.log(why);
  process.exit(1);
}
const raw = fs.readFileSync(file);
let doc;
try {
  if (coding === 'br' || coding === 'gzip') {
    const r = (coding === 'br' ? zlib.brotliDecompressSync : zlib.gunzipSync)(raw, { info: true });
    doc = r.buffer;
    if (r.engine.bytesWritten !== raw.length) bad(`${raw.length - r.engine.bytesWritten} bytes follow the end of the ${coding} stream`);
  } else if (coding === '') doc = raw;
  else bad('unknown content coding ' + coding);
} catch (e) {
  bad(`does not decode as ${coding}: ${e.message}`);
}
const text = doc.toString('latin1');
if (kind === 'html') {
  const t = doc.toString('utf8');
  if (!/^\s*<!doctype html>/i.test(t)) bad('no doctype');
  if (!/<html[^>]*>[^]*<head[^>]*>[^]*<\/head>[^]*<body[^]*<\/body>\s*<\/html>\s*$/i.test(t) && !/<html[^>]*>[^]*<\/html>\s*$/i.test(t)) bad('unbalanced html document');
  const scripts = [...t.matchAll(/<script[^>]*src=["']?([^"'\s>]+)/gi)].map(m => m[1].replace(/^\.?\//, ''));
  if (!scripts.includes('WebFront.js')) bad('the home page does not load WebFront.js');
} else if (kind === 'ico') {
  if (doc.length < 22 || doc.readUInt16LE(0) !== 0 || doc.readUInt16LE(2) !== 1) bad('not an icon');
  const n = doc.readUInt16LE(4);
  if (n < 1) bad('no image');
  let end = 6 + 16 * n;
  for (let i = 0; i < n; ++i) {
    const size = doc.readUInt32LE(6 + 16 * i + 8), offset = doc.readUInt32LE(6 + 16 * i + 12);
    if (offset < 6 + 16 * n || size < 40 || offset + size > doc.length) bad('image out of the file');
    const png = doc.slice(offset, offset + 4).toString('latin1') === '\x89PNG';
    if (!png && doc.readUInt32LE(offset) !== 40) bad('not a bitmap');
    if (!png) {
      const w = doc.readInt32LE(offset + 4), h = doc.readInt32LE(offset + 8), bits = doc.readUInt16LE(offset + 14);
      const shownW = doc[6 + 16 * i] || 256, shownH = doc[6 + 16 * i + 1] || 256;
      if (w !== shownW || h !== 2 * shownH) bad('bitmap size');
      const colours = doc.readUInt32LE(offset + 32) || (bits <= 8 ? 1 << bits : 0);
      const stride = b => ((w * b + 31) >> 5) << 2;
      if (40 + 4 * colours + shownH * (stride(bits) + stride(1)) > size) bad('incomplete bitmap');
    }
    end = Math.max(end, offset + size);
  }
  if (end !== doc.length) bad('incomplete icon');
} else if (kind === 'png') {
  if (doc.slice(0, 8).toString('latin1') !== '\x89PNG\r\n\x1a\n') bad('not a png');
  let pos = 8, last = '';
  const crcTable = Array.from({ length: 256 }, (_, n) => {
    for (let k = 0; k < 8; ++k) n = n & 1 ? 0xedb88320 ^ (n >>> 1) : n >>> 1;
    return n >>> 0;
  });
  while (pos < doc.length) {
    const len = doc.readUInt32BE(pos);
    if (pos + 12 + len > doc.length) bad('truncated png chunk');
    let crc = 0xffffffff;
    for (let i = pos + 4; i < pos + 8 + len; ++i) crc = crcTable[(crc ^ doc[i]) & 255] ^ (crc >>> 8);
    if (((crc ^ 0xffffffff) >>> 0) !== doc.readUInt32BE(pos + 8 + len)) bad('png checksum');
    last = doc.slice(pos + 4, pos + 8).toString('latin1');
    pos += 12 + len;
  }
  if (last !== 'IEND') bad('no end of png');
} else if (kind === 'js') {
  if (doc.length < 100) bad('too short');
  try {
    new vm.Script(doc.toString('utf8'));
  } catch (e) {
    bad('not a script: ' + e.message);
  }
} else if (kind === 'css') {
  const t = doc.toString('utf8').replace(/\/\*[^]*?\*\//g, '').replace(/"(\\.|[^"\\])*"|'(\\.|[^'\\])*'|url\([^)]*\)/g, '""');
  let depth = 0;
  for (const ch of t) {
    if (ch === '{') ++depth;
    if (ch === '}' && --depth < 0) bad('unbalanced style sheet');
  }
  if (depth !== 0 || !/[{]/.test(t)) bad('incomplete style sheet');
} else bad('unknown kind');
if (sha !== '-') {
  const h = crypto.createHash('sha256').update(doc).digest('hex');
  if (h !== sha) bad(`decodes to other bytes (sha256 ${h})`);
}
console.log('ok ' + doc.length);
