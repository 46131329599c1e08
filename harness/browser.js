// browser.js - a minimal browser for the WebFront client script: runs the script served by the server in a context of its own with a WebSocket, a
// document and a console which only record. Driven by node.hpp, one command per line, one reply (event lines closed by ".") per command.
'use strict';
const vm = require('vm');
const zlib = require('zlib');
const pages = new Map();
let script = null;
let events = [];

const hex = (b) => (b.length ? Buffer.from(b).toString('hex') : '-');
const hexText = (t) => hex(Buffer.from(String(t), 'utf8'));
const bytes = (h) => (h === '-' ? Buffer.alloc(0) : Buffer.from(h, 'hex'));

function show(v) {
    switch (typeof v) {
    case 'number': {
        const b = Buffer.alloc(8);
        b.writeDoubleBE(v);
        return 'n' + b.toString('hex');
    }
    case 'boolean': return v ? 'T' : 'F';
    case 'string': return 's' + hexText(v);
    default: return Array.isArray(v) ? ['[', ...v.map(show), ']'].join(' ') : '?' + hexText(v === null ? 'null' : typeof v);
    }
}
function values(tokens) {
    const stack = [[]];
    for (const t of tokens) {
        const top = stack[stack.length - 1];
        if (t === '[') stack.push([]);
        else if (t === ']') { stack.pop(); stack[stack.length - 1].push(top); }
        else if (t === 'T' || t === 'F') top.push(t === 'T');
        else if (t[0] === 'n') top.push(Buffer.from(t.slice(1), 'hex').readDoubleBE(0));
        else if (t[0] === 's') top.push(bytes(t.slice(1)).toString('utf8'));
        else throw new Error('bad token ' + t);
    }
    return stack[0];
}

function open(id) {
    const page = { id, sent: 0 };
    const emit = (...e) => events.push([id, ...e].join(' '));
    const window = {};
    window.window = window;
    window.location = { port: '9002' };
    window.TextDecoder = TextDecoder;
    window.TextEncoder = TextEncoder;
    window.console = {
        log: (...a) => { if (a.length === 1) emit('log', hexText(a[0])); },
        error: (...a) => emit('error', hexText(a.join(' '))),
    };
    window.document = {
        createElement: (tag) => ({ tag }),
        body: { appendChild: (e) => {
            emit(e.tag === 'script' ? 'script' : 'element', hexText(e.text));
            try { vm.runInContext(e.text, window, { timeout: 2000 }); }
            catch (error) { emit('uncaught', hexText(error)); }
        } },
    };
    window.WebSocket = class {
        constructor(url, protocol) {
            emit('socket', hexText(url), hexText(protocol));
            page.socket = this;
        }
        send(data) {
            if (page.closed) throw new Error('InvalidStateError');
            if (typeof data === 'string') emit('sent', 't', hexText(data));
            else emit('sent', 'b', hex(ArrayBuffer.isView(data) ? Buffer.from(data.buffer, data.byteOffset, data.byteLength) : Buffer.from(data)));
        }
        close() { emit('close'); }
    };
    vm.createContext(window);
    page.window = window;
    page.emit = emit;
    pages.set(id, page);
    script.runInContext(window, { timeout: 5000 });
}

function command(line) {
    const [op, id, ...args] = line.split(' ');
    const page = pages.get(id);
    switch (op) {
    case 'reset': pages.clear(); break;
    case 'script': { // content coding, bytes
        let b = bytes(args[0]);
        if (id === 'gzip') b = zlib.gunzipSync(b);
        else if (id === 'br') b = zlib.brotliDecompressSync(b);
        else if (id === 'deflate') b = zlib.inflateSync(b);
        script = new vm.Script(b.toString('utf8'));
    } break;
    case 'new': open(id); break;
    case 'define': { // a recording function
        const path = bytes(args[0]).toString('utf8').split('.');
        let o = page.window;
        for (const p of path.slice(0, -1)) o = o[p] = o[p] || {};
        o[path[path.length - 1]] = (...a) => page.emit('called', args[0], ...a.map(show));
    } break;
    case 'open': page.socket.onopen({}); break;
    case 'recv': {
        const b = bytes(args[1]);
        const data = args[0] === 't' ? b.toString('utf8') : b.buffer.slice(b.byteOffset, b.byteOffset + b.length);
        try { page.socket.onmessage({ data }); }
        catch (error) { page.emit('uncaught', hexText(error)); }
    } break;
    case 'closed':
        page.closed = true;
        page.socket.onclose({ wasClean: args[0] === '1', code: 1006, reason: '' });
        break;
    case 'call':
        try { page.window.webFront.cppFunction(bytes(args[0]).toString('utf8'))(...values(args.slice(1))); }
        catch (error) { page.emit('thrown', hexText(error)); }
        break;
    default: throw new Error('unknown command ' + op);
    }
}

let pending = [];
process.stdin.on('data', (chunk) => {
    let from = 0;
    for (let i = chunk.indexOf(10); i >= 0; i = chunk.indexOf(10, from)) {
        pending.push(chunk.subarray(from, i));
        const line = Buffer.concat(pending).toString('latin1');
        pending = [];
        from = i + 1;
        events = [];
        try { command(line); }
        catch (error) { events.push('0 failed ' + hexText(error && error.stack)); }
        events.push('.');
        process.stdout.write(events.join('\n') + '\n');
    }
    if (from < chunk.length) pending.push(Buffer.from(chunk.subarray(from)));
});
process.stdin.on('end', () => process.exit(0));
