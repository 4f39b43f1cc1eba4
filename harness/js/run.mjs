// runs the web demo's real modules over a stand-in browser: node run.mjs DIR SPEC.json
// SPEC: {streaming, ptr, size, before: base64 of memory, after: base64 of the frame buffer}
// prints {width, height, pixels: base64} or {error}
import fs from 'fs';
import path from 'path';
import { pathToFileURL } from 'url';
const [dir, specFile] = process.argv.slice(2);
const spec = JSON.parse(fs.readFileSync(specFile, 'utf8'));
const memory = new Uint8Array(Buffer.from(spec.before, 'base64')).slice();
const after = Buffer.from(spec.after, 'base64');
let width = 300, height = 150, px = new Uint8ClampedArray(width * height * 4);
const reset = () => { px = new Uint8ClampedArray(width * height * 4); };
class ImageData {
    constructor(a, b, c) {
        if (typeof a === 'number') { this.width = a; this.height = b; this.data = new Uint8ClampedArray(a * b * 4); }
        else {
            this.data = a; this.width = b; this.height = c === undefined ? a.length / 4 / b : c;
            if (this.width * this.height * 4 !== a.length) throw new Error('ImageData size');
        }
    }
}
const ctx = {
    canvas: null,
    getImageData(x, y, w, h) {
        const d = new ImageData(w, h);
        for (let j = 0; j < h; j++) for (let i = 0; i < w; i++) {
            const X = x + i, Y = y + j;
            if (X < 0 || Y < 0 || X >= width || Y >= height) continue;
            for (let k = 0; k < 4; k++) d.data[(j * w + i) * 4 + k] = px[(Y * width + X) * 4 + k];
        }
        return d;
    },
    createImageData(w, h) { return typeof w === 'number' ? new ImageData(w, h) : new ImageData(w.width, w.height); },
    putImageData(d, x, y, dx = 0, dy = 0, dw = d.width, dh = d.height) {
        for (let j = Math.max(dy, 0); j < Math.min(dy + dh, d.height); j++) for (let i = Math.max(dx, 0); i < Math.min(dx + dw, d.width); i++) {
            const X = x + i, Y = y + j;
            if (X < 0 || Y < 0 || X >= width || Y >= height) continue;
            for (let k = 0; k < 4; k++) px[(Y * width + X) * 4 + k] = d.data[(j * d.width + i) * 4 + k];
        }
    },
    clearRect(x, y, w, h) {
        for (let j = Math.max(y, 0); j < Math.min(y + h, height); j++) for (let i = Math.max(x, 0); i < Math.min(x + w, width); i++)
            for (let k = 0; k < 4; k++) px[(j * width + i) * 4 + k] = 0;
    },
};
const canvas = {
    get width() { return width; }, set width(v) { width = v; reset(); },
    get height() { return height; }, set height(v) { height = v; reset(); },
    getContext: () => ctx, addEventListener() {}, style: {},
};
ctx.canvas = canvas;
const element = () => ({addEventListener() {}, style: {}, appendChild() {}, classList: {add() {}, remove() {}}});
globalThis.document = {
    querySelector: s => s === '#screen' || s === 'canvas' ? canvas : element(),
    getElementById: s => s === 'screen' ? canvas : element(),
    addEventListener(t, f) { if (t === 'DOMContentLoaded') setTimeout(f, 0); }, createElement: element, body: element(),
};
globalThis.window = globalThis;
globalThis.addEventListener = (t, f) => { if (t === 'load') setTimeout(f, 0); };
globalThis.requestAnimationFrame = f => setTimeout(f, 0);
globalThis.ImageData = ImageData;
const exports = {
    memory: {buffer: memory.buffer},
    init() { for (let i = 0; i < after.length; i++) memory[spec.ptr + i] = after[i]; },
    frame_buf_ptr: () => spec.ptr,
};
const result = {instance: {exports}, module: {}};
const W = {
    instantiate(b, imports) {
        return new Promise((ok, bad) => b && b.wasmBytes ? ok(result) : bad(new TypeError('not wasm bytes')));
    },
};
if (spec.streaming) W.instantiateStreaming = (p, imports) => Promise.resolve(p).then(r => { if (!r || !r.isResponse) throw new TypeError('not a response'); return result; });
globalThis.WebAssembly = W;
globalThis.fetch = u => /^(\.\/)?demo\.wasm$/.test(String(u)) ? Promise.resolve({isResponse: true, ok: true, status: 200, arrayBuffer: () => Promise.resolve({wasmBytes: true})}) : Promise.reject(new TypeError('not found: ' + u));
console.log = console.error = console.warn = () => {};
let error = null;
process.on('unhandledRejection', e => { error = String(e); });
process.on('uncaughtException', e => { error = String(e); });
try {
    await import(pathToFileURL(path.join(dir, 'main.js')));
    for (let i = 0; i < 20; i++) await new Promise(r => setTimeout(r, 1));
} catch (e) { error = String(e); }
fs.writeFileSync(spec.out, JSON.stringify({width, height, error, pixels: Buffer.from(px).toString('base64')}));
process.exit(0);
