// node run.mjs MODULE IMAGE: run the operations on standard input.
import fs from "node:fs";
const [, , module, image] = process.argv;
const lines = [];
let mem;
const done = (code) => {
  fs.writeSync(1, lines.join("\n") + "\n");
  process.exit(code);
};
const { instance } = await WebAssembly.instantiate(fs.readFileSync(module), {
  env: { out: (p, n) => lines.push(Buffer.from(new Uint8Array(mem.buffer, p >>> 0, n >>> 0)).toString()) },
});
mem = instance.exports.memory;
const put = (b) => {
  const p = instance.exports.buffer(b.length) >>> 0;
  new Uint8Array(mem.buffer, p, b.length).set(b);
  return p;
};
const img = fs.readFileSync(image);
const ops = fs.readFileSync(0);
const a = put(img);
const b = put(ops);
try {
  instance.exports.run(a, img.length, b, ops.length);
} catch (e) {
  lines.push("trap: " + e);
  done(3);
}
done(0);
