// run.js <wasm_exec.js> <bridge.wasm>: plays the browser.  Every line of
// standard input is a query in JSON; what the bridge says about it is written
// after "=> ".
"use strict";
globalThis.require = require;
globalThis.fs = require("fs");
globalThis.path = require("path");
globalThis.TextEncoder = require("util").TextEncoder;
globalThis.TextDecoder = require("util").TextDecoder;
globalThis.performance ??= require("perf_hooks").performance;
globalThis.crypto ??= require("crypto");
const [, , exec, wasm] = process.argv;
require(exec);
const go = new Go();
go.exit = (code) => process.exit(code || 70);
const ready = new Promise((resolve) => { globalThis.notifyBrowser = resolve; });
WebAssembly.instantiate(fs.readFileSync(wasm), go.importObject).then((r) => go.run(r.instance));
ready.then(() => {
	fs.writeSync(1, "=> ready\n");
	require("readline").createInterface({ input: process.stdin }).on("line", (line) => {
		fs.writeSync(1, "=> " + JSON.stringify(parseAQL(JSON.parse(line))) + "\n");
	}).on("close", () => process.exit(0));
});
