// node run34.js WASM_EXEC_JS MODULE INPUT OUTPUT
// INPUT: JSON list of histories; a history is a list of ["csv"|"formula", text], ["csv"|"formula"] or
// ["csv"|"formula", text, "more"] calls (one, none, several arguments),
// each history that starts with "fresh" gets a new instance of the module.
"use strict";
globalThis.require = require;
globalThis.fs = require("fs");
globalThis.path = require("path");
globalThis.performance ??= require("perf_hooks").performance;
globalThis.crypto ??= require("crypto").webcrypto;
const [exec, file, input, output] = process.argv.slice(2);
require(exec);
const mod = new WebAssembly.Module(fs.readFileSync(file));
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));

async function start() {
	delete globalThis.parseCsv;
	delete globalThis.parseFormula;
	const go = new Go();
	go.exit = () => {};
	go.run(new WebAssembly.Instance(mod, go.importObject)).catch(() => {});
	for (let i = 0; i < 30000 && (!globalThis.parseCsv || !globalThis.parseFormula); i++) await sleep(1);
}

function call(c) {
	try {
		const f = c[0] === "csv" ? globalThis.parseCsv : c[0] === "tiny" ? globalThis.parseCsvTiny : globalThis.parseFormula;
		const v = c.length > 2 ? f(c[1], 1, [c[1], "x"]) : c.length > 1 ? f(c[1]) : f();
		if (c[0] !== "formula") {
			if (!Array.isArray(v)) return { t: "not a list: " + typeof v };
			for (const r of v) {
				if (!Array.isArray(r)) return { t: "row is not a list: " + typeof r };
				for (const x of r) if (typeof x !== "string") return { t: "cell is not text: " + typeof x };
			}
			return { t: "rows", r: v };
		}
		if (typeof v !== "number") return { t: "not a number: " + typeof v };
		return { t: "number", n: String(v) };
	} catch (e) {
		return { t: "exception: " + e };
	}
}

(async () => {
	const histories = JSON.parse(fs.readFileSync(input, "utf8"));
	const out = [];
	let first = true;
	for (const h of histories) {
		if (first || h[0] === "fresh") await start();
		first = false;
		out.push(h.filter((c) => c !== "fresh").map(call));
	}
	fs.writeFileSync(output, JSON.stringify(out));
	process.exit(0);
})();
