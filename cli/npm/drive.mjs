// Options and argument lists, and what becomes of them.
import { readFileSync, rmSync, existsSync } from "node:fs";
const [lib, seedArg, casesArg, runsArg, scratch] = process.argv.slice(2);
let state = BigInt(seedArg) * 0x9e3779b97f4a7c15n;
const next = () => {
  state = (state + 0x9e3779b97f4a7c15n) & 0xffffffffffffffffn;
  let z = state;
  z = ((z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n) & 0xffffffffffffffffn;
  z = ((z ^ (z >> 27n)) * 0x94d049bb133111ebn) & 0xffffffffffffffffn;
  return z ^ (z >> 31n);
};
const below = (n) => Number(next() % BigInt(n));
const pick = (a) => a[below(a.length)];
const { optionsToStringArgs } = await import(lib + "/optionsToStringArgs.js");
const index = await import(lib + "/index.js");
const run = index.runSmd ?? index.runGitCliff;

const KEYS = ["help", "version", "verbose", "input", "output", "bumpedVersion", "latest", "topoOrder", "useBranchTags", "noExec", "includePath", "ignoreTags", "skipCommit", "withTagMessage", "githubToken", "fromContext", "aB", "aBC", "a", "utf8Mode", "x86Only", "keepTempFiles", "onParseError"];
const VALUES = ["", " ", "a b", "a.md", "-", "--", "-x", "--help", "true", "false", "null", "undefined", "0", "pdf", "html", "~/x", "$HOME", "*", "a\"b", "a'b", "a\\b", "\\", "a\nb", "\t", "é", "日本語", "🦀", "e\u0301", "%PATH%", "a=b", "--a=b", "x".repeat(5000), ",", "a,b", ";ls", "`id`", "$(id)", "<x>", "|", "&", "#", "@", "camelCase", "UPPER"];
// bytes before and after are not letters that have a lower case
const hyphen = (k) => [...k].map((c) => (c >= "A" && c <= "Z" ? "-" + String.fromCharCode(c.charCodeAt(0) + 32) : c)).join("");
const text = () => (below(3) ? pick(VALUES) : Array.from({ length: below(6) + 1 }, () => pick(VALUES)).join("").slice(0, 200));

function makeOptions() {
  const o = {};
  const want = [];
  const keys = [...KEYS];
  for (let n = below(7); n > 0; n--) {
    const k = keys.splice(below(keys.length), 1)[0];
    const flag = "--" + hyphen(k);
    switch (below(8)) {
      case 0: case 1: o[k] = true; want.push(flag); break;
      case 2: o[k] = false; break;
      case 3: o[k] = null; break;
      case 4: o[k] = undefined; break;
      case 5: {
        o[k] = Array.from({ length: below(5) }, text);
        for (const v of o[k]) want.push(flag, v);
        break;
      }
      default: o[k] = text(); want.push(flag, o[k]);
    }
  }
  return [o, want];
}
const same = (a, b) => a.length === b.length && a.every((v, i) => v === b[i]);
const out = { options: 0, runs: 0, distinct: 0, violations: [], samples: [] };
const seen = new Set();
const note = (what, given, want, got) => out.violations.length < 5 && out.violations.push({ what, given, want, got });

for (let i = 0; i < Number(casesArg); i++) {
  const [o, want] = makeOptions();
  const before = JSON.stringify(o, (k, v) => (v === undefined ? "\u0000undefined" : v));
  let got;
  try { got = optionsToStringArgs(o); } catch (e) { note("options are not accepted: " + e, o, want, null); continue; }
  out.options++;
  if (want.length) seen.add(want.join("\0"));
  if (!Array.isArray(got) || !same(got, want)) note("options become other arguments", o, want, got);
  if (JSON.stringify(o, (k, v) => (v === undefined ? "\u0000undefined" : v)) !== before) note("the options are changed", before, null, o);
}

const record = scratch + "/record";
for (let i = 0; i < Number(runsArg); i++) {
  const asArray = below(2) === 0;
  let [given, want] = makeOptions();
  if (asArray) {
    given = Array.from({ length: below(6) }, text);
    want = [...given];
  }
  const code = pick([0, 0, 0, 1, 2, 3, 101, 255]);
  const env = { SMD_RECORD: record, SMD_EXIT: String(code), SMD_TEST_ENV: "e" + i, SMD_SAY: "out" + i };
  const cwd = pick([scratch, scratch + "/dir with space"]);
  rmSync(record, { force: true });
  let result, failed = null;
  try {
    result = await run(given, { stdio: "pipe", env, cwd });
  } catch (e) {
    failed = e;
  }
  out.runs++;
  if (!existsSync(record)) { note("the binary was not run: " + failed, given, want, null); continue; }
  const fields = readFileSync(record, "utf8").split("\0");
  const n = Number(fields[0]);
  const got = fields.slice(1, n + 1);
  if (!same(got, want)) note("the binary gets other arguments", given, want, got);
  if (fields[n + 1] !== cwd || fields[n + 2] !== "e" + i) note("the options of the process are not used", { cwd, env }, null, fields.slice(n + 1));
  if ((failed === null) !== (code === 0)) note("a run that ends with status " + code + (failed ? " is reported as failed" : " is reported as successful"), given, null, String(failed));
  const said = (result ?? failed)?.stdout;
  if (said !== "out" + i) note("the output of the binary is not returned", given, "out" + i, said);
  if ((result ?? failed)?.exitCode !== code) note("the exit code of the binary is not returned", given, code, (result ?? failed)?.exitCode);
  if (want.length) { seen.add("run\0" + want.join("\0")); if (out.samples.length < 3) out.samples.push({ given, arguments: got }); }
}
out.distinct = seen.size;
console.log(JSON.stringify(out));
