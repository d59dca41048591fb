// Prints where the binary is looked for.
const { getExePath } = await import(process.argv[2] + "/getExePath.js");
try {
  console.log(JSON.stringify({ url: await getExePath() }));
} catch (e) {
  console.log(JSON.stringify({ error: String(e.message ?? e) }));
}
