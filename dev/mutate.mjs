// dev/mutate.mjs SRC-ROOT FILE N SEED: prints JSON lines {file, pos, end, new, op, line} of sampled mutants
import { createRequire } from "node:module";
import { readFileSync } from "node:fs";
const require = createRequire("/opt/veriftools/node/node_modules/");
const ts = require("typescript");
const [root, file, n, seed] = process.argv.slice(2);
const text = readFileSync(root + "/" + file, "utf8");
const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
const out = [];
const K = ts.SyntaxKind;
const add = (node, repl, op, start) => out.push({ file, pos: start ?? node.getStart(), end: node.getEnd(), new: repl, op, line: sf.getLineAndCharacterOfPosition(node.getStart()).line + 1 });
const SWAP = { "<": "<=", "<=": "<", ">": ">=", ">=": ">", "&&": "||", "||": "&&", "+": "-", "-": "+", "===": "!==", "!==": "===" };
(function walk(node) {
  if (ts.isTypeNode(node) || ts.isInterfaceDeclaration(node) || ts.isTypeAliasDeclaration(node) || ts.isImportDeclaration(node)) return;
  if (ts.isThrowStatement(node)) return;
  if (ts.isBinaryExpression(node)) {
    const o = node.operatorToken.getText();
    if (SWAP[o] && !(o === "+" && /["'`]/.test(node.getText()))) add(node.operatorToken, SWAP[o], o);
    if (o === "&&" || o === "||") { add(node, node.left.getText(), "drop-right"); add(node, node.right.getText(), "drop-left"); }
    if (o === "??") { add(node, node.right.getText(), "??right"); add(node, node.left.getText(), "??left"); }
  }
  if (ts.isPrefixUnaryExpression(node) && node.operator === K.ExclamationToken) add(node, node.operand.getText(), "not");
  if (ts.isIfStatement(node)) { add(node.expression, "false", "if-false"); if (!node.elseStatement) add(node.expression, "true", "if-true"); }
  if (ts.isConditionalExpression(node)) { add(node, `(${node.whenTrue.getText()})`, "?true"); add(node, `(${node.whenFalse.getText()})`, "?false"); }
  if (ts.isExpressionStatement(node) && !ts.isStringLiteral(node.expression)) add(node, ";", "drop-stmt");
  if (ts.isContinueStatement(node) || ts.isBreakStatement(node) && !ts.isCaseClause(node.parent)) add(node, ";", "drop-jump");
  if (ts.isObjectLiteralExpression(node)) for (const p of node.properties) if (ts.isSpreadAssignment(p) || ts.isPropertyAssignment(p) && node.properties.length > 1) out.push({ file, pos: p.getFullStart(), end: p.getEnd() + (text[p.getEnd()] === "," ? 1 : 0), new: "", op: "drop-prop", line: sf.getLineAndCharacterOfPosition(p.getStart()).line + 1 });
  if (ts.isArrayLiteralExpression(node)) for (const p of node.elements) if (ts.isSpreadElement(p)) out.push({ file, pos: p.getFullStart(), end: p.getEnd() + (text[p.getEnd()] === "," ? 1 : 0), new: "", op: "drop-elem", line: sf.getLineAndCharacterOfPosition(p.getStart()).line + 1 });
  if (ts.isNumericLiteral(node) && !ts.isPropertyAssignment(node.parent)) add(node, String(Number(node.text) + 1), "num");
  if (ts.isCallExpression(node) && ts.isPropertyAccessExpression(node.expression)) {
    const m = node.expression.name.text, o = node.expression.expression.getText(), a = node.arguments.map((x) => x.getText()).join(", ");
    const alt = { startsWith: "includes", endsWith: "includes", some: "every", every: "some", indexOf: "lastIndexOf", toLowerCase: "", trim: "", slice: "", lastIndexOf: "indexOf", find: "findLast", filter: "" }[m];
    if (alt !== undefined) add(node, alt ? `${o}.${alt}(${a})` : o, "call-" + m);
  }
  if (ts.isRegularExpressionLiteral(node)) {
    const t = node.getText();
    if (/\+/.test(t)) add(node, t.replace("+", "*"), "re+");
    if (/\$\//.test(t)) add(node, t.replace("$/", "/"), "re$");
    if (/\/[a-z]*g/.test(t.slice(t.lastIndexOf("/")))) add(node, t.slice(0, t.lastIndexOf("/")) + t.slice(t.lastIndexOf("/")).replace("g", ""), "re-g");
  }
  ts.forEachChild(node, walk);
})(sf);
let s = Number(seed) * 2654435761 >>> 0;
const rnd = () => { s ^= s << 13; s >>>= 0; s ^= s >>> 17; s ^= s << 5; s >>>= 0; return s / 4294967296; };
for (let i = 0; i < 20; i++) rnd();
for (let i = out.length - 1; i > 0; i--) { const j = Math.floor(rnd() * (i + 1)); [out[i], out[j]] = [out[j], out[i]]; }
console.error(file, out.length);
for (const m of out.slice(0, Number(n))) console.log(JSON.stringify(m));
