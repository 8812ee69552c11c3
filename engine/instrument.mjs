// TypeScript -> instrumented JavaScript (calls into the $S runtime).
import { createRequire } from "node:module";
const require = createRequire(import.meta.url);
const ts = require("/opt/veriftools/node/node_modules/typescript");
const K = ts.SyntaxKind;
const f = ts.factory;

export function transpile(source, fileName) {
  return ts.transpileModule(source, {
    fileName,
    compilerOptions: {
      target: ts.ScriptTarget.ES2019,
      module: ts.ModuleKind.ESNext,
      removeComments: true,
      verbatimModuleSyntax: false,
      isolatedModules: true,
      importHelpers: false,
      useDefineForClassFields: false,
    },
  }).outputText;
}
/** Plain transpilation (types stripped), for replays on the real code. */
export function transpilePlain(source, fileName) {
  return ts.transpileModule(source, {
    fileName,
    compilerOptions: {
      target: ts.ScriptTarget.ES2022,
      module: ts.ModuleKind.ESNext,
      isolatedModules: true,
      useDefineForClassFields: true,
    },
  }).outputText;
}

const S = (name) => f.createPropertyAccessExpression(f.createIdentifier("$S"), name);
const call = (name, ...args) => f.createCallExpression(S(name), undefined, args);
const thunk = (e) => f.createArrowFunction(undefined, undefined, [], undefined, f.createToken(K.EqualsGreaterThanToken), f.createParenthesizedExpression(e));

const CMP = {
  [K.EqualsEqualsEqualsToken]: "eq", [K.ExclamationEqualsEqualsToken]: "ne",
  [K.EqualsEqualsToken]: "leq", [K.ExclamationEqualsToken]: "lne",
  [K.LessThanToken]: "lt", [K.LessThanEqualsToken]: "le",
  [K.GreaterThanToken]: "gt", [K.GreaterThanEqualsToken]: "ge",
};
const ARITH = {
  [K.MinusToken]: "-", [K.AsteriskToken]: "*", [K.SlashToken]: "/", [K.PercentToken]: "%",
  [K.AsteriskAsteriskToken]: "**", [K.AmpersandToken]: "&", [K.BarToken]: "|", [K.CaretToken]: "^",
  [K.LessThanLessThanToken]: "<<", [K.GreaterThanGreaterThanToken]: ">>", [K.GreaterThanGreaterThanGreaterThanToken]: ">>>",
};
const COMPOUND = {
  [K.PlusEqualsToken]: "+", [K.MinusEqualsToken]: "-", [K.AsteriskEqualsToken]: "*", [K.SlashEqualsToken]: "/",
  [K.PercentEqualsToken]: "%", [K.AmpersandEqualsToken]: "&", [K.BarEqualsToken]: "|", [K.CaretEqualsToken]: "^",
  [K.LessThanLessThanEqualsToken]: "<<", [K.GreaterThanGreaterThanEqualsToken]: ">>", [K.GreaterThanGreaterThanGreaterThanEqualsToken]: ">>>",
  [K.AsteriskAsteriskEqualsToken]: "**",
};

function isNullish(n) {
  n = unparen(n);
  return n.kind === K.NullKeyword || (ts.isIdentifier(n) && n.text === "undefined") || ts.isVoidExpression(n);
}
function unparen(n) {
  while (ts.isParenthesizedExpression(n)) n = n.expression;
  return n;
}
// contains await / yield outside nested functions
function suspends(n) {
  let r = false;
  const w = (x) => {
    if (r || ts.isFunctionLike(x) || ts.isClassLike(x)) return;
    if (ts.isAwaitExpression(x) || ts.isYieldExpression(x)) { r = true; return; }
    ts.forEachChild(x, w);
  };
  w(n);
  return r;
}
// side-effect free & cheap & exception free: safe to evaluate eagerly
function pure(n) {
  n = unparen(n);
  if (ts.isIdentifier(n) || ts.isNumericLiteral(n) || ts.isStringLiteral(n) || ts.isBigIntLiteral?.(n) || ts.isNoSubstitutionTemplateLiteral(n)) return true;
  if ([K.TrueKeyword, K.FalseKeyword, K.NullKeyword].includes(n.kind)) return true;
  if (ts.isPrefixUnaryExpression(n)) return (n.operator === K.ExclamationToken || n.operator === K.MinusToken) && pure(n.operand);
  if (ts.isTypeOfExpression(n)) return pure(n.expression);
  if (ts.isBinaryExpression(n)) {
    const o = n.operatorToken.kind;
    return (o in CMP || [K.PlusToken, K.MinusToken, K.AmpersandAmpersandToken, K.BarBarToken].includes(o)) && pure(n.left) && pure(n.right);
  }
  return false;
}
// native-boolean valued expression that can never be symbolic
function nativeBool(n) {
  n = unparen(n);
  if (n.kind === K.TrueKeyword || n.kind === K.FalseKeyword) return true;
  if (ts.isBinaryExpression(n)) {
    const o = n.operatorToken.kind;
    if ((o === K.EqualsEqualsEqualsToken || o === K.ExclamationEqualsEqualsToken || o === K.EqualsEqualsToken || o === K.ExclamationEqualsToken) && (isNullish(n.left) || isNullish(n.right))) return true;
    if (o === K.InstanceOfKeyword || o === K.InKeyword) return true;
    if (o === K.AmpersandAmpersandToken || o === K.BarBarToken) return nativeBool(n.left) && nativeBool(n.right);
  }
  if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) return nativeBool(n.operand);
  return false;
}

export function instrument(jsText, fileName, { resolveImport, rtPath, foreignImports }) {
  const sf = ts.createSourceFile(fileName, jsText, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  const pre = []; // extra top-level statements
  const post = [];

  const transformer = (ctx) => {
    const visit = (n) => visitNode(n);
    const kids = (n) => ts.visitEachChild(n, visit, ctx);

    const cond = (n) => { // expression in a boolean context -> native boolean
      n = ts.isParenthesizedExpression(n) ? unparen(n) : n;
      if (ts.isBinaryExpression(n)) {
        const o = n.operatorToken.kind;
        if (o === K.AmpersandAmpersandToken || o === K.BarBarToken) {
          if (!nativeBool(n) && pure(n.right) && pureLeft(n.left)) return call("t", visit(n));
          return f.createParenthesizedExpression(f.createBinaryExpression(cond(n.left), n.operatorToken, cond(n.right)));
        }
      }
      if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) {
        return f.createPrefixUnaryExpression(K.ExclamationToken, f.createParenthesizedExpression(cond(n.operand)));
      }
      if (nativeBool(n)) return kidsOf(n);
      return call("t", visit(n));
    };
    const pureLeft = (n) => {
      n = unparen(n);
      // the left operand may be anything that is visited as a value
      return !suspends(n);
    };
    const kidsOf = (n) => visit(n);

    const args = (list) => list.map((a) => visit(a));

    function logical(n) {
      const and = n.operatorToken.kind === K.AmpersandAmpersandToken;
      if (nativeBool(n.left) && nativeBool(n.right)) return kids(n);
      if (pure(n.right) && !suspends(n.right)) {
        return call(and ? "andP" : "orP", visit(n.left), thunk(visit(n.right)));
      }
      const test = call("p", visit(n.left));
      return f.createParenthesizedExpression(
        and
          ? f.createConditionalExpression(test, undefined, visit(n.right), undefined, S("l"))
          : f.createConditionalExpression(test, undefined, S("l"), undefined, visit(n.right)),
      );
    }
    // assignment target: keep its shape, visit only sub-expressions that are reads
    function target(n) {
      if (ts.isParenthesizedExpression(n)) return f.createParenthesizedExpression(target(n.expression));
      if (ts.isPropertyAccessExpression(n)) return f.updatePropertyAccessExpression(n, visit(n.expression), n.name);
      if (ts.isElementAccessExpression(n)) return f.updateElementAccessExpression(n, visit(n.expression), visit(n.argumentExpression));
      if (ts.isArrayLiteralExpression(n)) return f.updateArrayLiteralExpression(n, n.elements.map((e) => ts.isSpreadElement(e) ? f.updateSpreadElement(e, target(e.expression)) : ts.isBinaryExpression(e) ? f.updateBinaryExpression(e, target(e.left), e.operatorToken, visit(e.right)) : target(e)));
      if (ts.isObjectLiteralExpression(n)) return n; // rare; leave
      return n;
    }

    function visitNode(n) {
      if (ts.isImportDeclaration(n) || (ts.isExportDeclaration(n) && n.moduleSpecifier)) {
        const spec = n.moduleSpecifier.text;
        const r = resolveImport(spec);
        const lit = f.createStringLiteral(r.path);
        if (ts.isImportDeclaration(n)) {
          if (r.foreign) {
            const c = n.importClause;
            const names = [];
            if (c) {
              if (c.name) names.push(c.name.text);
              if (c.namedBindings) {
                if (ts.isNamespaceImport(c.namedBindings)) names.push(c.namedBindings.name.text);
                else for (const e of c.namedBindings.elements) names.push(e.name.text);
              }
            }
            for (const nm of names) pre.push(`$S.foreign(${nm});`);
          }
          return f.updateImportDeclaration(n, n.modifiers, n.importClause, lit, r.json ? n.attributes : undefined);
        }
        return f.updateExportDeclaration(n, n.modifiers, n.isTypeOnly, n.exportClause, lit, undefined);
      }
      if (ts.isBinaryExpression(n)) {
        const o = n.operatorToken.kind;
        if (o in CMP) {
          if ((isNullish(n.left) || isNullish(n.right)) && o !== K.LessThanToken) {
            if ([K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken, K.EqualsEqualsToken, K.ExclamationEqualsToken].includes(o)) return kids(n);
          }
          return call(CMP[o], visit(n.left), visit(n.right));
        }
        if (o === K.PlusToken) return call("add", visit(n.left), visit(n.right));
        if (o in ARITH) return call("arith", f.createStringLiteral(ARITH[o]), visit(n.left), visit(n.right));
        if (o === K.AmpersandAmpersandToken || o === K.BarBarToken) return logical(n);
        if (o === K.InKeyword && !ts.isPrivateIdentifier(n.left)) return call("has", visit(n.left), visit(n.right));
        if (o in COMPOUND) {
          const op = COMPOUND[o];
          const mk = (l, r) => op === "+" ? call("add", l, r) : call("arith", f.createStringLiteral(op), l, r);
          const L = unparen(n.left);
          if (ts.isIdentifier(L)) return f.createBinaryExpression(L, K.EqualsToken, mk(L, visit(n.right)));
          if (ts.isPropertyAccessExpression(L) && (ts.isIdentifier(L.expression) || L.expression.kind === K.ThisKeyword)) {
            return f.createBinaryExpression(L, K.EqualsToken, mk(L, visit(n.right)));
          }
          if (ts.isElementAccessExpression(L) && ts.isIdentifier(L.expression) && pure(L.argumentExpression)) {
            const k = visit(L.argumentExpression);
            return call("setidx", L.expression, k, mk(call("idx", L.expression, k), visit(n.right)));
          }
          return f.updateBinaryExpression(n, target(n.left), n.operatorToken, visit(n.right));
        }
        if (o === K.EqualsToken) {
          const L = unparen(n.left);
          if (ts.isElementAccessExpression(L) && L.expression.kind !== K.SuperKeyword) {
            return call("setidx", visit(L.expression), visit(L.argumentExpression), visit(n.right));
          }
          return f.updateBinaryExpression(n, target(n.left), n.operatorToken, visit(n.right));
        }
        return kids(n);
      }
      if (ts.isPrefixUnaryExpression(n)) {
        switch (n.operator) {
          case K.ExclamationToken: return nativeBool(n.operand) ? kids(n) : call("not", visit(n.operand));
          case K.MinusToken: return ts.isNumericLiteral(n.operand) ? n : call("neg", visit(n.operand));
          case K.PlusToken: return call("plus", visit(n.operand));
          case K.TildeToken: return call("bnot", visit(n.operand));
          case K.PlusPlusToken: case K.MinusMinusToken: {
            const L = unparen(n.operand), fn = n.operator === K.PlusPlusToken ? "inc" : "dec";
            if (ts.isIdentifier(L)) return f.createParenthesizedExpression(f.createBinaryExpression(L, K.EqualsToken, call(fn, L)));
            return f.updatePrefixUnaryExpression(n, target(n.operand));
          }
        }
        return kids(n);
      }
      if (ts.isPostfixUnaryExpression(n)) {
        const L = unparen(n.operand), fn = n.operator === K.PlusPlusToken ? "inc" : "dec";
        const stmt = ts.isExpressionStatement(n.parent) || (ts.isForStatement(n.parent) && n.parent.incrementor === n);
        if (stmt && ts.isIdentifier(L)) return f.createBinaryExpression(L, K.EqualsToken, call(fn, L));
        return f.updatePostfixUnaryExpression(n, target(n.operand));
      }
      if (ts.isTypeOfExpression(n)) {
        if (ts.isIdentifier(n.expression)) {
          return f.createParenthesizedExpression(f.createConditionalExpression(
            f.createBinaryExpression(f.createTypeOfExpression(n.expression), K.EqualsEqualsEqualsToken, f.createStringLiteral("object")), undefined,
            call("ty", n.expression), undefined, f.createTypeOfExpression(n.expression)));
        }
        return call("ty", visit(n.expression));
      }
      if (ts.isConditionalExpression(n)) {
        if (!nativeBool(n.condition) && pure(n.whenTrue) && pure(n.whenFalse)) {
          return call("iteP", visit(n.condition), thunk(visit(n.whenTrue)), thunk(visit(n.whenFalse)));
        }
        return f.createParenthesizedExpression(f.createConditionalExpression(cond(n.condition), undefined, visit(n.whenTrue), undefined, visit(n.whenFalse)));
      }
      if (ts.isIfStatement(n)) return f.updateIfStatement(n, cond(n.expression), visit(n.thenStatement), n.elseStatement && visit(n.elseStatement));
      if (ts.isWhileStatement(n)) return f.updateWhileStatement(n, cond(n.expression), visit(n.statement));
      if (ts.isDoStatement(n)) return f.updateDoStatement(n, visit(n.statement), cond(n.expression));
      if (ts.isForStatement(n)) {
        return f.updateForStatement(n, n.initializer && visit(n.initializer), n.condition && cond(n.condition), n.incrementor && visit(n.incrementor), visit(n.statement));
      }
      if (ts.isForOfStatement(n)) {
        const init = ts.isVariableDeclarationList(n.initializer) ? kids(n.initializer) : target(n.initializer);
        return f.updateForOfStatement(n, n.awaitModifier, init, visit(n.expression), visit(n.statement));
      }
      if (ts.isForInStatement(n)) {
        return f.updateForInStatement(n, n.initializer, visit(n.expression), visit(n.statement));
      }
      if (ts.isSwitchStatement(n)) {
        const cases = n.caseBlock.clauses.filter((c) => ts.isCaseClause(c));
        const susp = cases.some((c) => suspends(c.expression));
        const body = f.updateCaseBlock(n.caseBlock, n.caseBlock.clauses.map((c) =>
          ts.isCaseClause(c) ? f.updateCaseClause(c, visit(c.expression), c.statements.map(visit)) : f.updateDefaultClause(c, c.statements.map(visit))));
        const subj = susp || cases.some((c) => !pure(c.expression) )
          ? visit(n.expression)
          : call("sw", visit(n.expression), f.createArrayLiteralExpression(cases.map((c) => thunk(visit(c.expression)))));
        if (cases.length && unparen(n.expression).kind === K.TrueKeyword) {
          // switch (true): each case is a condition
          return f.updateSwitchStatement(n, n.expression, f.updateCaseBlock(n.caseBlock, n.caseBlock.clauses.map((c) =>
            ts.isCaseClause(c) ? f.updateCaseClause(c, call("t", visit(c.expression)), c.statements.map(visit)) : f.updateDefaultClause(c, c.statements.map(visit)))));
        }
        return f.updateSwitchStatement(n, subj, body);
      }
      if (ts.isTemplateExpression(n)) {
        return call("tpl",
          f.createArrayLiteralExpression([n.head.text, ...n.templateSpans.map((s) => s.literal.text)].map((x) => f.createStringLiteral(x))),
          f.createArrayLiteralExpression(n.templateSpans.map((s) => visit(s.expression))));
      }
      if (ts.isTaggedTemplateExpression(n)) {
        return f.updateTaggedTemplateExpression(n, n.tag, undefined, ts.isTemplateExpression(n.template)
          ? f.updateTemplateExpression(n.template, n.template.head, n.template.templateSpans.map((s) => f.updateTemplateSpan(s, visit(s.expression), s.literal)))
          : n.template);
      }
      if (ts.isElementAccessExpression(n)) {
        if (n.expression.kind === K.SuperKeyword) return kids(n);
        return call("idx", visit(n.expression), visit(n.argumentExpression));
      }
      if (ts.isDeleteExpression(n)) return f.updateDeleteExpression(n, target(n.expression));
      if (ts.isCallExpression(n)) {
        const callee = unparen(n.expression);
        if (callee.kind === K.SuperKeyword) {
          return f.createCallExpression(callee, undefined, [f.createSpreadElement(call("sup", f.createNull(), f.createArrayLiteralExpression(args(n.arguments))))]);
        }
        if (callee.kind === K.ImportKeyword) return kids(n);
        if (ts.isPropertyAccessExpression(callee)) {
          if (callee.expression.kind === K.SuperKeyword || ts.isPrivateIdentifier(callee.name)) return f.updateCallExpression(n, n.expression, undefined, args(n.arguments));
          return call("m", visit(callee.expression), f.createStringLiteral(callee.name.text), ...args(n.arguments));
        }
        if (ts.isElementAccessExpression(callee) && callee.expression.kind !== K.SuperKeyword) {
          return call("m", visit(callee.expression), visit(callee.argumentExpression), ...args(n.arguments));
        }
        return call("c", visit(n.expression), ...args(n.arguments));
      }
      if (ts.isNewExpression(n)) return call("n", visit(n.expression), ...args(n.arguments ?? []));
      if (ts.isIdentifier(n) || ts.isRegularExpressionLiteral(n)) return n;
      return kids(n);
    }
    return (root) => ts.visitNode(root, (n) => ts.visitEachChild(n, visit, ctx));
  };
  const out = ts.transform(sf, [transformer]);
  const printer = ts.createPrinter({ removeComments: true });
  let text = printer.printFile(out.transformed[0]);
  out.dispose();
  // imports are hoisted, so the runtime import and foreign registrations can follow
  return `import * as $S from ${JSON.stringify(rtPath)};\n${text}\n${pre.join("\n")}\n`;
}

/** `import("…")` of a named module, like the static imports. */
export function rewriteDynamic(jsText, fileName, resolveImport) {
  if (!jsText.includes("import(")) return jsText;
  const sf = ts.createSourceFile(fileName, jsText, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  const edits = [];
  const w = (n) => {
    if (ts.isCallExpression(n) && n.expression.kind === K.ImportKeyword && n.arguments.length && ts.isStringLiteral(n.arguments[0])) {
      const r = resolveImport(n.arguments[0].text);
      edits.push([n.arguments[0].getStart(), n.arguments[0].getEnd(), JSON.stringify(r.path)]);
    }
    ts.forEachChild(n, w);
  };
  w(sf);
  for (const [a, b, s] of edits.reverse()) jsText = jsText.slice(0, a) + s + jsText.slice(b);
  return jsText;
}

/** Plain module: only rewrite import specifiers. */
export function rewriteImports(jsText, fileName, { resolveImport }) {
  const sf = ts.createSourceFile(fileName, jsText, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  const edits = [];
  for (const st of sf.statements) {
    if ((ts.isImportDeclaration(st) || ts.isExportDeclaration(st)) && st.moduleSpecifier) {
      const r = resolveImport(st.moduleSpecifier.text);
      edits.push([st.moduleSpecifier.getStart(), st.moduleSpecifier.getEnd(), JSON.stringify(r.path)]);
    }
  }
  edits.sort((a, b) => b[0] - a[0]);
  for (const [a, b, s] of edits) jsText = jsText.slice(0, a) + s + jsText.slice(b);
  return jsText;
}
export { ts };

/** Replace the bodies of named top-level functions (a stated cut). */
export function stubFunctions(js, fileName, stubs) {
  const sf = ts.createSourceFile(fileName, js, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  const edits = [], applied = [];
  for (const st of sf.statements) {
    if (ts.isFunctionDeclaration(st) && st.name && st.body && stubs[st.name.text] !== undefined) {
      edits.push([st.body.getStart(sf), st.body.end, `{ ${stubs[st.name.text]} }`]);
      applied.push(st.name.text);
    }
  }
  for (const [a, b, t] of edits.reverse()) js = js.slice(0, a) + t + js.slice(b);
  return { text: js, applied };
}
export function countFunctions(js, fileName) {
  const sf = ts.createSourceFile(fileName, js, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  let n = 0;
  const w = (x) => {
    if (ts.isFunctionLike(x)) n++;
    ts.forEachChild(x, w);
  };
  w(sf);
  return n;
}
