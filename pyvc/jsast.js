// prints the syntax tree of a JavaScript file as JSON (TypeScript's parser); part of the checks of the JavaScript runtime
const fs = require("fs");
let ts;
for (const p of ["typescript", "/opt/veriftools/node/node_modules/typescript"]) {
    try { ts = require(p); break; } catch (e) { }
}
const text = fs.readFileSync(process.argv[2], "utf-8");
const file = ts.createSourceFile("x.js", text, ts.ScriptTarget.Latest, false, ts.ScriptKind.JS);
if (file.parseDiagnostics.length) {
    console.log(JSON.stringify({ error: file.parseDiagnostics.map(d => "line " + (file.getLineAndCharacterOfPosition(d.start).line + 1) + ": " + ts.flattenDiagnosticMessageText(d.messageText, " ")).join("; ") }));
    process.exit(0);
}
const skip = new Set(["pos", "end", "flags", "parent", "modifierFlagsCache", "transformFlags", "id", "symbol", "locals", "nextContainer", "localSymbol", "flowNode", "emitNode", "original", "jsDoc", "kind", "endOfFileToken", "hasExtendedUnicodeEscape", "numericLiteralFlags"]);
function conv(n) {
    const o = { k: ts.SyntaxKind[n.kind] };
    // names with several meanings
    for (const [a, b] of [["FirstLiteralToken", "NumericLiteral"], ["FirstTemplateToken", "NoSubstitutionTemplateLiteral"], ["FirstStatement", "VariableStatement"]]) if (o.k === a) o.k = b;
    o.line = file.getLineAndCharacterOfPosition(Math.max(n.pos, 0)).line + 1;
    o.pos = n.pos; o.end = n.end;
    for (const k of Object.keys(n)) {
        if (skip.has(k)) continue;
        const v = n[k];
        if (v === undefined || v === null || typeof v === "function") continue;
        if (Array.isArray(v)) o[k] = v.map(x => x && typeof x === "object" ? conv(x) : x);
        else if (typeof v === "object") { if (typeof v.kind === "number") o[k] = conv(v); }
        else if (k === "operator") o[k] = ts.tokenToString(v);
        else o[k] = v;
    }
    if (n.kind >= ts.SyntaxKind.FirstToken && n.kind <= ts.SyntaxKind.LastToken && ts.tokenToString(n.kind)) o.tok = ts.tokenToString(n.kind);
    if (n.kind === ts.SyntaxKind.Identifier) o.text = ts.idText(n);
    if (n.flags & ts.NodeFlags.Let) o.decl = "let";
    if (n.flags & ts.NodeFlags.Const) o.decl = "const";
    return o;
}
const out = { k: "SourceFile", statements: file.statements.map(conv) };
console.log(JSON.stringify(out));
