// prints the syntax trees of JavaScript files as JSON: {file: tree}
const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs');
const K = {};
for (const n of Object.keys(ts.SyntaxKind)) {
    const v = ts.SyntaxKind[n];
    if (typeof v === 'number' && !(v in K) && !/^(First|Last)/.test(n)) K[v] = n;
}
const SKIP = new Set(['parent', 'pos', 'end', 'flags', 'transformFlags', 'modifierFlagsCache', 'id', 'kind', 'jsDoc',
    'symbol', 'locals', 'nextContainer', 'localSymbol', 'emitNode', 'flowNode', 'original', 'endFlowNode', 'returnFlowNode',
    'hasExtendedUnicodeEscape', 'numericLiteralFlags', 'multiLine', 'possiblyExhaustive']);
function dump(n, src) {
    const o = {k: K[n.kind], at: n.pos};
    if (ts.isVariableDeclarationList(n)) o.decl = n.flags & ts.NodeFlags.Const ? 'const' : n.flags & ts.NodeFlags.Let ? 'let' : 'var';
    for (const p of Object.keys(n)) {
        if (SKIP.has(p)) continue;
        const v = n[p];
        if (v === undefined || v === null) continue;
        if (Array.isArray(v)) o[p] = v.map(x => dump(x, src));
        else if (typeof v === 'object' && 'kind' in v) o[p] = dump(v, src);
        else if (p === 'operator') o[p] = ts.tokenToString(v);
        else if (typeof v === 'string' || typeof v === 'boolean' || typeof v === 'number') o[p] = v;
    }
    return o;
}
const out = {};
for (const f of process.argv.slice(2)) {
    const text = fs.readFileSync(f, 'utf8');
    const s = ts.createSourceFile(f, text, ts.ScriptTarget.ESNext, false, ts.ScriptKind.JS);
    if (s.parseDiagnostics.length) {
        console.error(f + ': ' + s.parseDiagnostics.map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n')).join('; '));
        process.exit(1);
    }
    out[f] = s.statements.map(x => dump(x, s));
}
console.log(JSON.stringify(out));
