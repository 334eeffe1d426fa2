// Reads one JSON request per line, answers one JSON line each.
'use strict';
var fs = require('fs'), vm = require('vm'), readline = require('readline');
var RT = null;
function load(path) {
    var M = null;
    var sandbox = vm.createContext({define: function (d, f) { M = f(); }, console: console});
    sandbox.global = sandbox;
    vm.runInContext(fs.readFileSync(path, 'utf8'), sandbox);
    return {rt: M, box: sandbox};
}
var R = null;
function dec(v) {
    // tagged values
    switch (v[0]) {
    case 's': case 'n': case 'b': return v[1];
    case '0': return null;
    case 'u': return undefined;
    case 'm': return R.rt.literal(v[1]);
    case 'B': return build(v[1]);
    case 'e': return R.rt.escape(dec(v[1]));
    case 'l': return v[1].map(dec);
    case 'o': var o = {}; v[1].forEach(function (p) { o[p[0]] = dec(p[1]); }); return o;
    case 'f': return new Function('x', 'return ' + v[1]);
    case 'h': return {html: function () { return v[1]; }, toString: function () { return 'STR<'; }};
    case 't': return new R.rt.BoundTemplate({__main__: function () { return build(v[1]); }});
    case 'A': return R.rt.outputAttrs(dec(v[1]));
    case 'w': return [function (s) { return new (vm.runInContext('String', R.box))(s); }, function (s) { return vm.runInContext('(function (s) { return [s]; })', R.box)(s); }, function (s) { return {s: 'wrong', length: 2, join: 1, value: s, toString: function () { return s; }}; },
        function (s) { return new String(s); }, function (s) { return [s]; }, function (s) { var e = new (vm.runInContext('Error', R.box))(s); e.name = ''; return e; }, function (s) { var f = function () { return 'called'; }; f.toString = function () { return s; }; return f; }][v[1]](v[2]);
    case 'S': return {toString: function () { return v[1]; }};
    }
    throw new Error('tag ' + v[0]);
}
function build(ops) {
    var b = R.rt.Buffer();
    ops.forEach(function (op) {
        if (op[0] === 'out') { b.apply(null, op[1].map(dec)); }
        else if (op[0] === 'esc') { b.escape.apply(null, op[1].map(dec)); }
        else if (op[0] === 'attr') { b.attr(op[1], dec(op[2])); }
        else if (op[0] === 'self') { b(b); }
        else if (op[0] === 'read') { String(b); b.html(); }
        else { throw new Error('op ' + op[0]); }
    });
    return b;
}
function handle(q) {
    if (q.op === 'load') { R = load(q.path); return true; }
    if (q.op === 'str') { return String(dec(q.value)); }
    if (q.op === 'build') { var b = build(q.ops); var s = String(b); if (String(b) !== s || String(b.html()) !== s) { return 'UNSTABLE'; } return s; }
    if (q.op === 'buffers') {      // several buffers written in any order, with sharing
        var bs = q.names.map(function () { return R.rt.Buffer(); }), vals = q.vals.map(dec);
        var get = function (x) { return x[0] === '#' ? bs[x[1]] : x[0] === '%' ? vals[x[1]] : dec(x); };
        q.ops.forEach(function (op) {
            if (op[1] === 'out') { bs[op[0]].apply(null, op[2].map(get)); }
            else if (op[1] === 'esc') { bs[op[0]].escape.apply(null, op[2].map(get)); }
            else { bs[op[0]].attr(op[2], get(op[3])); }
        });
        return bs.map(String);
    }
    if (q.op === 'bind') {
        var ctx = q.bare ? Object.create(null) : {}, out = [];
        Object.keys(q.globals).forEach(function (k) { R.box[k] = dec(q.globals[k]); });
        q.steps.forEach(function (st) {
            if (st[0] === 'add') { R.rt.addToContext(ctx, st[1], dec(st[2])); }
            else { var v = R.rt.bindFromContext(ctx, st[1]); out.push(v === undefined ? '#undefined' : v); }
        });
        Object.keys(q.globals).forEach(function (k) { delete R.box[k]; });
        return [out, ctx];
    }
    if (q.op === 'foreach') { var acc = []; R.rt.foreach(q.list.map(function (x) { return x === 'u!' ? undefined : x; }), function (x) { acc.push(x === undefined ? 'u!' : x); }); return acc; }
    if (q.op === 'many') {
        var b = R.rt.Buffer(), i;
        for (i = 0; i < q.n; i++) { b('x'); }
        var c = R.rt.Buffer(), d = R.rt.Buffer();
        c(b); d('<a>'); d(b); d('</a>');
        var v = [], f = R.rt.Buffer();
        for (i = 0; i < q.n; i++) { v.push(['a', 'b']); }
        f(R.rt.outputAttrs(v));
        return [String(b).length, String(c).length, String(d).length, String(f).length];
    }
    if (q.op === 'template') {
        var T = null;
        R.box.define = function (d, f) { T = f(R.rt); };
        vm.runInContext(q.code, R.box);
        var c = dec(q.ctx), keys = JSON.stringify(Object.keys(c));
        var r = T(c).render(), r2 = T(c).render();
        if (r !== r2) { return {again: r2, first: r}; }
        return {out: r};
    }
    if (q.op === 'chain') {         // templates that extend one another
        var mods = {};
        R.box.require = function (name) {
            if (!Object.prototype.hasOwnProperty.call(mods, name)) {
                var saved = R.box.define;
                R.box.define = function (d, f) { mods[name] = f(R.rt); };
                vm.runInContext(q.sources[name], R.box);
                R.box.define = saved;
            }
            return mods[name];
        };
        return q.order.map(function (name) { return R.box.require(name)(dec(q.ctx)).render(); });
    }
    throw new Error('op ' + q.op);
}
readline.createInterface({input: process.stdin}).on('line', function (line) {
    var res;
    try { res = {ok: handle(JSON.parse(line))}; }
    catch (e) { res = {exc: String(e && e.stack || e).slice(0, 600)}; }
    process.stdout.write(JSON.stringify(res) + '\n');
});
