// Runs /repo/index.js over a stand-in for the compiled addon. Reads one request per line, a list of
// stores (each a list of keys) and a list of steps, and answers with the outcome of every step.
'use strict';
const Module = require('module');
const load = Module._load;
class GridStore {
    constructor(keys) { this.list = keys; }
    get(key) { return ['get', key]; }
}
class GridStoreKeyIterator {
    constructor(store) {
        if (!(store instanceof GridStore)) throw new TypeError('not a store');
        this.list = store.list;
        this.at = 0;
    }
    next() {
        return this.at < this.list.length ? { done: false, value: this.list[this.at++] } : { done: true };
    }
}
const native = {
    GridStoreBuilder: class {}, GridStore, GridStoreKeyIterator,
    coalesce() {}, stackAndCoalesce() {}, stackable() {},
    FuzzyPhraseSetBuilder: class {}, FuzzyPhraseSet: class {},
};
const before = Object.assign({}, native);
Module._load = function (request, parent, main) {
    return /^\.\/native(\/|$)/.test(request) ? native : load.call(this, request, parent, main);
};
const addon = require('/repo/index.js');

function run(req) {
    const out = [];
    const stores = req.stores.map((keys) => new addon.GridStore(keys));
    const iterables = [], iterators = [];
    for (const [op, a, b] of req.steps) {
        switch (op) {
            case 'exports':
                out.push([Object.keys(before).filter((k) => addon[k] !== before[k]), addon.ENDING_TYPE]);
                break;
            case 'get': out.push(stores[a].get(b)); break;
            case 'keys': iterables.push(stores[a].keys()); out.push(null); break;
            case 'spread': out.push([...iterables[a]]); break;
            case 'from': out.push(Array.from(stores[a].keys())); break;
            case 'some': {
                const seen = [];
                if (b > 0) for (const k of iterables[a]) { seen.push(k); if (seen.length >= b) break; }
                out.push(seen);
                break;
            }
            case 'iterator': iterators.push(iterables[a][Symbol.iterator]()); out.push(null); break;
            case 'next': { const n = iterators[a].next(); out.push(n.done ? 'done' : n.value); break; }
            default: throw new Error('unknown step ' + op);
        }
    }
    return out;
}
require('readline').createInterface({ input: process.stdin, terminal: false }).on('line', (line) => {
    let answer;
    try { answer = { ok: run(JSON.parse(line)) }; } catch (e) { answer = { threw: String(e) }; }
    process.stdout.write(JSON.stringify(answer) + '\n');
});
