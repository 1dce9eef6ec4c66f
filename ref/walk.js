// Follows terms through exported indexes as elasticlunr.js does (InvertedIndex.prototype.getNode): by
// the UTF-16 units of the term. Input: one {"x": export as text, "f": field, "r": reference, "t": terms} per line.
// Output: per line the JSON list of the terms that do not lead to the document with a term frequency.
'use strict';
const lines = require('fs').readFileSync(0, 'utf8').split('\n');
const out = [];
for (const line of lines) {
  if (line === '') continue;
  const c = JSON.parse(line);
  const idx = JSON.parse(c.x);
  const bad = [];
  for (const token of c.t) {
    let node = idx.index[c.f].root;
    for (let i = 0; i < token.length; i++) {
      if (node === undefined) break;
      node = Object.prototype.hasOwnProperty.call(node, token[i]) ? node[token[i]] : undefined;
    }
    const d = node === undefined ? undefined : node.docs[c.r];
    if (d === undefined || !(d.tf > 0) || !(node.df > 0) || idx.documentStore.docs[c.r] === undefined) bad.push(token);
  }
  out.push(JSON.stringify(bad));
}
process.stdout.write(out.join('\n') + '\n');
