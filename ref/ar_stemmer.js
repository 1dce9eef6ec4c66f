// Loads the Arabic stemmer that is shipped for the browser (path in argv[2]) and applies it to each word of
// the JSON array on stdin; writes the results as a JSON array.
'use strict';
const fs = require('fs');
global.self = {};
const lunr = { Pipeline: { registerFunction: function () {} } };
require(process.argv[2])(lunr);
const words = JSON.parse(fs.readFileSync(0, 'utf8'));
process.stdout.write(JSON.stringify(words.map(function (w) { return lunr.ar.stemmer(w); })));
