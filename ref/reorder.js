// Reads a JSON array of JSON texts; writes the array of what JavaScript makes of each: JSON.stringify(JSON.parse(text)).
const fs = require('fs');
const v = JSON.parse(fs.readFileSync(0, 'utf8'));
process.stdout.write(JSON.stringify(v.map(s => JSON.stringify(JSON.parse(s)))));
