#!/usr/bin/env python3
"""cond.py RESULTS.jsonl N SEED: turns N edits that run.py saw noticed into edits that are active only
under a rare condition on the state (a copy of the function with the edit is called when it holds).
Prints JSON lines for run.py. Development aid: finds where the generators do not go."""
import json, random, re, sys
R = '/repo/'
P = ["p.offset-p.docOffset > 66000", "p.offset-p.docOffset > 9000", "p.docOffset > 0 && p.encoding == common.FormatAscii",
 "p.docOffset > 300", "p.depth > 130", "p.depth == 17", "p.depth == 6 && p.nsAware", "p.attrCount > 40", "p.attrCount == 7 && p.depth > 2", "p.prefixedAttCount > 9",
 "p.nsAware && p.nsBuffer3.GetSize() > 70", "p.nsBuffer3.GetSize() == 9", "p.vtdBuffer.GetSize() > 5000", "p.vtdBuffer.GetSize() == 64", "p.docTypeSeen && p.depth > 3",
 "!p.shallowDepth && p.lastDepth == 4", "p.bomDetected && p.isXml", "p.currentChar > 0xFFFF", "p.currentChar >= 0x2000 && p.currentChar < 0x3000",
 "p.currentChar >= 0x80 && p.currentChar < 0x100", "p.length1 > 300", "p.length2 > 20", "p.length2 > 0 && p.depth > 4", "p.bufferReuse && p.depth > 1", "p.offset == p.endOffset",
 "p.offset >= p.endOffset-1", "p.lastL1Index > 40", "p.l2Buffer.GetSize() > 33", "p.encoding == common.FormatAscii && p.depth > 0", "p.ws && p.depth > 1",
 "p.docLength > 1024*64", "p.docLength%64 == 0 && p.depth > 1", "p.docTypeSeen && p.isXml",
 "p.offset > 4 && p.xmlDoc[p.offset-2] == '\\n' && p.xmlDoc[p.offset-3] == '\\r'", "p.offset > 4 && p.xmlDoc[p.offset-2] == ';'", "p.offset > 4 && p.xmlDoc[p.offset-2] == ']'",
 "p.offset > 4 && p.xmlDoc[p.offset-2] == '>' && p.xmlDoc[p.offset-3] == '/'", "p.offset > 4 && p.xmlDoc[p.offset-2] == '\\t'"]
for t in range(0, 12):
    P.append("func() bool { v, e := p.vtdBuffer.LongAt(p.vtdBuffer.GetSize() - 1); return e == nil && uint64(v)>>60 == %d && p.depth > 0 }()" % t)
    P.append("func() bool { v, e := p.vtdBuffer.LongAt(p.vtdBuffer.GetSize() - 2); return e == nil && uint64(v)>>60 == %d && p.depth > 1 }()" % t)
N = ["n.context[0] > 6", "n.context[0] == 3", "n.context[0] == 1 && n.l1index > 20", "n.l2index > 9", "n.l3lower > 50", "n.l3index > 40", "n.encoding == common.FormatAscii", "n.offset > 0",
 "!n.nsAware && n.context[0] > 2", "n.vtdBuffer.GetSize() > 3000", "n.rootIndex > 20", "n.context[0] == 2 && n.l2upper-n.l2lower > 5", "n.context[0] > 130", "n.xmlBuffer.GetSize() > 70000"]
D = ["r.offset > 66000", "r.offset == r.endOffset-1", "r.offset > 3 && r.offset < len(r.xmlDoc) && r.xmlDoc[r.offset-1] > 0xEF", "r.endOffset < len(r.xmlDoc)", "r.offset > 2 && r.offset < len(r.xmlDoc) && r.xmlDoc[r.offset-1] == '\\r'"]
B = ["b.size > 3*b.pageSize", "b.size == b.pageSize", "b.size == 0", "b.pageSize == 1", "b.pageSize > 1024", "b.size > 0 && b.size%b.pageSize == 0"]
rng = random.Random(int(sys.argv[3]))
res = [json.loads(l) for l in open(sys.argv[1])]
res = [m for m in res if m['r'] not in ('nobuild', 'tests', 'SURVIVED')]
if len(sys.argv) > 4: res = [m for m in res if sys.argv[4] in m['file']]
out = 0
while out < int(sys.argv[2]):
    m = rng.choice(res)
    s = open(R + m['file'], 'rb').read()
    f0 = None
    for k in re.finditer(rb'^func \((\w+) \*?(\w+)\) (\w+)\(([^()\n]*)\)([^\n]*)\{\n', s, re.M):
        e = s.index(b'\n}\n', k.start()) + 3
        if k.end() <= m['off'] and m['end'] <= e: f0 = (k, e)
    if not f0: continue
    k, e = f0
    rv, ty, name, params, results = [x.decode() for x in k.groups()]
    conds = {'VtdParser': P, 'VtdNav': N, 'Utf8Reader': D, 'AsciiReader': D}.get(ty, B if ty.startswith('Fast') else None)
    if not conds: continue
    c = re.sub(r'\b[pnrb]\.', rv + '.', rng.choice(conds))
    if 'common.' in c and b'vtdxml/common"' not in s:
        c = c.replace('common.FormatAscii', '0') if False else None
    if not c: continue
    if 'chan' in params or '...' in params: continue
    args = ', '.join(x.split()[0] for x in params.split(',') if x.strip())
    body = s[k.start():m['off']] + m['new'].encode() + s[m['end']:e]
    body = body.replace(b') ' + name.encode() + b'(', b') ' + name.encode() + b'Alt(', 1)
    call = f"{rv}.{name}Alt({args})"
    call = ("return " + call) if results.strip() else call + "\n\t\treturn"
    new = s[:k.end()] + f"\tif {c} {{\n\t\t{call}\n\t}}\n".encode() + s[k.end():e] + b'\n' + body + s[e:]
    print(json.dumps({'file': m['file'], 'line': m['line'], 'off': 0, 'end': len(s), 'old': m['old'], 'new': new.decode(), 'kind': 'cond', 'cond': c, 'edit': m['new'], 'base': m['kind'], 'was': m['r'], 'func': name}))
    out += 1
