#!/usr/bin/env python3
"""xcheck.py HARNESS SEED N STRIDE: compares the reference parser's verdicts with expat's on the
documents `HARNESS dump SEED N STRIDE` prints. Differences that have a known reason (listed in
reason()) are counted, the others are shown."""
import sys, subprocess, base64, collections, re
from xml.parsers import expat
h,seed,n,stride=sys.argv[1:5]
pr=subprocess.Popen([h,'dump',seed,n,stride],stdout=subprocess.PIPE)
cnt=collections.Counter(); shown=collections.Counter()
def ex(d,ns):
    p=expat.ParserCreate(namespace_separator='\x01') if ns else expat.ParserCreate()
    p.SetParamEntityParsing(expat.XML_PARAM_ENTITY_PARSING_NEVER)
    try: p.Parse(d,True); return 'accept',''
    except expat.ExpatError as e: return 'reject',str(e)
    except (ValueError, LookupError) as e: return 'reject',str(e)
def names5(d):
    # expat follows the 4th edition's name classes and the 1.0 character range
    try: s=d.decode('utf-8')
    except UnicodeDecodeError: return False
    return any(ord(c)>0x7f for c in s)
for l in pr.stdout:
    b,v,nv,why=l.decode().rstrip('\n').split(' ',3)
    d=base64.b64decode(b); cnt['docs']+=1
    if v=='unclaimed': cnt['unclaimed']+=1; continue
    e,msg=ex(d,False)
    if e!=v:
        k=('known: only versions and encodings the library supports' if 'unsupported' in why or 'encoding' in why else
           'known: limit' if 'limit' in why or 'too long' in why else
           'known: non-ASCII names' if names5(d) and v=='accept' and e=='reject' else
           'DIFF')
        k+=f' {v}/{e} {why.split("|")[0][:40] if v=="reject" else msg.split(":")[0]}'
        cnt[k]+=1
        if 'DIFF' in k and shown[k]<4: shown[k]+=1; print(k,d[:300],why,msg,flush=True)
        continue
    cnt['agree '+v]+=1
    if v=='accept' and nv!='unclaimed':
        e,msg=ex(d,True)
        if e!=nv:
            k=f'NSDIFF {nv}/{e} {why.split("|")[1][:50]} {msg.split(":")[0]}'; cnt[k]+=1
            if shown[k]<4: shown[k]+=1; print(k,d[:400],why,msg,flush=True)
        else: cnt['ns agree '+nv]+=1
for k,c in sorted(cnt.items()): print(c,k)
