#!/usr/bin/env python3
"""One-off generator of harness/ref/ref_tables.h (committed; NOT run by the checks).

The constants were taken from the pinned tree once and validated against the
published known answers by harness/ref/selftest.c, so a later change of the
tables in /repo does not reach the reference."""
import re,sys
R='/repo/'
def nums(s): return [int(x,16) for x in re.findall(r'0[xX]([0-9a-fA-F]+)',s)]
out=['/* generated by tools/gen_ref_tables.py from the pinned tree; see there */','#include <stdint.h>']
src=open(R+'gost89.c').read()
names=['GostR3411_94_TestParamSet','GostR3411_94_CryptoProParamSet','Gost28147_TestParamSet','Gost28147_CryptoProParamSetA','Gost28147_CryptoProParamSetB','Gost28147_CryptoProParamSetC','Gost28147_CryptoProParamSetD','Gost28147_TC26ParamSetZ']
out.append('/* row 0 is K8 (most significant nibble) ... row 7 is K1 */')
for n in names:
    m=re.search(r'gost_subst_block '+n+r' = \{(.*?)\n\};',src,re.S)
    v=nums(m.group(1)); assert len(v)==128
    out.append('static const uint8_t ref_sb_%s[8][16] = {'%n)
    for i in range(8): out.append('  {'+','.join(map(str,v[16*i:16*i+16]))+'},')
    out.append('};')
m=re.search(r'grasshopper_pi\[0x100\] = \{(.*?)\};',open(R+'gost_grasshopper_defines.c').read(),re.S)
t=re.sub(r'//.*','',m.group(1)); v=nums(t); assert len(v)==256 and sorted(v)==list(range(256))
out.append('static const uint8_t ref_pi[256] = {'+','.join(map(str,v))+'};')
s=open(R+'gosthash2012_const.h').read()
m=re.search(r'union uint512_u C\[12\] = \{(.*?)\n\};',s,re.S)
v=nums(m.group(1)); assert len(v)==96,len(v)
out.append('/* little-endian qwords */')
out.append('static const uint64_t ref_sb_C[12][8] = {')
for i in range(12): out.append('  {'+','.join('0x%016xULL'%x for x in v[8*i:8*i+8])+'},')
out.append('};')
p=open(R+'gost_params.c').read()
p=re.sub(r'/\*.*?\*/','',p,flags=re.S)
out.append('static const struct { const char *nm; const char *a,*b,*p,*q,*x,*y; int h; } ref_curves[] = {')
for m in re.finditer(r'\{NID_(\w+),(.*?), NULL\}',p,re.S):
    if m.group(1)=='undef': continue
    f=re.sub(r'"\s*"','',m.group(2)); f=re.findall(r'"([0-9A-Fa-f]+)"',f)
    assert len(f)==7,(m.group(1),f)
    out.append('  {"%s","%s","%s","%s","%s","%s","%s",%s},'%(m.group(1),*f))
out.append('  {0}};')

ax=open(R+'gosthash2012_precalc.h').read().split('#else')[0]
v=[int(x,16) for x in re.findall(r'0x([0-9a-fA-F]{1,16})ULL',ax)]; assert len(v)==2048,len(v)
m=re.search(r'grasshopper_pi\[0x100\] = \{(.*?)\};',open(R+'gost_grasshopper_defines.c').read(),re.S)
pi=nums(re.sub(r'//.*','',m.group(1)))
rows=[v[256*k+pi.index(1<<j)] for k in range(8) for j in range(8)]   # rows[i]: image of bit i
assert rows[63]==0x8e20faa72ba0b470 and rows[0]==0x641c314b2b8ee083
out.append('/* image of bit i (LSB first) under the Streebog linear map l */')
out.append('static const uint64_t ref_sb_A[64] = {'+','.join('0x%016xULL'%x for x in rows)+'};')
open('/verif/harness/ref/ref_tables.h','w').write('\n'.join(out)+'\n')
