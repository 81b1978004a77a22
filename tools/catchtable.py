import json,os
S='/verif/seeded'
p='/verif/DESIGN.md'; s=open(p).read()
rows="""| C25 | `PartialEq`, `PartialOrd` of FiniteAboveNegOneF64 | the f64 relations; partial_cmp always Some | every pair of valid doubles (exact IEEE, ±0 included) | 12 s |
| C26 | `FromStr` and its errors (kind, wrapped error, `source`, clone) | f64's parse of the same bytes, then the validity test; parsing in core is a function of the bytes | every text shorter than 2^32 bytes; every parse result | 14 s |
| C27 | `PartialEq`, `Clone` of the six Gauss rules | equal exactly when pairs and parameters are; a clone is structurally the original | two arbitrary tables of 1..4, 8, 16 pairs (Jacobi 1..4), lengths equal or not, parameters symbolic | 95 s |
"""
if '| C25 |' not in s:
    i=s.index('| C24 |'); j=s.index('\n',i)+1
    s=s[:j]+rows+s[j:]
s=s.replace('C01, C02, C22, C23 look at both themselves;','C01, C02, C22, C23, C25, C26, C27 look at both themselves;')
s=s.replace('* Rounding errors are outside, except C01, C02, C22 (FiniteAboveNegOneF64), C10,','* Rounding errors are outside, except C01, C02, C22-C26 (FiniteAboveNegOneF64), C10,')
out=["","## 5. Planted bugs","","Written from the property text and the code; each compiles, passes the 198 tests, and has a demonstration. Every one is caught by the check of its",
"property (`tools/catch.py`; sources in `tools/plants*.py`, `seeded/`). Apart from these, about 150 small mutants and behaviour-keeping rewrites were tried with","`tools/trymut.py`; the rewrites stay quiet.","",
"| change | caught by | what it breaks | needs |","|---|---|---|---|"]
for d in sorted(os.listdir(S), key=lambda d:(json.load(open(f'{S}/{d}/meta.json'))['property'],d)):
    m=json.load(open(f'{S}/{d}/meta.json'))
    e=lambda t:t.replace('|','\\|').replace('\n',' ')
    out.append(f"| {d} | {m['property']} | {e(m['what_it_breaks'])} | {e(m['needs'])} |")
k=s.find('\n## 5. ')
if k>=0: s=s[:k]
s=s.rstrip()+'\n'+'\n'.join(out)+'\n'
open(p,'w').write(s)
