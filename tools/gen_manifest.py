#!/usr/bin/env python3
"""writes MANIFEST.json; claimed = properties whose check exists"""
import json,subprocess,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
T={
'C01':"property-based testing: field-arithmetic operations and random straight-line programs over generated real number fields, against an exact reference model of Q(x,y) (linear algebra over Q, Sturm isolation)",
'C02':"property-based testing: comparisons/signs of generated (equal, very close, conjugate) numbers against exact interval refinement in the reference number-field model",
'C03':"property-based testing: representation invariant (minimal polynomial computed by the reference model, Sturm root count of the interval) on every number produced by generated operation sequences",
'C04':"property-based testing: rounding and remainder of generated numbers close to and on integers against exact floor in the reference model",
'C05':"property-based testing: rational powers with constructed exact roots, general roots checked by minimal polynomial plus enclosure, and exhaustive classes of special cases",
'C06':"property-based testing: floor/ceil log2 of generated numbers on, next to and away from powers of two against exact comparison in the reference model",
'C07':"property-based testing: round trips over every primitive integer width, big integers and rationals, and rational/irrational back-conversions",
'C08':"property-based testing: interval operations on generated dyadic intervals against exact rational set images (outward rounding, tightness, sampled points)",
'C09':"property-based testing: exp/log/AGM/constants on generated dyadic intervals against independent high-precision enclosures (Taylor series with error bounds)",
'C10':"property-based testing: differential runs of generated call histories in fresh and warmed child processes and in concurrently running threads",
'C11':"property-based testing: ring operations on generated polynomials over integers, rationals and modular integers against naive coefficient-vector arithmetic",
'C12':"property-based testing: division forms on generated polynomials against naive long division over Q and F_p and constructed exact multiples",
'C13':"property-based testing: gcd/lcm/Bezout/resultant of generated polynomials with planted common factors against Euclid over Q and Sylvester determinants",
'C14':"property-based testing: factorisation of products of generated certified irreducibles with multiplicities and content, under several RNGs, against the constructed factor multiset",
'C15':"property-based testing: square-free decomposition and Sturm root counts of generated polynomials with planted roots against the construction and an independent isolator",
'C16':"property-based testing: modular arithmetic over generated moduli and widths against big-integer arithmetic",
'C17':"property-based testing: integer utilities on generated and boundary values against definitions evaluated in big integers",
'C18':"property-based testing: LLL and Gram-Schmidt on generated bases against exact rational Gram-Schmidt and lattice-equality tests; model-based testing of the array type",
'C19':"property-based testing: quadratic numbers with generated radicands against exact sign of a+b*sqrt(c)",
'C22':"property-based testing: nearest division against rounding of the exact quotient over arbitrary-precision integers",
'C20':"property-based testing: factorisation over F_p of generated products against Rabin irreducibility, and subset enumeration against brute force",
}
N={k:"exploration of generated inputs with fixed work per tier; no absence proof. Bounds on degree and coefficient size are in DESIGN.md." for k in T}
import re
src=''
for d in ('harness/src/bin','harness_int/src/bin'):
    if os.path.isdir(root+'/'+d):
        for f in os.listdir(root+'/'+d): src+=open(f'{root}/{d}/{f}').read()
checks=[];na=[]
for p in props:
    i=p['id']
    if i in T and f'id: "{i}"' in src:
        checks.append(dict(property=i,quick_cmd=f"bash run.sh {i} quick",thorough_cmd=f"bash run.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=T[i],level="exploration",level_note=N[i]))
    elif i=='C21':
        na.append(dict(property=i,reason="the bindings exist only in the python feature, built on pyo3 0.16, which does not support the installed Python 3.12, so no binding call can be executed here; there is nothing to generate inputs against"))
    else:
        na.append(dict(property=i,reason="check still being built"))
hooks=[l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if ' hook:' in l]
m=dict(version=1,setup_cmd="bash run.sh setup",hooks=dict(guard="cfg(algebraics_verif)",enable="RUSTFLAGS='--cfg algebraics_verif'",source_commits=hooks),checks=checks,not_applicable=na)
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),[x['property'] for x in na])
