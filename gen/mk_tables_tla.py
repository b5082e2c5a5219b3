# One-off generator of spec/Tables.tla from data/tables.json (committed; never run by a check).
import json
t=json.load(open('/verif/data/tables.json'))
def seq(v): return "<<"+",".join(seq(x) if isinstance(x,list) else str(x) for x in v)+">>"
def name(n,v,per=None):
    if per is None: return f"{n} == {seq(v)}\n"
    return f"{n} == <<\n  "+",\n  ".join(seq(x) for x in v)+">>\n"
o="------------------------------- MODULE Tables -------------------------------\n"
o+="(* Normative integer tables of LC3 / LC3plus. Sequences are indexed from 1, the standard from 0:\n   entry k of the standard is entry k+1 here. Durations dt: 0=2.5ms 1=5ms 2=7.5ms 3=10ms.\n   Sample rates sr: 0..4 = 8,16,24,32,48 kHz, 5 = 48 kHz HR, 6 = 96 kHz HR. *)\n\n"
o+="\\* samples and coded coefficients per 2.5 ms, samples per 4 ms\n"
o+=name("Ns2m5",t['ns2m5'])+name("Ne2m5",t['ne2m5'])+name("Ns4m",t['ns4m'])
o+="\\* size limits of high-resolution frames [dt][48k,96k][min,max]; the half of the nominal minimum is accepted (fallback)\n"
o+=name("HrLim",t['hrlim'],1)
o+="\\* lower bounds (in 1/1024) of the arithmetic coder symbols\n"
o+=name("TnsOrderModels",t['tnsorder'],1)+name("TnsCoefModels",t['tnscoef'],1)+name("SpecModels",t['specmodel'],1)
o+="\\* [high_rate*2+half][state] -> model index for k = 0..3 escapes\n"
o+=name("SpecLookup",t['lookup'],1)
o+="=============================================================================\n"
open('/verif/spec/Tables.tla','w').write(o)
