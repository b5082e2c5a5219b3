# One-off generator of spec/EnvelopeTables.tla from data/tables.json (committed; never run by a check).
import json
t = json.load(open('/verif/data/tables.json'))
def rows(v):
    return '<<\n  ' + ',\n  '.join('<<' + ', '.join(str(round(x * 65536)) for x in r) + '>>' for r in v) + ' >>\n'
o = '--------------------------- MODULE EnvelopeTables ---------------------------\n'
o += 'EXTENDS Integers\n(* Normative tables of the spectral envelope, in 1/65536 *)\n\n'
o += '\\* Code books of the low and high scale factors\nLowBook == ' + rows(t['lfcb']) + 'HighBook == ' + rows(t['hfcb'])
o += '\\* Gains of the shapes\nShapeGains == ' + rows(t['vqg'])
o += '=============================================================================\n'
open('/verif/spec/EnvelopeTables.tla', 'w').write(o)
