#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the tables below."""
import json
TECH={
'P01':('interval dataflow analysis over SSA, per concrete destination type','Sound for the parser and conversion forms it models; any other way of computing the stored value is reported. Go map: strconv is trusted.'),
'P02':('abstract interpretation of Scan methods over SSA (driver kind x stored state x error)','All paths of all scanners; values inside user-defined Unmarshal methods are not analysed.'),
'P03':('interprocedural memory-sharing (taint) dataflow over SSA','Copies are recognised by conversion and append; user-defined Unmarshal methods are trusted to copy, as their interfaces require.'),
'P04':('abstract interpretation of Scan methods over SSA (stored state against error result)','All paths of all scanners; the atomicity of user-defined Unmarshal methods is not decided.'),
'P05':('abstract interpretation of Scan methods per driver kind, against a table of accepted kinds','The table of required and permitted kinds is frozen in the checker.'),
}
NA={
'P30':'Rounding of floats and times depends on run-time values and on the precision of the database column; no static argument in reach bounds it.',
'P31':'Needs the semantics of the database over arbitrary table contents and orderings; not decidable from the source.',
'P32':'The conversion is a loop over arbitrary run-time text whose output no dataflow analysis in reach characterises.',
}
try:
    from manifest_more import TECH2
    TECH.update(TECH2)
except ImportError: pass
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m=dict(version=1,setup_cmd='bash /verif/setup.sh',
  checks=[dict(property=p,quick_cmd=f'bash /verif/check.sh {p} quick',thorough_cmd=f'bash /verif/check.sh {p} thorough',technique=TECH[p][0],level='other',level_note=TECH[p][1]) for p in props if p in TECH],
  not_applicable=[dict(property=p,reason=NA.get(p,'No check has been built for this property yet.')) for p in props if p not in TECH],
  notes='Static analysis only. One analyser (/verif/checker, Go, vendored x/tools) reads the current source of /repo on every run; templates are macro-expanded per dialect and analysed as Go.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(m['checks']),'claimed')
