#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl (one row of techniques per property)"""
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
props=[json.loads(l) for l in open('properties.jsonl')]
REFM="Exhaustive over finite alphabets of elements, epochs and times on the real code; the reference model is validated against published vectors on every run. Trusts the reference and says nothing about values between alphabet points."
T={
'C01':("exhaustive enumeration of an orbit x time alphabet on the real code, against an independent reference model",REFM),
'C02':("exhaustive enumeration of an orbit x epoch x time alphabet on the real code, against an independent reference model",REFM),
'C03':("exhaustive enumeration of resonant orbits x all integration-step boundaries on the real code, against an independent reference model",REFM),
'C04':("exhaustive enumeration of extreme orbits x times on the real code; verdict classes compared with the reference model",REFM),
'C05':("explicit-state exploration: all operation sequences to a depth, and breadth-first closure of reachable record states, on the real code",
  "Every answer in every history is compared with the answer of a process that makes that one call. Closed record state spaces extend the verdict to histories of any length over the explored times, as far as state is held in the record."),
'C06':("stateless model checking of the real code under a controlled scheduler: all call interleavings, all single preemptions at machine-instruction granularity, all double preemptions at static-memory accesses",
  "Exhaustive for the listed calls with two threads and at most one preemption anywhere (two at accesses to static memory), and for whole-call interleavings of two and three threads. Sequentially consistent; weak-memory effects are not modelled."),
'C07':("exhaustive enumeration of date-times (every millisecond of windows, every second of days, every day 1900-2100, all calendar seams) on the real code against a reference calendar","Exact integer calendar as oracle; the tolerance is what a double Julian date can hold."),
'C08':("exhaustive enumeration of field contents column by column on the real parser against an independent decoder","Every field's content is swept over its whole range (quick: a fixed stride) with the other fields fixed, and field extremes are combined."),
'C09':("exhaustive enumeration of truncations, one- and two-column mutations, word substitutions, multi-byte characters and short texts on the real parser","Every input is executed; hangs, panics and process death are attributed to their input."),
'C10':("exhaustive enumeration of all catalogue compositions to a depth over an alphabet of intact and damaged entries, on the real parser against a reference grouping","Catalogues whose grouping is inherently ambiguous are excluded; see DESIGN.md."),
'C11':("exhaustive enumeration of titles, layouts and line sequences through all entry points of the real parser","All line sequences to five lines over six kinds of line; all titles to four characters over nine kinds of character."),
'C12':("exhaustive enumeration of every day 1900-2100 with minute, second and millisecond sweeps, on the real code against an integer calendar","Integer calendar as oracle."),
'C13':("exhaustive enumeration of Julian dates (every day 1900-2100, every second of days, seven millennia, all reduction seams) on the real code against the IAU-1982 polynomial","Tolerance is the rounding of the polynomial at the date's magnitude."),
'C14':("exhaustive enumeration of a vector x angle alphabet on the real code, against the exact rotation","Metamorphic and direct oracle."),
'C15':("exhaustive enumeration of a latitude x longitude x height x angle alphabet on the real code, against WGS-84","Direct oracle and round trip."),
'C16':("exhaustive enumeration of an observer x direction x range alphabet on the real code, against the local horizon basis","Direct oracle and reconstruction."),
'C17':("exhaustive enumeration of an observer x position x velocity alphabet on the real code","Direct oracle."),
'C18':("exhaustive enumeration of angles: dense grids, every binary scale, and all neighbouring doubles of the range ends","Direct oracle."),
'C19':("exhaustive enumeration of prior record states x orbits x modes on the real code","Compared with a blank record's initialisation, with parsing, and with the reference model in both modes."),
'C20':("exhaustive enumeration of orbits x times on the real code, finite differences against predicted velocity","Bounds come from the reference model's own deviation at the same point."),
'C21':("explicit-state exploration of integrator states: all call sequences to a depth and breadth-first closure, on the real code","Closure extends to sequences of any length over the explored times."),
'C22':("exhaustive enumeration of orbits x epochs x date-times x observers through the whole pipeline, against reference model and geodesy",REFM),
}
m={"version":1,"setup_cmd":"./run.sh build",
 "checks":[{"property":p['id'],"quick_cmd":f"./run.sh {p['id']} quick","thorough_cmd":f"./run.sh {p['id']} thorough","evidence_file":f"evidence/{p['id']}.json","technique":"model checking: "+T[p['id']][0],"level":"model_checking","level_note":T[p['id']][1]} for p in props],
 "not_applicable":[],
 "notes":"No hooks in /repo: every function and structure the checks need is public. Repaired defects: known_findings.txt."}
json.dump(m,open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
