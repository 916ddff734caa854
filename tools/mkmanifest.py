#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks the harness has (vh list) and the notes below."""
import json, subprocess, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have=[l for l in subprocess.run([root+"/run.sh","list"],capture_output=True,text=True).stdout.split()]
SEM=("differential property-based testing: generated programs, reference interpreter vs reference machine on compiled code","Sampled: generated programs of bounded size. Trusts the reference interpreter for the language's meaning and the reference machine for the instructions' meaning.")
T={
"C01":("generated-text fuzzing with work bound and crash isolation","Sampled texts up to a few KB; nesting bounded (deep nesting is a known finding)."),
"C02":("generated-program and mutation fuzzing with work bound and crash isolation","Sampled texts up to a few KB; nesting bounded (deep nesting is a known finding)."),
"C03":("round-trip fuzzing: tree tokens vs reference lexer tokens","Sampled near-valid and valid texts; trusts the reference lexer and the tree reader."),
"C04":("round-trip property-based testing: expression tree -> text -> parse","Sampled expression trees, and every operator pair; trusts the printer's precedence table."),
"C05":("round-trip property-based testing: program tree -> text -> parse","Sampled programs; trusts the printer."),
"C06":("property-based testing: literal model vs parsed value and vs value computed by compiled code","Sampled literals with boundary bias."),
"C07":("metamorphic property-based testing: relayout of token sequences","Sampled programs and layouts."),
"C08":("property-based testing: predicted token spans vs node spans; invariants on fuzzed texts","Sampled programs and texts."),
"C09":("fault-injection property-based testing: one defect at a known token","Sampled programs with one injected defect."),
"C10":("differential property-based testing against a reference position counter","Sampled texts, all offsets."),
"C11":("differential property-based testing against a reference line splitter","Sampled texts and spans."),
"C12":("model-based property-based testing of rendered errors","All codes; sampled parameters, traces and contexts. Trusts a frozen table of messages' parameters."),
"C13":("generated programs, structural verification of the emitted code as oracle","Sampled programs; every path of each is covered by the verifier."),
"C14":("generated programs, stack-depth verification of the emitted code as oracle","Sampled programs; every path of each is covered by the verifier."),
"C21":("property-based testing: valid programs and single injected rule violations","Sampled programs."),
"C22":("boundary-value property-based testing of generated programs around each limit","Sampled shapes around each limit, executed on the reference machine."),
"C24":("metamorphic property-based testing: recompile, rename, add parentheses","Sampled programs."),
"C25":("round-trip property-based testing: disassembly read back vs the encoded program","Sampled compiled and synthetic programs."),
"C26":("model-based property-based testing of the cursor; all 256 bytes","All bytes; sampled code and cursor movements."),
}
titles=[json.loads(l) for l in open(root+"/properties.jsonl")]
checks=[]; na=[]
for p in titles:
    i=p["id"]
    if i in have:
        tech,note=T.get(i,SEM)
        checks.append(dict(property=i,quick_cmd=f"./run.sh check {i} quick",thorough_cmd=f"./run.sh check {i} thorough",technique=tech,level="exploration",level_note=note))
    elif i=="R01":
        na.append(dict(property=i,reason="dice-runtime does not compile at this commit (about 265 errors), so nothing of it can be executed and no generated-input search can reach it."))
    else:
        na.append(dict(property=i,reason="Check not built yet."))
json.dump(dict(version=1,setup_cmd="./run.sh build",checks=checks,not_applicable=na,
 notes="run.sh builds harness/ (binary vh) against /repo's working tree. ./run.sh replay FILE re-decides a replay file."),open(root+"/MANIFEST.json","w"),indent=1)
