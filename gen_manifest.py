#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when a check is added)."""
import json
T={
'C01':"generated texts with an invariant oracle (well-formed result or error, no panic, repeatable)",
'C02':"generated phone-number values with a totality oracle over the whole public API",
'C03':"round-trip over numbers generated from every published pattern",
'C04':"metamorphic rewriting of self-validating spellings",
'C05':"round-trip and boundary search over extension labels and lengths",
'C06':"structured tel: URI generation against a reference reading of the parameters",
'C07':"differential testing against an independent reference parser driven by the XML metadata",
'C08':"differential testing of the two parse calls, plus the reference model for source and carrier",
'C09':"differential testing against a reference formatter driven by the XML metadata, plus format invariants",
'C10':"differential testing against the reference formatter, plus read-back",
'C11':"differential testing against the reference formatter on parsed raw spellings",
'C12':"differential testing against the reference formatter, plus character-set invariants",
'C13':"invariant on diallable characters, plus the reference formatter",
'C14':"differential testing against the reference formatter, plus literal-insertion invariant",
'C15':"differential testing against a numbering plan evaluated from the XML with its own matcher",
'C16':"exhaustive lengths per calling code and generated numbers against the XML possible lengths",
'C17':"enumeration of codes, regions and leading blocks, and generated numbers, against the XML",
'C18':"complete enumeration of regions and types against the XML and the validity oracle",
'C19':"cross product of small variants and generated pairs: symmetry, reflexivity, reference grading",
'C20':"generated overlong numbers against a reference search for the longest valid prefix",
'C21':"differential testing against the reference model",
'C22':"algebraic laws and reference mapping over generated Unicode text",
'C23':"stateful histories compared with calls in isolation, on shared, fresh, reversed and concurrent use",
'C24':"complete enumeration of the compiled metadata against an independent compilation of the XML",
'C25':"generated numbering plans: the differential and metamorphic checks of C07-C17, C20 and C21 on each of them",
'C26':"structure-aware XML, command-line and byte-array generation against an independent compilation of the XML",
'C28':"differential testing against the reference model on shipped and generated numbering plans",
'C29':"round trip and structure-aware byte strings against an independent encoder and decoder of the published schema",
'C30':"long generated histories with an invariant on allocated memory",
'C27':"grammar-based field lists and generated metadata against a reference filter",
}
N={
'C24':"Complete on the shipped metadata: every field of every territory is compared with an independent compilation of the XML. Trusts the independent XML reader (harness/src/xmlmeta.rs) and the guarded accessor that hands out the decoded metadata.",
'C25':"Search over generated plans (some 400 in a quick run, thousands in a thorough one) and inputs; the testing plan is covered systematically. Trusts the reference model and the guarded constructor. Plans keep what the builder guarantees.",
'C26':"Search, not proof. The Java sources are compiled and run as they are; protobuf-java is not available offline, java/Phonemetadata.java stands in for the generated message classes (it reproduces the shipped files byte for byte). Trusts the independent XML reader.",
'C27':"Search, not proof, complete over single and paired names. The package-private filter is reached by reflection; where it is not there under its name, only its effect in lite and special builds is seen (C26).",
'C29':"Search, complete over combinations of present fields. The schema is written down in the harness, not read from the repository. What the protobuf specification leaves open (groups, mismatched wire types, over-long varints, unknown enum values) only has to be handled without a panic.",
'C30':"Search over histories of 24 to 560 thousand calls on one to three territories. Growth on fewer than one call in ten is not told from the automaton states regular expressions keep.",
'C28':"Search, complete over regions, calling codes and lengths of the shipped and the testing plan. The methods are crate-private: they are reached through the wrappers of a second guarded hook, and without it (it no longer compiles) the check explores nothing.",
'C18':"Complete over supported regions and types, sampled over other region strings. Trusts the XML reader and the reference model of validity.",
'C23':"Search over generated histories and real threads; interleavings are those the scheduler produces, so a race with a tiny window can be missed.",
}
D="Search, not proof: the systematic part enumerates every territory (length, leading digits, examples), the generated part samples around every rule; absence of a violation is shown for the explored cases only. Trusts the reference model (harness/src/model.rs, xmlmeta.rs), written from the documented libphonenumber rules and reading the XML directly."
checks=[]
for l in open('/verif/properties.jsonl'):
    i=json.loads(l)['id']
    checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","evidence_file":f"evidence/{i}.json","technique":T[i],"level":"exploration","level_note":N.get(i,D)})
m={"version":1,"setup_cmd":"./check.sh","hooks":{"guard":"cfg(rlpn_verif), cfg(rlpn_verif_internal)","enable":"harness/.cargo/config.toml passes --cfg rlpn_verif --cfg rlpn_verif_internal in rustflags; nothing else sets them","source_commits":["53f598a7573bb6d7d8a34df065736542479d8580","6f218e2c45c0f35e0fe5369e3b0b9a6a7befe92c"]},"checks":checks,"not_applicable":[],
"notes":"check.sh rebuilds the harness (path dependency on /repo) and runs one property. Replay a failure with ./check.sh ID --replay FILE. VERIF_SCALE multiplies the number of generated cases. Thorough commands add a coverage-guided search (fuzz/, VERIF_FUZZ seconds)."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write("\n")
