"""Writes MANIFEST.json."""
import json
T={
"C01":"property-based testing: generated keys, differential against an independent RFC 8032 reference, shrinking",
"C02":"property-based testing: generated keys, nonces and messages, differential against an independent RFC 8032 reference",
"C03":"property-based testing: sign-verify round trip over all signing routes",
"C04":"property-based testing: metamorphic tampering of message, signature and key",
"C05":"property-based testing: adversarial verification inputs, differential against a reference verifier",
"C06":"property-based testing: adversarial encodings and signature variants, differential against a reference decoder, plus malleability search",
"C07":"property-based fuzzing of arbitrary byte strings with a defect-classifying oracle, crash and hang capture",
"C08":"property-based testing: the two verification functions compared on fuzzed inputs",
"C09":"property-based testing: serialization round trips over generated keys and documents",
"C10":"property-based fuzzing of malformed documents with a well-formedness oracle",
"C11":"property-based testing: generated strings and byte strings against a well-formedness oracle",
"C12":"property-based testing: agreement of all construction routes, differential against the reference",
"C13":"property-based testing: generated random sources with an exact consumption oracle; statistical tests of generated keys across calls, threads and processes",
"C14":"stateful property-based testing: generated call histories and interleavings against single calls in fresh processes",
"C15":"property-based testing: generated limb representations and operation chains against a reference field (guarded hooks)",
"C16":"property-based testing: generated scalars, byte strings and operation chains against reference integers (guarded hooks)",
"C17":"stateful property-based testing: generated group-operation histories against a model integer and reference curve (guarded hooks)",
"C18":"property-based testing: encode-decode round trips and arbitrary strings against a reference decoder (guarded hooks)",
}
trust="Holds on every generated case; no claim beyond them. Trusts the in-harness reference (self-tested against RFC 8032 and OpenSSL vectors at each start) and the generators' reach."
N={
"C13":trust+" Bias is judged by fixed thresholds far beyond chance (false-alarm probability below 1e-6 per run).",
"C14":trust+" Thread interleavings are sampled by the operating system's scheduler, not enumerated.",
}
for p in ("C15","C16","C17","C18"): N[p]=trust+" If a tree reshapes the internals so that the hooks do not compile, the check falls back to the public interface."
m={"version":1,"setup_cmd":"bash setup.sh",
"hooks":{"guard":"cfg(verif_hooks)","enable":"RUSTFLAGS='--cfg verif_hooks' (check.sh does it for C15-C18)","source_commits":["542c8b23bbcb8f03b290de27b16b2ab2e68182e1"]},
"checks":[{"property":p,"quick_cmd":f"bash check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {p}","evidence_file":f"evidence/{p}.json","technique":t+("" if p=="C14" else "; coverage-guided fuzzing of the same generators"),"level":"exploration","level_note":N.get(p,trust)} for p,t in T.items()],
"not_applicable":[],
"notes":"Replay a reported case with: bash check.sh <property> replay <file>. Defects found and repaired are listed in KNOWN_FINDINGS.txt."}
open("/verif/MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
