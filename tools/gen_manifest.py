"""Writes /verif/MANIFEST.json."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "property-based testing: generated nested records, round trip against the generated tree",
 "C02": "property-based testing: generated write histories, differential against plain vectors",
 "C03": "property-based testing: generated coordinate lists at padded buffer positions, round trip",
 "C04": "property-based testing: generated group lists at padded buffer positions, round trip",
 "C05": "property-based testing: generated write histories of single values, round trip",
 "C06": "property-based testing: generated stores against a reference model; insertion-order metamorphic relation",
 "C07": "stateful property-based testing: generated builder histories against a reference model",
 "C08": "property-based testing: generated key sets against a reference model",
 "C09": "property-based testing: renumbered against directly built store; generated bad mappings",
 "C10": "property-based testing: generated stores and queries against a brute-force model",
 "C11": "property-based testing: differential between stores with and without bins",
 "C12": "property-based testing: boxed query against filtering the unboxed query",
 "C13": "property-based testing: query with a point against the model and the query without",
 "C14": "property-based testing: order and prefix relations over generated queries and caps",
 "C15": "property-based testing: formula recomputed independently, monotonicity relations",
 "C16": "property-based testing: exhaustive zoom pairs with generated tiles, quadkey reference, round trip",
 "C17": "property-based testing: reference in wide integers; generated points and boxes",
 "C18": "property-based testing: generated requests against a brute-force reference",
 "C19": "property-based testing: generated requests against a brute-force reference",
 "C20": "property-based testing: enumerated stacks against the tree; limit relation",
 "C21": "property-based testing: generated requests against a brute-force reference",
 "C22": "metamorphic testing: grouped against ungrouped, permuted and repeated requests",
 "C23": "property-based testing: look-ups counted through what is returned, against the quotas",
 "C24": "differential testing over thread pools and concurrent requests",
 "C25": "stateful property-based testing: generated interleavings of streams against solo runs",
 "C26": "stateful property-based testing: queue and grouping against naive models",
 "C27": "property-based testing: serialization round trips",
 "C28": "stateful property-based testing: generated JavaScript calls against the engine called directly",
 "C29": "differential testing: generated JavaScript requests against the engine called directly",
 "C30": "property-based testing: generated calls and answers through a recording stand-in for the index",
 "C32": "differential testing: generated records against an encoder and a decoder made from the format's description",
 "C33": "differential testing: generated stores against an encoder and a decoder made from the format's description",
 "C34": "property-based testing: generated stores and requests written out, read back and compared",
 "C31": "property-based testing: generated options and stores, opened and reopened, against what was given",
}
NOTE = ("Generated-input search on builds of /repo's current tree with debug assertions and overflow checks on and off; "
        "exploration within the generators' bounds, not proof. ")
FMT = NOTE + "Compiles gridstore_format.rs alone, as the repository's own build here does."
FULL = NOTE + "Trusts the stand-ins in shims/ for four git dependencies that cannot be fetched here, on which all of the repository's own tests pass."
BIND = NOTE + ("Compiles native/src in place over stand-ins (bindings/) for neon, neon-serde, owning_ref and fuzzy-phrase, none of which is cached here; "
               "trusts that they convert and throw as their documentation says. V8 and its garbage collector are not run.")
TOOL = FULL + " Further stand-ins (toolcheck/stubs/) take the place of lz4 and of the client for remote files: files are local and not compressed."
extra = {
 "C24": " Schedules are sampled by the operating system, not enumerated.",
 "C25": " Reads of released memory show as wrong results or crashes in the builds used; no sanitizer is needed for the comparison.",
}
checks = []
for k in sorted(T):
    checks.append({"property": k, "quick_cmd": f"./run.sh {k}", "thorough_cmd": f"./run.sh {k}",
                   "technique": T[k], "level": "exploration",
                   "level_note": (FMT if k <= "C05" or k == "C32" else BIND if k in ("C28", "C29", "C30") else TOOL if k == "C34" else FULL) + extra.get(k, "")})
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": checks,
     "not_applicable": [],
     "notes": "No hooks: everything is observed through public items. Defects found and repaired are in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
