"""Rewrites the table of DESIGN.md between its markers, from the texts here, the family sizes that the
binaries list, evidence/ (times) and seeded/ (which bug belongs to which property)."""
import json, glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROWS = {
"C01": ("records: pool of id lists, coordinates and groups, shared lists, layout with padding around powers of two; up to 20 MB; every list length up to 70,000 around powers of two; long histories", "the generated tree"),
"C02": ("buffers of up to 66,000 id lists with padding, many like earlier ones; every length around the growth points of the prefix; 2^28 numbers", "the vectors written, read by six ways"),
"C03": ("coordinate lists, pointers at generated distances; a far pointer at every position of every list up to 12; every length around powers of two; histories; 2^28 coordinates", "the vectors written; pointers followed"),
"C04": ("group lists, pointers at generated distances up to beyond 2^28; all 256 bytes at five pointer lengths; one far pointer at every position; histories; 2^28 groups", "the vectors written; pointers followed"),
"C05": ("histories of up to 66,000 single values of every kind and width, header last", "the values written, and their size in bytes"),
"C06": ("key/entry sets up to 9,000 entries per key, one key of 70,000 coordinates; insertion orders", "map of sorted sets"),
"C07": ("histories of insert, append, compact-append on four related keys", "the same on a map of sets; permuted appends"),
"C08": ("key sets up to 70,000 keys, keys without entries, every single language, with and without bins", "map of sorted sets"),
"C09": ("stores and mappings: permutations, wide injections, incomplete, colliding; numbers up to 200,000", "store built under the final numbers; map of sets"),
"C10": ("stores of up to 70,000 keys, exact and range queries, wide phrase ids, languages; edges of the 32-bit range", "brute-force filter of the map"),
"C11": ("data with and without bins; all pairs of boundaries, other queries, reads, listings; up to 70,000 keys in up to 600 bins", "the store without bins; brute force"),
"C12": ("boxes around data, single tiles, strips; dense grids; lists of more than 65,535 coordinates", "filter of the map and of the unboxed query, with order"),
"C13": ("points, boxes, entries on the radius, at every zoom", "brute force; Z-order and merge rules for one key"),
"C14": ("up to 20 keys, or up to 70,000, seven or more caps per query, none included", "order relation; prefix of the uncapped query"),
"C15": ("all zooms, eight radii, all scores, ladder of distances", "formula recomputed; monotonicity"),
"C16": ("all 289 pairs of zooms with corner boxes; random points and boxes", "definition by ancestors; there and back; via a zoom between"),
"C17": ("points and boxes at all zooms, corners; queries with the restricted options", "box in wide integers; query filter"),
"C18": ("one index of 1 to 300 keys and up to hundreds of grids, requests", "best grid per feature by brute force"),
"C19": ("two to five indexes over the same places at zooms 0-16; 99,990 results of which the worst fit", "all stackings (two); the stated procedure (more); validity"),
"C20": ("up to 24 matches over 6 indexes with types, masks, incompatibilities; 1,300-6,500 complete stacks", "all valid sequences enumerated; the limit relation"),
"C21": ("up to 4 indexes, matches with several keys, nearby-only, boxes, points", "all contexts enumerated; validity at limits"),
"C22": ("matches sharing index, weight, mask, or nearly", "grouped against ungrouped, permuted, repeated"),
"C23": ("10 to 650 matches of one or several kinds, perhaps stacked", "the quotas, counted in what is returned; which matches are let through when a quota bites"),
"C24": ("requests in five thread pools, with matches passed over by quota; 2-8 requests at once; one store opened several times", "the same alone; brute force"),
"C25": ("open streams over up to three stores, random interleaving, abandonment, released memory overwritten", "each stream consumed alone"),
"C26": ("histories of pushes and pops of numbers and contexts; sequences to group", "sorted vector; runs by a loop, with items counted"),
"C27": ("values of every public type", "read back equals; defaults"),
"C28": ("histories of builder, store and iterator calls with valid and wrong arguments, wide phrase ids, queries between bin boundaries; constructors; `index.js` under node", "the engine called directly; nothing changed by a wrong call"),
"C29": ("requests with any options, several scheduled at once, stores collected meanwhile; one field missing or wrong", "the engine called directly, in the order called back"),
"C30": ("phrases, replacements, distances, answers of the index of any size, errors", "the recorder's account of calls and answers"),
"C31": ("options, stores opened up to three times; stores rebuilt at one path; directories and files that are no store; all zooms", "what was given, or the defaults; boxes as powers of two"),
"C32": ("the records of C01, laid out by an encoder of our own or by the code; every list length up to 2^21 around powers of two", "encoder and decoder made from the description of the format"),
"C33": ("stores with keys, language sets, entries and bins, written as a database by an encoder of our own or built by the code", "encoder and decoder made from the description of the format; brute force"),
"C34": ("stores with and without bins; lines and entries shuffled; both programs; requests over up to four stores; sets of languages", "the map of sorted sets, a reader and a writer of the lines of our own; the requests and results before"),
}
size = {}
for crate in ("fmtcheck", "harness", "bindings", "toolcheck"):
    out = subprocess.check_output([f"{V}/target/{crate}/checked/{crate}", "list"]).decode()
    for l in out.split("\n"):
        m = re.match(r"(C\d+) .* quick=(\d+)", l)
        if m:
            size[m.group(1)] = size.get(m.group(1), 0) + int(m.group(2))
bugs = {}
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    bugs.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
rows = []
for k, (gen, ora) in ROWS.items():
    try:
        w = json.load(open(f"{V}/evidence/{k}.json"))["wall_s"]
    except Exception:
        w = 0
    rows.append(f"| {k} | {gen} | {ora} | {size[k]:,}, {w:.0f} s | {', '.join(bugs.get(k, [])) or '-'} |")
p = f"{V}/DESIGN.md"
t = open(p).read()
head = "| | What is generated | Oracle | Quick cases per build, time for both | Caught |\n|---|---|---|---|---|\n"
i = t.index(head) + len(head)
j = t.index("\n\n", i)
open(p, "w").write(t[:i] + "\n".join(rows) + t[j:])
