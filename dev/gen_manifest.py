"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = ("translation validation: symbolic execution of the source control-flow graph and of the engine node tree the real compiler emits for it, equality decided by z3 per path, counterexamples replayed on the real interpreter")
TVN = ("Every path of every generated program, within the stated step/visit/path bounds, is decided for all values of memory, draws and native results; the programs themselves are generated families, so the guarantee is per program, not for all programs. Trusts the node and IR semantics in engine/ (tied to the real interpreter by C09 and by concrete replay) and z3.")
FE = ("translation validation of the real frontend: generated source programs are compiled by it, the resulting control-flow graph is executed symbolically and compared, path by path with z3, with Python executing the same source on solver proxies; counterexamples replayed on the real interpreter")
FEN = ("Per generated program: every path within the stated loop and path bounds, for all input values in the stated ranges. The programs are generated families, so the guarantee is per program. The oracle is CPython itself running the same source on symbolic numbers; trusts the IR semantics in engine/ and z3.")
CLAIMS = {
    "C01": (TV, "translation_validation", TVN),
    "C02": ("symbolic execution of the fold kernels (kernels.pyx transliterated from its current source) and of interpret.py on solver proxies, agreement decided by z3 per path; plus translation validation of constant-heavy programs", "model_checking", "Per operation and operand count: every operand value, decided by z3 over exact reals, then IEEE doubles for the queries that stay open; transcendental functions are uninterpreted but shared by both sides, so a rounding difference inside libm is outside the claim. Trusts the transliteration of the .pyx subset (it refuses what it does not know) and z3."),
    "C03": (TV, "translation_validation", TVN + " Only differences in faults, effects and random draws count here."),
    "C04": (TV, "translation_validation", TVN + " Aliasing comes from symbolic addresses and modes with read-only and writable blocks."),
    "C05": (TV, "translation_validation", TVN + " Jump-table renumbering on non-integral tested values is a listed known finding with its own probe."),
    "C06": (TV, "translation_validation", TVN + " Temporaries live in block 10000 of the emitted tree; overlap shows as a wrong value."),
    "C07": ("translation validation: symbolic execution of control-flow graphs with placed temporaries and of the node trees cfg_to_engine_node and optimize_and_finalize emit for them, equality decided by z3 per path", "translation_validation", TVN + " A shifted address whose factors are fractional but whose product is whole is a listed known finding with its own probe."),
    "C08": (TV, "translation_validation", TVN),
    "C09": ("symbolic execution of the real interpret.py on solver proxies jointly with a reference definition of every operation; agreement of value, memory, operand order and faults decided by z3 on every path", "model_checking", "Every operand value and initial memory within the listed tree shapes (operand counts up to 4, nesting up to 2, at most a few memory cells); transcendental functions are uninterpreted. The reference definition in engine/ and checks/c09.py is ours, written from the runtime's documented operations."),
    "C10": ("symbolic execution of the real OutputNodeGenerator (from its current source) on node trees with symbolic leaf values, every equality pattern a path decided by z3; plus translation validation of the trees decoded from the node lists compile_mode packs", "model_checking", "Tree shapes are generated (up to 13 constructions, shared and near-equal subtrees); leaf values are all finite numbers. Packed engine data is validated per program as in C01."),
    "C11": ("symbolic execution of the real Collection class (from its current source) on symbolic strings and asset bytes - an ordered universe of atoms whose equalities and order are decided by z3 on every path", "model_checking", "All names, languages, texts and asset contents within the stated sizes (items, languages, assets, archive entries); SHA-1 is an uninterpreted injective function and the zip reader is a stand-in."),
    "C12": (FE, "translation_validation", FEN),
    "C13": (FE, "translation_validation", FEN),
    "C14": (FE, "translation_validation", FEN + " Containers are compared with reference models written from their documentation (engine/femodel.py); half of the programs are compiled with terminating run-time checks, so refused operations are compared too."),
    "C15": (FE, "translation_validation", FEN + " Ranges are compared with the sequence of values Python's range denotes, built lazily under the path condition; generators, comprehensions and helpers run as Python's own."),
    "C16": ("symbolic execution of the compiled random helpers with every draw outcome symbolic: the set of behaviours over all draws is compared with the set Python allows, membership and range decided by z3; counterexamples replayed on the real interpreter", "model_checking", FEN + " A draw of RandomInteger takes every integer of its range, a draw of Random every real; uniformity of the engine's own generator is outside the claim."),
    "C17": ("symbolic execution of compiled archetype callbacks from an arbitrary content of all declared slots, compared with Python running the same source on field-by-field models; slot disjointness and containment checked on every access; counterexamples replayed on the real interpreter", "translation_validation", FEN + " Archetype declarations (inheritance, mixins, nested types), globals, exports, spawns and references to other entities are generated; overlap of an entity's own data with the all-entities array is outside the model."),
    "C18": (FE, "translation_validation", FEN + " Records and arrays are compared with models written from the documentation (engine/femodel.py)."),
    "C19": ("symbolic execution of the compiled library functions and, outside compilation, of their Python bodies on solver proxies; both compared with the documented formulas, equality decided by z3 per path; counterexamples replayed on the real interpreter and the real functions", "translation_validation", FEN + " Equality is over exact reals (replays use 1e-9 on doubles). Easing operations are uninterpreted in compiled code and their Python bodies are compared with the formulas."),
    "C20": ("symbolic execution of compiled geometry programs compared with geometric definitions as point maps; equality of rational functions normalised to polynomials and decided by z3, counterexamples replayed on the real interpreter", "translation_validation", FEN + " Equality is over exact reals with non-zero denominators (replays use 1e-7 on doubles); sine and cosine of one angle are any pair on the unit circle."),
    "C21": ("symbolic execution of the compiled linked-list sort on entity memory with symbolic keys, each path's final links checked against stability, order and permutation by z3, counterexamples replayed on the real interpreter", "translation_validation", FEN + " Keys of all nodes are symbolic for lists of up to 6 nodes and of two nodes for lists of up to 20; list shapes are sampled."),
    "C22": ("symbolic execution of the real level packaging and parsing code (Python, on symbolic numbers and strings) for generated levels, every written value and reference compared by z3 with the source level; distinctness of names decided over symbolic strings", "translation_validation", FEN + " Entity graphs and field types are sampled; values, branches, archetype names and external references are symbolic."),
}
NA = {
    "C23": "reproducibility is about hash seeds, set and dictionary order and repeated process runs of the whole compiler; the quantity that varies is not an input of any function a solver could make symbolic within reach, and comparing runs would be enumeration",
    "C24": "the development server's behaviour is sockets, threads and file watching of a live process; no part of it that matters can be encoded for a solver here",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": f"./run {i} quick", "thorough_cmd": f"./run {i} thorough", "technique": t, "level": l, "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet built")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks, "not_applicable": na,
           "notes": "All checks share ./run; $VERIF_REPO points a check at another tree (used when planting bugs). No hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
