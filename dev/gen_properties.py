import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
OPT="sonolus/backend/_opt/"
p("C01","Optimization preserves program behaviour at every level",
"For every callback program and every optimization level (minimal, fast, standard), the optimized and emitted node tree leaves the same values in all non-temporary memory, performs the same sequence of side effects with the same arguments, and returns the same result as the unoptimized program does. This holds for every initial memory content and every random draw on which the unoptimized program is well defined.",
["programs","inputs"],"all control-flow graphs the frontend can produce, all initial memory contents, all random draws, all three levels",
"Differential tests run a few hundred drawn programs on one concrete memory image each, so a wrong rewrite guarded by a rare value is never executed.",
[OPT+"midend.pyx",OPT+"lower.pyx",OPT+"analysis.pyx",OPT+"driver.pyx",OPT+"ir.pyx",OPT+"emit.pyx","sonolus/backend/optimize/__init__.py"],
[("pass pipelines per level",OPT+"driver.pyx:_pipeline"),("SSA construction/destruction, SCCP, GVN, DCE",OPT+"midend.pyx"),("if-conversion, tree building, coalescing, allocation",OPT+"lower.pyx")],
observe=["optimize_and_finalize()","run_passes()","Interpreter.run()"])
p("C02","Constant folding agrees with runtime evaluation",
"Whenever the optimizer replaces an operation on constant operands by a constant, that constant is exactly the value the runtime would compute for those operands. Operations the runtime would fail on (division by zero, logarithm of a non-positive number, overflow, a complex power and the like) are never folded to a value.",
["inputs"],"all foldable operations and all double operands, including signed zeros, infinities and NaN",
"Hypothesis samples operand tuples; exact boundaries (clamp edges, sign of zero, window bounds, integrality, 32-bit exactness) are points of measure zero.",
[OPT+"kernels.pyx",OPT+"midend.pyx","sonolus/backend/interpret.py"],
[("per-op fold kernel",OPT+"kernels.pyx:fold_op"),("algebraic identities with one known operand",OPT+"midend.pyx (SCCP)")],
observe=["kernels.fold()","optimize_and_finalize()"])
p("C03","Optimization introduces no fault, effect or random draw",
"An optimized program never evaluates an operation that can fail (division, modulo, logarithm, memory access at a bad index) on an execution where the original program did not evaluate it successfully. Side effects and random draws that the original performs and uses are performed exactly once each, in the original order, under the original condition.",
["programs","inputs"],"all programs with guarded operations, side effects and random draws; all inputs",
"Tests compare final memory on inputs that mostly satisfy the guard; a hoisted or duplicated evaluation is invisible unless the guard is false and the operation fails there.",
[OPT+"midend.pyx",OPT+"lower.pyx","sonolus/backend/ops.py"],
[("pinned/side-effect instruction flags",OPT+"ir.pyx"),("loop-invariant hoisting guard",OPT+"midend.pyx (LICM)"),("if-conversion arm conditions",OPT+"lower.pyx (if_convert)"),("operation purity table","sonolus/backend/ops.py")],
observe=["optimize_and_finalize()","Interpreter.run()"])
p("C04","Memory reads always see the latest aliasing write",
"After optimization every read of engine memory returns the value of the most recent write to that address, also when addresses are computed at run time, go through pointers, or overlap with constant addresses, in straight-line code and across branches and loop iterations. Reads are treated as unchanging only for memory that the given mode and callback cannot write.",
["programs","inputs","configurations"],"all interleavings of constant-index, computed-index and pointer reads and writes, all index values, all modes and callbacks",
"Whether two computed addresses coincide depends on runtime values; tests use fixed, mostly distinct addresses.",
[OPT+"midend.pyx",OPT+"lower.pyx",OPT+"ir.pyx","sonolus/backend/blocks.py"],
[("writability of a place",OPT+"ir.pyx:_writable_for_block"),("memory dependence in GVN/LICM",OPT+"midend.pyx"),("delayed evaluation across writes",OPT+"lower.pyx (treeify)"),("read-modify-write fusion",OPT+"lower.pyx (fuse_rmw)")],
observe=["optimize_and_finalize(config=OptimizerConfig(mode, callback))"])
p("C05","Multi-way branches take the matching case for every test value",
"For every value of the test expression a multi-way branch continues at the target of the case equal to that value, at the default target when no case matches, and leaves the program when no case matches and there is no default. This holds for any set of case values - sparse, dense, offset, strided, negative, fractional or very large - through optimization and emission.",
["programs","inputs"],"all case sets, with and without default, all test values including fractional and out-of-range ones",
"Table normalisation and dense-switch emission depend on arithmetic relations between the case values and on which unlisted values reach the test; tests try a handful of case sets and mostly listed values.",
[OPT+"lower.pyx",OPT+"emit.pyx",OPT+"midend.pyx"],
[("switch offset/stride normalisation",OPT+"lower.pyx:_normalize_switch"),("if-chain to switch rewriting",OPT+"midend.pyx (rewrite_switch)"),("terminator emission",OPT+"emit.pyx:_terminator_node")],
observe=["optimize_and_finalize()","cfg_to_engine_node()"])
p("C06","Temporaries keep their values and fit the temporary area",
"A temporary value or temporary array element read after being written always yields the last value written to it, whatever other temporaries are in use, because no two simultaneously live temporaries are placed in overlapping storage. All temporary storage lies within the 4096 slots available, and a program that cannot fit is rejected with an error rather than miscompiled.",
["programs","inputs"],"all live-range shapes (branches, loops, arrays with computed indices), all sizes around the storage limit, all levels",
"Overlap is only visible for the particular interleaving of live ranges that a program has; tests check selected shapes.",
[OPT+"lower.pyx",OPT+"analysis.pyx",OPT+"midend.pyx"],
[("bump and packing allocators",OPT+"lower.pyx:allocate_func"),("liveness analysis",OPT+"analysis.pyx"),("copy coalescing and parallel-copy sequencing",OPT+"lower.pyx, "+OPT+"midend.pyx (out_of_ssa)")],
state=[("temporary block","block 10000, 4096 slots",OPT+"lower.pyx")],
observe=["optimize_and_finalize()","run_passes()"])
p("C07","Emission is a faithful encoding of the control-flow graph",
"The node tree emitted for a control-flow graph whose temporaries have been placed computes exactly what the graph specifies: same statement order, same branch targets, same addresses, same returned value. Emitting directly after optimizing and emitting from the exported optimized graph produce equivalent trees.",
["programs","inputs"],"all allocated control-flow graphs, all inputs",
"Emission has many special shapes (shifted addressing, flattened sums, dense tables, elided exits); golden tests pin a few trees and run few inputs.",
[OPT+"emit.pyx",OPT+"ir.pyx","sonolus/backend/optimize/__init__.py"],
[("value/place/terminator emission",OPT+"emit.pyx:_Emitter"),("marshalling in and out of the arena",OPT+"ir.pyx")],
observe=["cfg_to_engine_node()","optimize_and_finalize()","run_passes()"])
p("C08","Loops keep their iteration behaviour",
"A loop in an optimized program runs the same number of iterations, with the same values of all loop-carried variables in each iteration, and leaves the same values behind on exit as in the unoptimized program, including loops that run zero times, nested loops, loops with several exits or several back edges, and loops swapping variables.",
["programs","inputs"],"all loop shapes and carried-variable dependences, all trip counts up to the stated bound",
"Zero-trip and early-exit paths, swap cycles among loop variables and values that become invariant only in an inner loop are rare combinations that sampled programs on one memory image hardly reach.",
[OPT+"midend.pyx",OPT+"analysis.pyx",OPT+"lower.pyx"],
[("loop detection and invariant hoisting",OPT+"midend.pyx (LICM), "+OPT+"analysis.pyx"),("phi placement and destruction",OPT+"midend.pyx (build_ssa, out_of_ssa)")],
observe=["optimize_and_finalize()"])
p("C09","The reference interpreter implements the node semantics",
"For every operation it supports the interpreter returns the value, performs the memory accesses and evaluates the operands in the order and number of times that the Sonolus runtime defines for that operation. Control operations evaluate only the selected operands, updates modify exactly the addressed slot, and integer-only operands reject fractional values.",
["inputs","programs"],"all supported operations, all operand values, all memory contents",
"Tests compare selected ops on sampled operands; the interpreter is itself the oracle of most backend tests, so its own errors are invisible to them.",
["sonolus/backend/interpret.py","sonolus/backend/ops.py"],
[("operation dispatch","sonolus/backend/interpret.py:Interpreter.run"),("memory access","sonolus/backend/interpret.py:Interpreter.get/set")],
observe=["Interpreter.run()","Interpreter.blocks","Interpreter.log"])
p("C10","Packed node lists decode to the original trees",
"Adding node trees to an output node list and decoding the returned index gives back a tree equal to the one added, for any number of trees sharing any subtrees. Equal subtrees share one entry, every argument index refers to an earlier entry, and earlier indices stay valid when more trees are added.",
["inputs","histories"],"all sequences of trees up to the stated size with arbitrary operation and leaf equalities",
"The order and equality pattern of subtrees decides which entry is reused; tests cover none of it directly.",
["sonolus/build/node.py","sonolus/backend/node.py"],
[("structural deduplication","sonolus/build/node.py:OutputNodeGenerator.add")],
observe=["OutputNodeGenerator.add()","OutputNodeGenerator.get()"])
p("C11","Collections keep, localize and link items correctly",
"Text fields of an added item become the English text if there is one, otherwise the text of the alphabetically first language, otherwise empty, leaving plain strings and all other data (except metadata) unchanged. Linking replaces exactly the references that name an existing item of the right category, merging collections lets the newer entry win without losing others, and stored assets are found again under their content hash.",
["inputs","histories"],"all combinations of present languages, fields, tags, references and existing items within the stated sizes",
"Tests use a few fixed items; the interplay of missing languages, missing items and reference forms is combinatorial.",
["sonolus/build/collection.py","sonolus/build/project.py"],
[("localization","sonolus/build/collection.py:Collection._localize_item"),("linking","sonolus/build/collection.py:Collection.link"),("merge","sonolus/build/collection.py:Collection.update")],
observe=["Collection.add_item()","Collection.link()","Collection.update()","Collection.add_asset()"])
p("C12","Compiled control flow behaves as the Python source",
"A function compiled for the engine executes its if/elif/else, while, for, break, continue, else clauses, match statements, conditional expressions, short-circuit operators, early returns and nested function calls exactly as Python executes the same source: same branches, same side-effect order, same final values. This holds for all inputs read at run time.",
["programs","inputs"],"all nestings of the supported control statements up to the stated depth, all runtime inputs",
"Script tests run each construct on a few constants, often folded at compile time; nestings and runtime-only inputs are not enumerable by example.",
["sonolus/script/internal/visitor.py","sonolus/script/internal/context.py","sonolus/script/internal/builtin_impls.py"],
[("AST visitor","sonolus/script/internal/visitor.py"),("context merging and scope bindings","sonolus/script/internal/context.py")],
observe=["compiled callback CFG","node tree run by Interpreter"])
p("C13","Compiled arithmetic and comparison behave as Python numbers",
"Every numeric operator and numeric builtin applied to runtime values (+ - * / // % ** unary minus, comparisons and chains, and/or/not, abs, min, max, round, floor, ceil, trunc and augmented assignment) gives the value Python gives for the same operands wherever both are defined. Mixing compile-time constants and runtime values does not change the result.",
["inputs","programs"],"all operators, all operand values (finite), all constant/runtime mixtures",
"Tests evaluate sampled operands; negative operands, exact multiples and constant/runtime mixtures are the places where implementations diverge.",
["sonolus/script/num.py","sonolus/script/internal/math_impls.py","sonolus/script/internal/builtin_impls.py"],
[("number operators","sonolus/script/num.py:Num"),("math function replacements","sonolus/script/internal/math_impls.py")],
observe=["compiled callback CFG"])
p("C14","Containers behave as their abstract data types",
"Arrays, variable-length arrays, sets, maps and frozen number sets behave after any sequence of operations as the corresponding Python list, set or dict restricted to the capacity: same contents, order, lengths, membership, return values and indices. Operations refused for lack of room or a missing element leave the container unchanged.",
["histories","inputs"],"all operation sequences up to the stated length from arbitrary reachable contents, all element and index values",
"Behaviour depends on the operation history and on equalities between elements; tests replay short fixed histories.",
["sonolus/script/containers.py","sonolus/script/array.py","sonolus/script/array_like.py"],
[("variable arrays, sets, maps","sonolus/script/containers.py"),("search, sort, reverse, index normalisation","sonolus/script/array_like.py")],
observe=["container methods compiled or run directly"])
p("C15","Ranges and iteration helpers visit what Python visits",
"Iterating a range, array, reversed view, enumeration, zip, mapping, filter or generator in compiled code visits the same elements in the same order and the same number of times as in Python. Length, indexing, membership and equality of ranges agree with Python's range for all integer bounds and non-zero steps.",
["inputs","programs"],"all integer start/stop/step within the stated bound, all container contents",
"Off-by-one errors appear only for particular sign and divisibility relations between start, stop and step.",
["sonolus/script/internal/range.py","sonolus/script/iterator.py","sonolus/script/internal/builtin_impls.py"],
[("range arithmetic","sonolus/script/internal/range.py:Range"),("iterator combinators","sonolus/script/iterator.py")],
observe=["Range methods","compiled for loops"])
p("C16","Random helpers stay in range for every draw",
"For every possible outcome of the underlying random draw, randrange and randint return a value Python could return for the same arguments, every such value is reachable, choice returns an element of the sequence, shuffle produces a permutation and can produce every permutation, and random() is in [0, 1).",
["inputs","schedules"],"all draw outcomes, all integer bounds and steps within the stated bound, sequences up to the stated length",
"Tests draw a few random values; the out-of-range draw is one in many.",
["sonolus/script/internal/random.py"],
[("random implementations","sonolus/script/internal/random.py")],
observe=["compiled random.* calls"])
p("C17","Declared memory never overlaps and always stays in its block",
"Every field of a record, element of an array, archetype memory/data/shared field and global variable is stored in its own slots of the memory block its declaration names: writing one never changes another, reading it back gives the value written, and all its slots lie within the declared size.",
["configurations","inputs"],"all combinations of nested field types up to the stated depth, all values and indices",
"Overlap depends on the sizes of all preceding declarations; tests declare a few layouts.",
["sonolus/script/record.py","sonolus/script/array.py","sonolus/script/globals.py","sonolus/script/archetype.py","sonolus/script/internal/context.py"],
[("field offsets","sonolus/script/record.py, sonolus/script/archetype.py"),("global placement","sonolus/script/globals.py, sonolus/script/internal/context.py")],
observe=["compiled callback CFG memory accesses"])
p("C18","Records and arrays follow the documented value semantics",
"Assigning or passing a record or array aliases it exactly as documented, while copy(), element assignment into arrays and field assignment copy it: afterwards changing one copy never changes the other and changing through an alias always does. Equality and copying cover every nested field.",
["programs","inputs"],"all nestings of records and arrays up to the stated depth, all sequences of alias/copy/mutate operations up to the stated length, all values",
"A missed or extra copy shows only when the source is modified afterwards in a particular order.",
["sonolus/script/record.py","sonolus/script/array.py","sonolus/script/values.py","sonolus/script/internal/value.py","sonolus/script/internal/visitor.py"],
[("copy and set protocol","sonolus/script/internal/value.py and subclasses")],
observe=["compiled callback CFG"])
p("C19","Numeric library functions agree compiled, interpreted and defined",
"Easing, interpolation, clamping, remapping, interval, judgment and number-packing functions give the same value whether evaluated directly in Python, compiled to an engine operation, or folded at compile time, and that value is the one of the documented formula. Interval predicates and operations agree with their set meaning.",
["inputs"],"all finite arguments (and all window bounds), all functions of the numeric library",
"Piecewise definitions differ only at or beyond their boundary points, which sampling rarely hits.",
["sonolus/script/easing.py","sonolus/script/interval.py","sonolus/script/bucket.py","sonolus/script/numtools.py","sonolus/backend/interpret.py",OPT+"kernels.pyx"],
[("native function pairs","sonolus/script/internal/native.py"),("interval algebra","sonolus/script/interval.py")],
observe=["library functions","Interpreter.run()"])
p("C20","Vector, quad and transform algebra satisfies its laws",
"Composing transforms and then applying them equals applying them one after another, inverse transforms undo their transforms where they exist, and rotations, translations, scalings, reflections about a pivot act on points as their geometric definitions say. Quad and rectangle helpers move, scale, rotate and permute exactly the corners they document.",
["inputs"],"all real coordinates, angles and factors (exact real arithmetic)",
"The laws are polynomial identities over all coordinates; tests compare floats at sampled points with tolerances that hide sign and term errors at special positions.",
["sonolus/script/transform.py","sonolus/script/vec.py","sonolus/script/quad.py"],
[("transform composition","sonolus/script/transform.py"),("vector/quad arithmetic","sonolus/script/vec.py, sonolus/script/quad.py")],
observe=["Transform2d, InvertibleTransform2d, Vec2, Quad, Rect methods"])
p("C21","Linked-list sorting returns a sorted permutation",
"Sorting a linked list of entities yields a list containing exactly the original nodes once each, in non-decreasing order of key, with nodes of equal keys in their original order, correct end marker and, for doubly linked lists, consistent back links.",
["inputs"],"all key values and equality patterns, list lengths up to the stated bound",
"Merge boundaries depend on the relative order of all keys and on the length's relation to powers of two.",
["sonolus/script/containers.py"],
[("bottom-up merge sort","sonolus/script/containers.py:sort_linked_entities, sort_linked_entities_backed..")],
observe=["sort_linked_entities()"])
p("C22","Level packaging keeps entities, references and values",
"Building level data gives every entity a unique name, keeps their order and archetype, writes each imported field under its declared name with the value given, and writes every entity reference as the name of exactly the entity it refers to. Reading external level data back yields the same entities and values.",
["inputs","configurations"],"all entity graphs and field values within the stated size",
"Reference resolution depends on the graph of references between entities, including cycles and repeated references; tests use a fixed example.",
["sonolus/build/level.py","sonolus/script/archetype.py","sonolus/script/level.py"],
[("level data entries","sonolus/script/archetype.py:_level_data_entries"),("reference naming","sonolus/build/level.py:build_level_data")],
observe=["build_level_data()","parse_external_level_data()"])
p("C23","Builds are reproducible",
"Building the same project twice, in different processes and with different hash seeds, produces byte-identical engine and level files.",
["schedules","configurations"],"all process hash seeds, build orders and thread schedules",
"One run sees one hash seed.",
["sonolus/build/engine.py",OPT+"driver.pyx"],
[("ordered traversal and deterministic compression","sonolus/build/engine.py, "+OPT+"ir.pyx")],observe=["package_engine()"])
p("C24","The development server serves the last complete build",
"Requests to the development server are answered from one complete build, never from a mixture of an old and a new build, and a failed rebuild leaves the previous build available.",
["schedules","fault_sequences"],"all interleavings of requests, rebuild commands and build failures",
"Tests do not start the server.",
["sonolus/build/dev_server.py","sonolus/build/cli.py"],
[("rebuild command handling","sonolus/build/dev_server.py")],observe=["HTTP responses"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
