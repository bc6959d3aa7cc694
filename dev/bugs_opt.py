import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import bug
M="sonolus/backend/_opt/midend.pyx"; L="sonolus/backend/_opt/lower.pyx"; A="sonolus/backend/_opt/analysis.pyx"
only=set(sys.argv[1:])
def b(id,*a):
    if not only or id in only:
        d=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"wip",id,"demo.py")
        old=open(d).read() if os.path.exists(d) else "raise SystemExit(3)\n"
        bug(id,*a,old)
b("C03-dead-effect","C03",[(M,"        if f.instrs[i].flags & (FLAG_STMT_ROOT | FLAG_SIDE_EFFECT):\n            if not <bint>live[i]:","        if f.instrs[i].flags & FLAG_STMT_ROOT:\n            if not <bint>live[i]:")],
 "an effectful instruction whose result is stored in a temporary that is never read","the effect is deleted")
b("C04-gvn-offset","C04",[(M,'            key = ("g", f.places[pid].block_ref, ivr, f.places[pid].offset)','            key = ("g", f.places[pid].block_ref, ivr, f.places[pid].offset if ivr < 0 else 0)')],
 "two reads of a non-writable block through the same dynamic index with different constant offsets","the second read is replaced by the first")
b("C04-licm-writable-dynamic","C04",[(M,"""        if f.places[pid].flags & PLACE_WRITABLE:
            return False
        iv = f.places[pid].index_val
        if iv >= 0 and not _licm""","""        iv = f.places[pid].index_val
        if iv < 0 and f.places[pid].flags & PLACE_WRITABLE:
            return False
        if iv >= 0 and not _licm""")],
 "a loop reading a writable block through a loop-invariant dynamic index inside a costly invariant expression, and writing the cell","the read is hoisted out of the loop and sees the stale value")
b("C05-splice-first-const","C05",[(M,"                if istart <= a < istart + icount:\n                    return False","                if istart < a < istart + icount:\n                    return False")],
 "a chain of equality tests whose second block carries a constant to a target shared with the first","parallel edges to one target with different values are merged, so one case delivers the other's value")
b("C05-splice-shared-test","C05",[(M,"        if <int32_t>ic[nxt] > 1:\n            continue","        if <int32_t>ic[nxt] > 2:\n            continue")],
 "a second equality test that two different places lead to","splicing empties a test block that another block still jumps to")
b("C05-const-case-trunc","C05",[(M,"                    if self.e_cond[i] == tval:  # C ==: NaN matches nothing; -0.0 == 0.0","                    if self.e_cond[i] == tval or 0.0 < tval - self.e_cond[i] < 1.0:")],
 "a switch on a constant that is not an integer, with an integer case just below it","the constant switch takes the case of the truncated value")
b("C05-stride-last","C05",[(L,"    for i in range(2, n):\n        case = <double>cases[i]\n        if case != offset + i * stride:","    for i in range(2, n - 1):\n        case = <double>cases[i]\n        if case != offset + i * stride:")],
 "a switch whose cases form an arithmetic progression with stride above one except for the last case","the last case is matched by another value and no longer by its own")
b("C06-pack-hi","C06",[(L,"                    if ue > hi:\n                        hi = ue\n            offset = -1","                    hi = ue\n            offset = -1")],
 "arrays and scalars whose already placed neighbours are visited out of slot order","two live temporaries share a slot")
b("C04-rmw-offset","C04",[(L,"    if places[p1].offset != places[p2].offset:\n        return False\n    cdef int32_t iv1 = places[p1].index_val\n    cdef int32_t iv2 = places[p2].index_val","    cdef int32_t iv1 = places[p1].index_val\n    cdef int32_t iv2 = places[p2].index_val\n    if iv1 < 0 and places[p1].offset != places[p2].offset:\n        return False")],
 "a store to block[i + c] of block[i + d] combined with a value, same dynamic index and different constant offsets","the read-modify-write is fused although it reads another cell")
b("C01-test-after-store","C01",[(L,"            hi = self.src.blocks[b].instr_start + self.src.blocks[b].instr_count\n        elif upos >= 0:","            hi = self.src.blocks[b].instr_start + self.src.blocks[b].instr_count - 1\n        elif upos >= 0:")],
 "a branch test on a memory cell read before the last statement of the block overwrites it","the test sees the new value")
b("C08-preheader-operand","C08",[(M,"            if len(entry_edges) == 1:\n                pre_operand = old_opmap[entry_edges[0]]","            if len(set(old_opmap[e] for e in entry_edges)) <= len(back_edges):\n                pre_operand = old_opmap[entry_edges[0]]")],
 "a loop with two entries carrying different initial values of a variable and an invariant expression worth hoisting","the initial value of one entry is used for both")
b("C06-copy-cycle","C06",[(M,"            result.append((n, d))\n            loc[d] = n\n            ready.append(d)","            result.append((n, d))\n            loc[d] = n if len(pcopy) < 4 else d\n            ready.append(d)")],
 "a simultaneous exchange of four or more variables that forms a cycle","the first overwritten variable of the cycle is lost")
b("C08-loop-body","C08",[(A,"        if not bs_get(lbody, u):\n            bs_set(lbody, u)\n            sp = 0","        if not bs_get(lbody, u):\n            bs_set(lbody, u)\n            if b == h:\n                continue\n            sp = 0")],
 "x","x")
b("C06-coalesce-extras","C06",[(L,"            if bs_get(&pbase[<int64_t>rt0 * ew], sd) or (\n                    xgen[td] == wgen[rt0] and bs_get(&pextra[<int64_t>td * ew], sd)):","            if bs_get(&pbase[<int64_t>rt0 * ew], sd):")],
 "three or more variables connected by copies where an earlier merge makes a later pair interfere","two simultaneously live variables share storage")
