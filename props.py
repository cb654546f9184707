"""The bounded stages that decide every property."""
LEVEL = "model_checking"
TECHNIQUE = "symbolic execution of the compiled Rust code (LLVM bitcode, regenerated from /repo) with SMT (Z3 bit-vectors); counterexamples and sampled paths replayed natively"
NOTE = "Every assertion is decided for all values of the symbolic inputs within the stated bounds (number and kind of operations, sizes, degrees, random outcomes); each stage of the evidence states its bounds and whether its space was exhausted. Nothing is claimed beyond them."
ASSUMPTIONS = [
    "The code is executed from the LLVM bitcode rustc 1.77.2 emits for /repo and std at opt-level 2 with overflow and debug assertions on; the code generator below it is trusted.",
    "The symbolic executor, its models of libc and its order closure (cross-checked by Z3) are trusted up to the validation by native replay of sampled paths.",
    "Nothing is claimed beyond the stated bounds of every stage.",
]
INS, REM, CLR, GET, CON, FLO, CEI, EXT, ITE = (1 << i for i in range(9))
IR = INS | REM
MIX = INS | REM | CLR | GET | CON | FLO | CEI | EXT | ITE
DRAIN = 16
RNG = {0: "the generator's own (fixed-seed) stream", 9: "arbitrary 8-bit priorities, ties included", 10: "arbitrary 32-bit priorities"}
# which feature of the harness crate has an entry
def feature(entry):
    name = entry.split("_", 1)[1]
    if name == "arena" and entry != "t_arena": return "arena"
    if entry.startswith("t_"): return "drops"
    if name.startswith("lsm"): return "lsm"
    if entry.startswith(("a_", "s_")): return "algebra"
    if entry.startswith("p_bp"): return "layout"
    if name == "bp": return "bp"
    if name == "stack": return "stack"
    if name.endswith("_list"): return "lists"
    if name.startswith("radix"): return "radix"
    return "maps"
KINDS = ["insert", "remove", "clear", "get", "contains", "floor", "ceil", "min/max", "iterate"]

def S(entry, *args, **kw):
    return dict(entry=entry, args=list(args), **kw)
def rng(h):
    return RNG.get(h, "%d tower heights (of 0,1,2,32,3,31,5,8 leading zeros, in that order), chosen freely per node" % h)
def Q(stages):
    return [dict(s, tier="quick") for s in stages]
def T(stages):
    return [dict(s, tier="thorough") for s in stages]

def M(entry, pre, orders, n, mask, h=0, **kw):
    ks = ", ".join(k for i, k in enumerate(KINDS) if mask >> i & 1)
    b = "%d arbitrary ordered 8-bit keys inserted in %d orders%s, then %d operations (%s) with arbitrary 8-bit keys, then every query with an arbitrary probe; random outcomes: %s" % (
        pre, orders & 15, ", an arbitrary interval of them removed from either end" if orders >= 16 else "", n, ks if n else "none", rng(h))
    return S(entry, pre, orders, n, mask, h, bounds=b, **kw)
def D(entry, pre, orders, n, mask, **kw):
    s = M(entry, pre, orders, n, mask, 0, **kw)
    s["args"] = s["args"][:4]
    s["bounds"] = s["bounds"].replace("every query with an arbitrary probe", "the stored keys compared by contains, get, floor and ceil of an arbitrary probe are counted")
    return s
def both(f, name, *a, **kw):
    return [f("%s_map" % name, *a, **kw), f("%s_set" % name, *a, **kw)]
def tree(name):
    m = "h_%s_map" % name
    s = "h_%s_set" % name
    return (Q([M(m, 0, 1, 5, IR), M(m, 0, 1, 4, MIX), M(m, 7, 3, 2, IR), M(m, 16, 5, 1, IR), M(m, 10, 5 | DRAIN, 0, IR),
               M(s, 0, 1, 4, MIX), M(s, 7, 5, 1, IR)]) +
            T([M(m, 0, 1, 6, IR), M(m, 0, 1, 5, MIX), M(m, 8, 5, 2, IR), M(m, 9, 5, 3, IR), M(m, 30, 5, 1, IR), M(m, 20, 5 | DRAIN, 0, IR), M(m, 10, 5 | DRAIN, 1, IR), M(s, 0, 1, 6, IR), M(s, 8, 5, 2, IR)]))
def depth(name):
    m = "d_%s_map" % name
    s = "d_%s_set" % name
    return (Q([D(m, 0, 1, 5, IR), D(m, 8, 3, 2, IR), D(m, 20, 5, 1, IR), D(m, 12, 5 | DRAIN, 0, IR), D(m, 16, 2 | DRAIN, 0, IR), D(m, 8, 2 | DRAIN, 1, IR), D(s, 0, 1, 4, IR), D(s, 12, 2 | DRAIN, 0, IR)]) +
            T([D(m, 0, 1, 7, IR), D(m, 8, 5, 2, IR), D(m, 20, 2 | DRAIN, 0, IR), D(m, 33, 5, 1, IR), D(m, 33, 5 | DRAIN, 0, IR), D(m, 12, 5 | DRAIN, 1, IR), D(m, 10, 5, 4, REM), D(s, 20, 5 | DRAIN, 0, IR)]))

OPS = ["union", "intersection", "difference", "symmetric difference", "+", "-"]
def A(entry, na, nb, asc, ops, after, h, **kw):
    b = "operands of %s%d and %d arbitrary 8-bit keys %s; %s; then %d arbitrary insertions/removals and every query; random outcomes: %s" % (
        "up to " if asc >= 2 else "", na, nb, "in any insertion order" if asc in (0, 3) else "inserted ascending", ", ".join(o for i, o in enumerate(OPS) if ops >> i & 1), after, rng(h))
    return S(entry, na, nb, asc, ops, after, h, bounds=b, **kw)
def SP(entry, n, asc, after, h, **kw):
    b = "%d arbitrary 8-bit keys %s, split at an arbitrary key, inclusive or not; then %d arbitrary insertions/removals on either part and every query; random outcomes: %s" % (n, "in any insertion order" if asc == 0 else "inserted ascending", after, rng(h))
    return S(entry, n, asc, after, h, bounds=b, **kw)
LK = ["insert", "remove", "push_front", "push_back", "pop_front", "pop_back", "clear", "get_mut"]
def L(entry, pre, n, mask, cat, h, **kw):
    b = "%d pushes, then %d operations (%s) at arbitrary indices%s; every read checked, an arbitrary index past the end too; random outcomes: %s" % (
        pre, n, ", ".join(k for i, k in enumerate(LK) if mask >> i & 1), ", one concatenation (either way round) with a list of up to %d values at any point" % (cat - 1) if cat else "", rng(h))
    return S(entry, pre, n, mask, cat, h, bounds=b, **kw)
def X(entry, pre, n, mask, h, **kw):
    b = "%d pushes and %d arbitrary list operations, then one call with an arbitrary invalid 64-bit index (real unwinding), then further operations; random outcomes: %s" % (pre, n, rng(h))
    return S(entry, pre, n, mask, h, bounds=b, **kw)
def R(entry, pre, n, mask, mx, *what, **kw):
    b = "%d insertions and %d operations (mask %d: 1 insert, 2 remove, 4 clear) with arbitrary byte strings of up to %d bytes, then the queries with an arbitrary probe" % (pre, n, mask, mx)
    return S(entry, pre, n, mask, mx, *what, bounds=b, **kw)
def O(entry, pre, n, ops, other, h, **kw):
    b = "%d insertions, %d operations, then every way of ending the collection (drop, iterator consumed up to any point, overwritten, combined or split with one of %d entries); heap-owning keys and values, arbitrary 8-bit keys; random outcomes: %s" % (pre, n, other, rng(h))
    return S(entry, pre, n, ops, other, h, bounds=b, **kw)
def AR(entry, chunk, pre, n, *k, **kw):
    b = "any chunk size below %d, %d allocations, then %d operations on arbitrary handles with arbitrary values" % (chunk, pre, n)
    return S(entry, chunk, pre, n, *k, bounds=b, **kw)

def BP(entry, leaf, internal, pre, orders, n, mask, *k, **kw):
    def deg(d):
        return "%d" % d if d < 100 else "%d to %d" % (d % 100, d % 100 + d // 100)
    kinds = ["insert", "remove", None, "clear"] if entry == "e_bp" else ["insert", "remove", "clear", "get/contains", "min/max", "iterate", "close and open"]
    ks = ", ".join(x for i, x in enumerate(kinds) if x and mask >> i & 1)
    b = "leaf degree %s, internal degree %s; %d arbitrary ordered 8-bit keys inserted in %d orders%s, then %d operations (%s) with arbitrary 8-bit keys" % (
        deg(leaf), deg(internal), pre, orders & 15, ", an arbitrary interval of them removed from either end" if orders >= 16 else "", n, ks if n else "none")
    if entry == "h_bp":
        b += ", then " + ("every query with an arbitrary probe", "closed, opened, every query with an arbitrary probe", "closed, opened, possibly changed by an arbitrary insertion or removal and opened again, then every query with an arbitrary probe")[k[0]]
    if entry == "f_bp":
        b += "; all keys removed again in %d orders and reinserted, some removed, cleared and filled again, the file size checked after every call" % k[0]
    if entry == "e_bp":
        b += ", then one call of any kind during which any one file operation (an arbitrary 64-bit index) fails"
    return S(entry, leaf, internal, pre, orders, n, mask, *k, bounds=b, **kw)
DATA = ["u8 -> u8", "u8 -> ()", "u64 -> u8", "u8 -> Option<u8>", "Option<u8> -> u8", "Vec<u8> -> u8", "u8 -> Vec<u8>", "Box<[u8]> -> ()", "NonZeroU8 -> ()", "NonZeroU8 -> u8", "u8 -> NonZeroU8"]
def PB(kind, leaf, internal, pre, n, **kw):
    return S("p_bp", kind, leaf, internal, pre, n, bounds="%s; leaf degree %s, internal degree %s; %d arbitrary ordered keys inserted ascending or descending, %d arbitrary insertions/removals, reopened or not, everything read back" % (DATA[kind], leaf, internal, pre, n), **kw)
def PBB(kind, pre, n, **kw):
    return S("p_bp_big", kind, pre, n, bounds="keys/values of hundreds of bytes (kind %d), node degrees derived from the block size; %d arbitrary ordered keys, %d arbitrary insertions/removals, reopened or not, everything read back" % (kind, pre, n), **kw)
def PBF(kind, n, **kw):
    return S("p_bp_full", kind, n, bounds="small keys/values (kind %d), node degrees derived from the block size (over a hundred entries a node); %d fixed keys ascending or descending, %d removed, reopened or not, everything read back, an arbitrary 16-bit probe" % (kind, n, n // 4), maxinst=4000000000, **kw)

# LSM scripts: a letter and a key (a digit: that key of an ordered pool, ?: any key of the pool, *: an arbitrary key) or a word
LSM_KEYED = {"i": 1, "r": 2, "x": 3, "g": 6, "m": 13}
LSM_WORDS = {"f": 0x04, "F": 0x14, "c": 0x05, "l": 0x07, "e": 0x17, "w": 0x27, "h": 0x37, "q": 0x47, "s": 0x08, "S": 0x18, "z": 0x09, "o": 0x0a, "O": 0x1a, "b": 0x0b, "d": 0x0c, "n": 0x0e}
LSM_TEXT = "i insert, r remove, x insert or remove, m insert or remove or flush or let the compaction run, g lookup (digit: that key of a pool of arbitrary ascending keys, ?: any of them, *: an arbitrary key); f/F flush/or not, s/S the background compaction finishes/or not, o/O close and open/or not, c clear, q every query, w iterate, l length, e extremes, h length hint, z any one file operation of the background thread fails from there on, b open an iterator and hold it, n step it, d drain it"
def lsm_script(t):
    bs = []
    for w in t.split():
        k, _, n = w.partition("^")
        if n.isdigit() and k:
            bs += [lsm_op(k)] * int(n)
        else:
            bs.append(lsm_op(w))
    assert len(bs) <= 24
    bs += [0] * (24 - len(bs))
    return [int.from_bytes(bytes(bs[i:i + 8]), "little") for i in (0, 8, 16)]
def lsm_op(w):
    return LSM_WORDS[w] if w in LSM_WORDS else LSM_KEYED[w[0]] | {"?": 14, "*": 15}.get(w[1], int(w[1]) if w[1].isdigit() else 0) << 4
def LSM(strategy, cfg, npool, script, fin=7, preempt=0, fp=0, entry="h_lsm", **kw):
    d = [cfg // 10 ** i % 10 for i in range(5)]
    t = {0: "never flushed by size", 1: "flushed at every insertion", 2: "flushed beyond an arbitrary 64-bit limit"}
    z = {0: "0", 1: "1 MiB", 2: "an arbitrary 64-bit number"}
    b = "in-memory tree %s; at most %s tables" % (t[d[0]], "an arbitrary number of" if d[1] == 9 else d[1])
    if strategy == 0:
        b += "; size-tiered, minimal table size %s, bucket bounds %s" % (z.get(d[2], z[2]), ["0.5-1.5", "0-100", "1-1", "0.9-1.1"][d[3] & 3])
    else:
        b += "; leveled, maximal table size %s, %d tables in the first level, growth factor %d" % (z.get(d[2], z[2]), d[3], d[4])
    b += "; script '%s' (%s) with %d pool keys" % (script, LSM_TEXT, npool)
    b += "; Bloom filters exact" if not fp else "; any %d answers of Bloom filters false positives" % fp
    b += "; the background thread runs when waited for or when the script says so" if not preempt else "; every schedule with up to %d preemptions" % preempt
    b += "; finally a lookup of an arbitrary key" + ", containment" * (fin & 1) + ", length hint and extremes" * (fin >> 1 & 1) + ", iteration and length" * (fin >> 2 & 1) + ", all again after reopening" * (fin >> 3 & 1)
    return S(entry, strategy + 2 * fp, cfg, npool, *lsm_script(script), fin, preempt, bounds=b, script=script, sched=preempt > 0, **kw)

LSM_CALLS = ["insert", "remove", "clear", "flush", "get", "contains", "min", "max", "len", "is_empty", "len_hint", "iterate", "open", "create"]
def LE(strategy, cfg, npool, script, mask=(1 << 14) - 1, **kw):
    s = LSM(strategy, cfg, npool, script, 0, 0, 0, "e_lsm", **kw)
    s["args"] = s["args"][:6] + [mask]
    s["bounds"] = s["bounds"].split("; finally")[0] + "; then one call (%s) during which any one file operation of the calling thread (an arbitrary 64-bit index) fails" % ", ".join(n for i, n in enumerate(LSM_CALLS) if mask >> i & 1)
    return s

STACK_CALLS = {"p": 1, "o": 2, "a": 3, "l": 4, "e": 5, "d": 6, "x": 7}
def ST(own, pre, scripts, preempt, drain, **kw):
    """scripts: one word per thread, p push, o pop, a push or pop, l length, e emptiness, d pop and drop, x any of push, pop, either, length."""
    enc = [sum(STACK_CALLS[c] << (4 * i) for i, c in enumerate(w)) for w in scripts] + [0] * (3 - len(scripts))
    b = "%d values of type %s pushed before; threads making the calls %s (p push, o pop, d pop and drop, a push or pop, l length, e emptiness, x any); every schedule with up to %d preemptions, at every atomic operation and end of a guard (sequentially consistent memory); then %s" % (
        pre, ("u8 pair (copied)", "an owner of heap memory with counted drops")[own], " | ".join(scripts), preempt, ("the stack is dropped as it is", "the stack is drained and dropped")[drain])
    return S("h_stack", own, pre, *enc, preempt, drain, bounds=b, script=" | ".join(scripts), sched=True, **kw)

PROPS = {
    "P01": dict(stages=tree("avl")),
    "P02": dict(stages=depth("avl")),
    "P03": dict(stages=tree("rb")),
    "P04": dict(stages=depth("rb")),
    "P05": dict(stages=tree("splay")),
    "P06": dict(stages=Q([M("h_treap_map", 0, 1, 4, IR, 9), M("h_treap_map", 0, 1, 3, MIX, 9), M("h_treap_map", 3, 1, 1, IR, 10), M("h_treap_map", 5, 1, 1, IR, 9), M("h_treap_map", 3, 1, 2, IR, 9),
                          M("h_treap_map", 8, 5, 1, IR, 0), M("h_treap_set", 0, 1, 3, MIX, 9), M("h_treap_set", 4, 1, 1, IR, 9)]) +
                       T([M("h_treap_map", 0, 1, 5, IR, 9), M("h_treap_map", 4, 1, 2, IR, 9), M("h_treap_map", 6, 1, 1, IR, 9), M("h_treap_set", 0, 1, 4, IR, 9)])),
    "P07": dict(stages=Q([A("a_treap_map", 2, 2, 3, 63, 0, 9), A("a_treap_map", 3, 2, 2, 15, 0, 9), A("a_treap_map", 2, 1, 1, 15, 1, 9), A("a_treap_map", 4, 4, 2, 15, 0, 0), A("a_treap_set", 2, 2, 2, 63, 0, 9),
                          SP("s_treap_map", 3, 0, 0, 9), SP("s_treap_map", 4, 1, 0, 9), SP("s_treap_map", 3, 1, 1, 9), SP("s_treap_map", 8, 1, 0, 0), SP("s_treap_set", 3, 1, 0, 9)]) +
                       T([A("a_treap_map", 3, 3, 2, 15, 0, 9), A("a_treap_map", 2, 2, 1, 15, 1, 9), A("a_treap_map", 5, 5, 2, 15, 0, 0), A("a_treap_map", 3, 3, 2, 63, 1, 9), A("a_treap_map", 4, 3, 1, 15, 0, 9), A("a_treap_map", 6, 6, 2, 15, 0, 0), SP("s_treap_map", 4, 0, 1, 9), A("a_treap_set", 3, 3, 3, 63, 0, 9)])),
    "P08": dict(stages=Q([L("h_treap_list", 0, 3, 255, 0, 9), L("h_treap_list", 2, 1, 3, 3, 9), L("h_treap_list", 1, 2, 3, 2, 9), L("h_treap_list", 4, 1, 255, 0, 9), L("h_treap_list", 2, 2, 3, 0, 10), L("h_treap_list", 6, 2, 3, 3, 0)]) +
                       T([L("h_treap_list", 3, 2, 3, 0, 9), L("h_treap_list", 2, 2, 3, 3, 9), L("h_treap_list", 6, 3, 3, 3, 0), L("h_treap_list", 0, 4, 255, 0, 9), L("h_treap_list", 2, 3, 3, 3, 9), L("h_treap_list", 4, 2, 255, 0, 9)])),
    "P09": dict(stages=Q([M("h_skip_map", 0, 1, 4, IR, 3), M("h_skip_map", 0, 1, 3, MIX, 3), M("h_skip_map", 2, 1, 1, IR, 8), M("h_skip_map", 3, 1, 2, IR, 2), M("h_skip_map", 3, 1, 1, IR, 5), M("h_skip_map", 0, 1, 3, IR, 6), M("h_skip_map", 4, 2, 1, IR, 3),
                          M("h_skip_map", 8, 5, 1, IR, 0), M("h_skip_map", 10, 2 | DRAIN, 0, IR, 0), M("h_skip_set", 0, 1, 3, MIX, 3), M("h_skip_set", 3, 1, 1, IR, 3)]) +
                       T([M("h_skip_map", 3, 1, 1, IR, 8), M("h_skip_map", 3, 1, 2, IR, 3), M("h_skip_map", 0, 1, 4, IR, 4), M("h_skip_map", 0, 1, 5, IR, 3), M("h_skip_map", 0, 1, 4, MIX, 3), M("h_skip_map", 5, 1, 1, IR, 4), M("h_skip_map", 4, 1, 2, IR, 3), M("h_skip_set", 0, 1, 4, IR, 4)])),
    "P10": dict(stages=Q([A("a_skip_map", 2, 2, 3, 15, 0, 3), A("a_skip_map", 3, 2, 2, 15, 0, 2), A("a_skip_map", 2, 3, 2, 15, 0, 2), A("a_skip_map", 2, 1, 1, 15, 1, 3), A("a_skip_map", 4, 4, 2, 15, 0, 0), A("a_skip_set", 2, 2, 2, 63, 0, 3)]) +
                       T([A("a_skip_map", 2, 2, 3, 63, 0, 3), A("a_skip_map", 3, 2, 2, 15, 0, 3), A("a_skip_map", 2, 2, 1, 15, 1, 3), A("a_skip_map", 5, 5, 2, 15, 0, 0), A("a_skip_map", 3, 3, 2, 15, 0, 3), A("a_skip_map", 2, 2, 1, 63, 1, 8), A("a_skip_map", 3, 3, 1, 15, 1, 2), A("a_skip_map", 6, 6, 2, 15, 0, 0), A("a_skip_set", 3, 3, 2, 15, 0, 2)])),
    "P11": dict(stages=Q([L("h_skip_list", 0, 3, 255, 0, 3), L("h_skip_list", 2, 3, 255, 2, 0), L("h_skip_list", 3, 1, 3, 3, 2), L("h_skip_list", 2, 2, 3, 2, 2), L("h_skip_list", 3, 1, 255, 0, 8), L("h_skip_list", 0, 4, 3, 0, 4), L("h_skip_list", 6, 3, 3, 0, 0)]) +
                       T([L("h_skip_list", 3, 2, 3, 3, 2), L("h_skip_list", 2, 2, 3, 2, 3), L("h_skip_list", 0, 4, 255, 0, 3), L("h_skip_list", 3, 2, 63, 3, 3), L("h_skip_list", 4, 2, 3, 0, 4), L("h_skip_list", 0, 5, 3, 0, 3)])),
    "P12": dict(stages=Q([O("t_%s_%s" % (a, b), 0, 3, 4, 1, 0) for a in ("avl", "rb", "splay") for b in ("map", "set")] + [O("t_%s_map" % a, 4, 2, 3, 1, 0) for a in ("avl", "rb", "splay")] +
                         [O("t_treap_map", 1, 1, 4, 2, 9), O("t_treap_map", 0, 2, 4, 2, 9), O("t_treap_set", 1, 1, 4, 2, 9), O("t_skip_map", 1, 1, 4, 2, 3), O("t_skip_map", 2, 1, 4, 1, 2), O("t_skip_map", 0, 2, 4, 2, 3), O("t_skip_set", 1, 1, 4, 2, 3), O("t_skip_map", 1, 2, 3, 0, 3), O("t_skip_set", 0, 3, 3, 0, 3), O("t_treap_map", 1, 2, 3, 0, 9),
                          O("t_treap_list", 2, 2, 5, 2, 9), O("t_skip_list", 2, 2, 5, 2, 3), O("t_radix_map", 2, 2, 4, 1, 0), O("t_radix_set", 1, 2, 4, 1, 0), S("t_arena", 2, 5, bounds="chunk size 2, 5 operations on arbitrary handles"), S("t_arena", 1, 5, bounds="chunk size 1, 5 operations on arbitrary handles")]) +
                       T([O("t_treap_map", 2, 1, 4, 2, 9), O("t_skip_map", 2, 1, 4, 2, 3), O("t_treap_map", 2, 2, 4, 2, 9), O("t_skip_map", 2, 2, 4, 2, 3), O("t_treap_list", 3, 3, 5, 2, 9), O("t_skip_list", 3, 3, 5, 2, 3), O("t_radix_map", 2, 3, 4, 1, 0), S("t_arena", 3, 7, bounds="chunk size 3, 7 operations")] + [O("t_%s_map" % a, 3, 4, 4, 1, 0) for a in ("avl", "rb", "splay")])),
    "P13": dict(stages=Q([R("h_radix_map", 0, 4, 3, 2), R("h_radix_map", 0, 3, 7, 3), R("h_radix_map", 1, 2, 3, 3), R("h_radix_set", 0, 3, 7, 2), R("h_radix_set", 1, 2, 3, 3)]) +
                       T([R("h_radix_map", 2, 2, 3, 3), R("h_radix_map", 0, 4, 3, 3), R("h_radix_map", 0, 5, 3, 2), R("h_radix_map", 0, 3, 3, 5), R("h_radix_set", 0, 4, 3, 2)])),
    "P14": dict(stages=Q([R("o_radix_map", 0, 3, 7, 3, 3), R("o_radix_map", 0, 4, 3, 2, 3), R("o_radix_map", 3, 1, 3, 2, 7), R("o_radix_set", 0, 3, 7, 2, 7), R("o_radix_map", 0, 3, 3, 2, 7)]) +
                       T([R("o_radix_map", 0, 4, 3, 3, 3), R("o_radix_map", 0, 5, 3, 2, 3), R("o_radix_set", 0, 3, 3, 3, 7)])),
    "P15": dict(stages=Q([s for n in ("avl", "rb", "splay") for s in (M("i_%s_map" % n, 0, 1, 4, IR), M("i_%s_map" % n, 8, 5, 1, IR), M("i_%s_set" % n, 0, 1, 3, IR))] +
                         [M("i_treap_map", 0, 1, 3, IR, 9), M("i_treap_map", 4, 1, 0, IR, 9), M("i_treap_set", 0, 1, 3, IR, 9), M("i_skip_map", 0, 1, 3, IR, 3), M("i_skip_map", 4, 1, 0, IR, 3), M("i_skip_set", 0, 1, 3, IR, 3),
                          L("i_treap_list", 2, 1, 3, 2, 9), L("i_treap_list", 1, 2, 3, 2, 9), L("i_skip_list", 2, 1, 3, 2, 3), R("o_radix_map", 0, 3, 3, 2, 4), R("o_radix_map", 2, 1, 3, 3, 4), R("o_radix_set", 0, 3, 3, 2, 4)]) +
                       T([s for n in ("avl", "rb", "splay") for s in (M("i_%s_map" % n, 0, 1, 5, IR), M("i_%s_map" % n, 15, 5, 1, IR))] + [M("i_treap_map", 0, 1, 4, IR, 9), M("i_skip_map", 0, 1, 4, IR, 3), L("i_treap_list", 2, 2, 3, 2, 9), L("i_skip_list", 2, 2, 3, 2, 3), L("i_treap_list", 3, 3, 3, 3, 9), L("i_skip_list", 3, 3, 3, 3, 2), R("o_radix_map", 0, 4, 3, 3, 4)])),
    "P16": dict(stages=Q([AR("h_arena", 3, 0, 5, 4), AR("h_arena", 4, 3, 4, 4), AR("h_arena", 4, 5, 3, 3)]) + T([AR("h_arena", 4, 0, 7, 3), AR("h_arena", 5, 4, 5, 4)])),
    "P28": dict(stages=Q([X("x_treap_list", 1, 1, 3, 9), X("x_treap_list", 0, 1, 255, 0), X("x_skip_list", 2, 1, 3, 3), X("x_skip_list", 0, 2, 255, 0), AR("x_arena", 3, 2, 2), AR("x_arena", 4, 0, 3)]) +
                       T([X("x_treap_list", 2, 1, 3, 9), X("x_treap_list", 0, 2, 255, 0), X("x_treap_list", 2, 2, 255, 9), X("x_skip_list", 2, 2, 255, 3), AR("x_arena", 4, 2, 3)])),
    "P17": dict(stages=Q([BP("h_bp", 3, 3, 0, 1, 4, 3, 0), BP("h_bp", 3, 3, 0, 1, 3, 63, 0), BP("h_bp", 101, 202, 5, 3, 2, 3, 0), BP("h_bp", 404, 303, 8, 4, 1, 63, 0), BP("h_bp", 201, 302, 7, 20, 0, 3, 0), BP("h_bp", 2, 2, 5, 20, 1, 3, 0), BP("h_bp", 1, 2, 14, 17, 0, 3, 0), BP("h_bp", 2, 3, 16, 2, 1, 3, 0), BP("h_bp", 1, 2, 3, 18, 3, 5, 0)]) +
                       T([BP("h_bp", 3, 3, 0, 1, 7, 3, 0), BP("h_bp", 404, 403, 12, 4, 1, 3, 0), BP("h_bp", 201, 302, 9, 20, 0, 3, 0), BP("h_bp", 2, 2, 6, 20, 2, 3, 0), BP("h_bp", 102, 202, 8, 4, 2, 3, 0), BP("h_bp", 1, 2, 24, 20, 0, 3, 0)])),
    "P18": dict(stages=Q([BP("h_bp", 3, 3, 0, 1, 4, 67, 2), BP("h_bp", 2, 2, 4, 2, 1, 127, 2), BP("h_bp", 3, 3, 7, 4, 0, 3, 2), BP("h_bp", 101, 103, 7, 20, 0, 3, 1), BP("h_bp", 1, 2, 5, 20, 0, 3, 2), BP("h_bp", 104, 4, 12, 3, 0, 0, 2)]) +
                       T([BP("h_bp", 101, 103, 6, 20, 0, 3, 2), BP("h_bp", 2, 2, 4, 2, 2, 67, 2), BP("h_bp", 3, 3, 5, 2, 2, 127, 2), BP("h_bp", 3, 3, 0, 1, 6, 67, 2)])),
    "P19": dict(stages=Q([PB(k, 3, 3, 5, 1) for k in range(11)] + [PB(0, 302, 302, 8, 0), PB(5, 2, 2, 4, 1), PB(8, 1, 2, 6, 1)] + [PBB(k, 5, 1) for k in range(4)] + [PBF(0, 1100), PBF(1, 450), PBF(2, 700)]) +
                       T([PB(k, 203, 203, 7, 1) for k in range(11)] + [PBB(k, 9, 1) for k in range(4)] + [PBF(0, 3000), PBF(1, 1500)])),
    "P20": dict(stages=Q([BP("f_bp", 203, 203, 12, 3, 0, 0, 3), BP("f_bp", 1, 2, 14, 3, 0, 0, 3), BP("f_bp", 2, 2, 5, 2, 2, 3, 1), BP("f_bp", 3, 3, 4, 2, 2, 7, 1), BP("f_bp", 2, 3, 8, 3, 1, 7, 2)]) +
                       T([BP("f_bp", 303, 303, 20, 3, 0, 0, 3), BP("f_bp", 2, 2, 5, 3, 3, 3, 1), BP("f_bp", 3, 3, 8, 2, 2, 7, 1), BP("f_bp", 1, 2, 8, 2, 2, 7, 1)])),
    "P21": dict(stages=Q([LSM(0, 11, 2, "m?^5"), LSM(0, 99991, 2, "m?^4"), LSM(0, 3010, 8, "b i6 i7 f i0 f r0 i2 i3 i4 i5 f d r1 f f r6 r7 r1 r2 r3 f f"), LSM(0, 10, 0, "i* r* f x* f x* f"), LSM(0, 99992, 0, "i* i* i*"), LSM(0, 99992, 0, "x* x* x* c x* q"),
                          LSM(0, 11, 2, "m?^3", fp=2), LSM(0, 1021, 3, "x?^5 s", fp=1), LSM(0, 21, 4, "i0 s i1 s i2 s i3 s r? s i? s x? s"), LSM(0, 1011, 4, "i0 i1 f i2 s i3 s r? s i? s x? s"), LSM(0, 11, 2, "x?^3 c x?^2 s"), LSM(0, 10, 2, "m?^5"), LSM(0, 10, 1, "m?^6")]) +
                       T([LSM(0, 99991, 2, "m?^5"), LSM(0, 22, 3, "x?^4 s"), LSM(0, 11, 2, "m?^6"), LSM(0, 99992, 2, "m?^4"), LSM(0, 11, 3, "m?^5"), LSM(0, 10, 0, "i* r* f x* f x* f x* f"), LSM(0, 2031, 3, "x?^6 s"), LSM(0, 11, 2, "m?^4", fp=3)])),
    "P22": dict(stages=Q([LSM(1, 11011, 2, "m?^5"), LSM(1, 99991, 2, "m?^4"), LSM(1, 12011, 3, "x?^4 s"), LSM(1, 21001, 4, "i0 s i1 s i2 s i3 s r? s i? s x? s"), LSM(1, 11001, 4, "i0 s i1 s i2 s i3 s r? s i? s x? s"), LSM(1, 11010, 0, "i* r* f x* f x* f"),
                          LSM(1, 99992, 0, "i* i* i*"), LSM(1, 12021, 3, "x?^4 s", fp=1), LSM(1, 11011, 2, "x?^3 c x?^2 s"), LSM(1, 12010, 1, "m?^6"), LSM(1, 14001, 4, "i0 s i1 s i2 s i3 s x? s x? s r? s r? s")]) +
                       T([LSM(1, 12010, 2, "m?^5"), LSM(1, 21011, 2, "m?^5"), LSM(1, 12011, 3, "x?^5 s"), LSM(1, 11001, 6, "i0 s i1 s i2 s i3 s i4 s i5 s x? s x? s"), LSM(1, 99991, 2, "m?^5"), LSM(1, 99992, 2, "m?^3"), LSM(1, 11011, 2, "m?^6"), LSM(1, 11001, 8, "i0 s i4 s i2 s i6 s i1 s i5 s i3 s x? s x? s x? s")])),
    "P23": dict(stages=Q([LSM(t, c, 2, "m?^3 O m? O", 15) for t, c in ((0, 11), (1, 11011))] + [LSM(1, 11001, 4, "i0 s i1 s i2 s i3 O r? O i? O x? O", 15), LSM(0, 10, 3, "x? O x? f x? O x? F", 15), LSM(0, 99992, 0, "o x* O x* o", 15), LSM(1, 99992, 0, "o x* O x* o", 15), LSM(0, 11, 3, "x? O x? O x? s", 15), LSM(0, 10, 2, "O x? c O x? O", 15), LSM(1, 11010, 2, "O x? c O x? O", 15)]) +
                       T([LSM(0, 10, 2, "m?^4 O x?", 15), LSM(1, 12010, 2, "m?^4 O x?", 15), LSM(1, 14001, 4, "i0 s i1 s i2 s i3 O r? O i? O x? O", 15), LSM(0, 11, 3, "x? O x? O x? O x? O", 15), LSM(1, 12011, 3, "x? O x? O x? O x? O", 15), LSM(0, 21, 4, "i0 i1 i2 O x? O x? O x? O", 15), LSM(1, 21001, 4, "i0 i1 i2 O x? O x? O x? O", 15), LSM(0, 99991, 2, "m?^3 O m?", 15), LSM(1, 99991, 2, "m?^3 O m?", 15)])),
    "P24": dict(stages=Q([LSM(0, 10, 3, "i0 i1 f r? x? q x? F q"), LSM(1, 12010, 3, "i0 i1 f r? x? q x? F q"), LSM(0, 11, 3, "x? q x? q x? q x? s"), LSM(1, 11011, 3, "x? q x? q x? q x? s"), LSM(1, 11001, 4, "i0 i1 i2 i3 f b n i? r? n x? n d q"), LSM(0, 11, 4, "i0 i1 i2 i3 f b n i? r? n x? n d q"),
                          LSM(0, 10, 0, "i* i* f x* e l F e"), LSM(1, 12010, 0, "i* i* f x* e l F e"), LSM(0, 99992, 0, "i* r* q x* q"), LSM(1, 99992, 0, "i* r* q x* q"), LSM(0, 10, 2, "i0 F r0 F i1 F c q i? F q"), LSM(1, 14001, 4, "i0 s i1 s i2 s i3 s b n x? s x? S x? d q")]) +
                       T([LSM(0, 10, 0, "i* i* f x* e x* l F h x* e"), LSM(1, 12010, 0, "i* i* f x* e x* l F h x* e"), LSM(0, 21, 4, "x? x? q x? x? q x? q s"), LSM(1, 21001, 4, "i0 i1 x? q x? x? q x? q s"), LSM(0, 10, 3, "i0 i1 i2 f x? x? F q x? x? F q"), LSM(1, 11010, 3, "i0 i1 i2 f x? x? F q x? x? F q")])),
    "P25": dict(stages=Q([LSM(0, 11, 2, "m?^3 g?", preempt=1), LSM(1, 21011, 2, "m?^3 g?", preempt=1), LSM(0, 11, 3, "i0 r0 x1 q", 7, preempt=2), LSM(1, 11001, 3, "i0 i1 r0 x2", 7, preempt=2), LSM(0, 10, 3, "i0 f r0 i1 f x2 f g?", 7, preempt=1), LSM(0, 11, 3, "i0 i1 x? c x? q", preempt=1), LSM(1, 11011, 3, "i0 i1 x? c x? q", preempt=1), LSM(0, 11, 2, "x? x? O x? O", 7, preempt=1), LSM(0, 11, 2, "i0 i1 b n x? n d", 7, preempt=1)]) +
                       T([LSM(0, 11, 2, "m?^3 O", 15, preempt=2), LSM(1, 21011, 2, "m?^3", 15, preempt=2), LSM(0, 11, 4, "i0 i1 x? x? s i2 q", 15, preempt=2), LSM(0, 11, 3, "i0 r0 i1 g?", 7, preempt=3), LSM(1, 11001, 3, "i0 i1 r0 x2", 7, preempt=3), LSM(0, 11, 2, "m?^4", preempt=1), LSM(1, 11011, 2, "m?^4", preempt=1)])),
    "P29": dict(stages=Q([BP("e_bp", 3, 3, 0, 1, 0, 255), BP("e_bp", 3, 3, 5, 2, 0, 255), BP("e_bp", 101, 2, 6, 4, 1, 255), BP("e_bp", 2, 2, 6, 19, 0, 255), LE(0, 10, 0, ""), LE(0, 10, 3, "i0 i1 f x?"), LE(0, 11, 3, "i0 i1 x? s"), LE(1, 11011, 3, "i0 i1 x? s"), LE(1, 11001, 3, "i0 i1 r2 s i2"),
                          LSM(0, 11, 4, "z i0 s i1 s x? s", 7), LSM(1, 11001, 4, "i0 s i1 s z x? s c r? s i? s", 15)]) +
                       T([BP("e_bp", 3, 3, 5, 17, 1, 255), BP("e_bp", 1, 2, 8, 20, 0, 255), BP("e_bp", 202, 202, 7, 4, 1, 255), LE(1, 11001, 3, "i0 i1 r? s i2 i? i?"), LE(0, 11, 3, "i0 i1 i2 x? x? x?"), LSM(0, 11, 4, "z i0 s i1 s i? s r? s i? s", 7), LSM(1, 11001, 4, "i0 s i1 s z i? s r? s i? s", 15), LSM(0, 10, 0, "z i* r* f x* f x* f", 15)])),
    "P26": dict(stages=Q([ST(0, 0, ["po", "po"], 7, 1), ST(0, 1, ["aa", "aa"], 5, 1), ST(0, 2, ["a", "a", "a"], 4, 1), ST(0, 1, ["aaa", "aaa"], 3, 1), ST(0, 0, ["ol", "pl"], 99, 1), ST(0, 1, ["xx", "xx"], 3, 1), ST(0, 0, ["aa", "aa", "a"], 3, 1),
                          ST(0, 1, ["le", "po", "p"], 4, 1), ST(0, 3, ["ooo", "ooo"], 5, 1), ST(0, 0, ["pppp", "oooo"], 4, 1), ST(0, 2, ["oppo", "oo", "oo"], 2, 1), ST(0, 0, ["xxxx"], 0, 1)]) +
                       T([ST(0, 0, ["xx", "xx", "x"], 2, 1), ST(0, 0, ["po", "po"], 9, 1), ST(0, 1, ["aa", "aa"], 6, 1), ST(0, 2, ["a", "a", "a"], 6, 1), ST(0, 1, ["aaa", "aaa"], 4, 1), ST(0, 1, ["aa", "aa", "aa"], 3, 1), ST(0, 0, ["xxxxx"], 0, 1)])),
    "P27": dict(stages=Q([ST(1, 1, ["aa", "aa"], 5, 0), ST(1, 1, ["ad", "da"], 4, 0), ST(1, 2, ["dp", "do", "o"], 3, 0), ST(1, 0, ["dddd", "pppp"], 4, 0), ST(1, 2, ["d", "d", "a"], 5, 0), ST(1, 3, ["ddd", "dpd"], 4, 1), ST(1, 1, ["aaa", "ada"], 3, 0), ST(1, 0, ["xxxx"], 0, 0), ST(1, 2, ["xd", "xd"], 3, 0)]) +
                       T([ST(1, 1, ["aa", "aa"], 6, 0), ST(1, 1, ["aaa", "ada"], 4, 0), ST(1, 2, ["dp", "do", "do"], 4, 0), ST(1, 0, ["aa", "da", "ad"], 3, 0), ST(1, 3, ["ddd", "dpd"], 6, 0), ST(1, 0, ["xxxxx"], 0, 0)])),
}
