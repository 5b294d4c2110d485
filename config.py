"""What is run for each property: harness entries, bounds, and the cases a run must have reached."""
TIERS = {
    "quick": {"max_secs": 600, "max_steps": 40_000_000, "max_alloc": 1 << 20, "samples": 6, "dumps": 2, "cross": 6, "validate": 24, "shard_depth": 10},
    "thorough": {"max_secs": 3000, "max_steps": 400_000_000, "max_alloc": 1 << 20, "samples": 12, "dumps": 12, "cross": 60, "validate": 120, "shard_depth": 12},
}
ASSUMPTIONS = [
    "rustc's compilation of the library and harness to LLVM IR (opt-level 1, debug assertions and overflow checks on) preserves meaning; sampled paths are replayed on a separate, normally linked build",
    "the engine's model of LLVM IR, of memory (per-allocation bounds, liveness, initialisation, provenance) and of the allocator, which never fails",
    "panics end a path: behaviour after unwinding is modelled for C27 only",
    "single-threaded use: the library has no concurrency, atomics, I/O or clocks",
]
OUTSIDE = "larger trees; element types other than the ones instantiated (u32, Box<u32>, references to them); custom node types other than those of C21, C24 and C25; unwinding out of user callbacks, except in C27"
N = "every n-ary tree of up to %d nodes"
B = "every binary tree of up to %d nodes"


def V(**p): return {int(k[1:]): v for k, v in p.items()}
def both(names, last=""):
    """entry families: x_n for n-ary trees, x_b for binary ones"""
    return [x + k for x in names.split() for k in ("_n", "_b")]

def prop(module, groups, quick, thorough, small=None, **more):
    """groups: (entries, cover ids that must be reached, {tier: params}, shards in the thorough tier, shards in the quick tier).
    quick / thorough: the bounds in words. Entries named *_b are costlier and start first.
    In the thorough tier everything runs again on unoptimised IR, with the "small" parameters."""
    out = {"module": module, "quick": [], "thorough": [], "bounds": {"quick": quick, "thorough": thorough + "; and again, with smaller bounds, on unoptimised LLVM IR (-O0)"}}
    for g in groups:
        names, covers, params = g[0], g[1], g[2]
        ts = g[3] if len(g) > 3 else 1
        qs = g[4] if len(g) > 4 else 1
        for e in names.split() if isinstance(names, str) else names:
            cov = covers(e) if callable(covers) else covers
            cost = 3 if e.endswith("_b") else 1
            sm = params.get("small") or {k: max(v - 1, 1) for k, v in params["quick"].items()}
            scov = [c for c in cov if not (c >= 90 and (sm.get(1, 1) == 0 or c in (92, 94) and not sm.get(7)))] if "small" in params else cov
            out["quick"].append({"entry": e, "covers": cov, "params": params["quick"], "shards": qs, "cost": cost * qs})
            out["thorough"].append({"entry": e, "covers": cov, "params": params["thorough"], "shards": ts, "cost": cost})
            out["thorough"].append({"entry": e, "covers": scov, "params": sm, "shards": 1, "cost": cost / 8, "opt": "0"})
    out.update(more)
    return out

def fam(*ids, irregular=[93]):
    """trees plus big families: reaching the largest family member is cover 90 (n-ary) or 91 (binary)"""
    return lambda e: list(ids) + [91 if e.endswith("_b") else 90] + irregular

HUGE = dict(p5=270, p6=260, p8=6, p9=30)
MIDWAY = dict(HUGE, p5=70)
HUGE_T = dict(p5=300, p6=1100, p8=40, p9=80)
BOTH = "every n-ary and every binary tree of up to %d nodes"
FAMS = ", plus chains, fans, combs, forks, brooms and full trees of up to %d levels or children, chains of %d, fans of %d, a full binary tree of 255 nodes and %d irregular trees of %d nodes"
def FQ(n): return FAMS % (n, 270, 260, 6, 30)
def FT(n): return FAMS % (n, 300, 1100, 40, 80)
MID = dict(p6=270, p7=24, p8=8, p9=30)
MID_T = dict(p6=600, p7=60, p8=40, p9=60)
def MQ(w=24, h=270, k=8, n=30): return ", plus chains, fans, combs, forks, brooms and full trees of about %d levels or children, chains of %d and fans of %d, and %d irregular trees of %d nodes" % (w, h // 3, h, k, n)
def mid(*ids): return list(ids) + [94]
SYM = "; every value a symbolic 32-bit number"
NUM = ", and larger shapes of up to %d levels or children with distinct values in three orders"
HIST = ", consumed up to every point before the change of iterator"
FOREST = "every collection of up to 3 trees (n-ary and binary) with up to %d nodes together"

def trav(c, names, q, t, big, tbig, sm, cov=(1,), extra="", ts=4, qs=1):
    return prop(c, [(names, fam(*cov), {"quick": V(p0=q, p1=big, **HUGE), "thorough": V(p0=t, p1=tbig, **HUGE_T), "small": V(p0=sm, p1=0)}, ts, qs)],
                BOTH % q + FQ(big) + extra + SYM, BOTH % t + FT(tbig) + extra + SYM)

PROPS = {
    "C01": trav("c01", both("c01"), 8, 10, 16, 32, 6),
    "C02": trav("c02", both("c02"), 8, 10, 16, 32, 6),
    "C03": trav("c03", both("c03"), 8, 10, 16, 32, 6),
    "C04": trav("c04", "c04_b", 8, 10, 16, 32, 6),
    "C05": trav("c05", both("c05_bfs c05_dfs"), 7, 9, 14, 24, 5),
    "C06": trav("c06", both("c06_pre c06_post") + ["c06_in_b"], 7, 9, 14, 24, 5),
    "C07": trav("c07", both("c07"), 7, 9, 14, 24, 5),
    "C08": trav("c08", both("c08"), 7, 9, 14, 24, 5),
    "C09": trav("c09", both("c09_bfs c09_pre c09_post") + ["c09_in_b"], 7, 9, 14, 20, 5, cov=(1, 2), extra=HIST),
    "C10": prop("c10", [
        (both("c10_bfs c10_pre c10_post") + ["c10_in_b"], fam(1), {"quick": V(p0=7, p1=14, **HUGE), "thorough": V(p0=9, p1=20, **HUGE_T), "small": V(p0=5, p1=0)}, 4),
        (both("c10_mbfs c10_mpre c10_mpost") + ["c10_min_b"], fam(1, 2), {"quick": V(p0=6, p1=12, **MIDWAY), "thorough": V(p0=8, p1=18, **HUGE_T), "small": V(p0=4, p1=0)}, 8, 2)],
        BOTH % 7 + FQ(14) + " (6 nodes, 12 levels and a chain of 70 when leaves() is called midway)" + HIST + SYM, BOTH % 9 + FT(20) + " (8 nodes, 18 levels when leaves() is called midway)" + HIST + SYM),
    "C11": prop("c11", [
        (both("c11_bfs c11_dfs"), fam(1, 2, 3, irregular=[]), {"quick": V(p0=6, p5=6, p6=260), "thorough": V(p0=8, p5=12, p6=600), "small": V(p0=5, p1=0)}, 4),
        (both("c11_cbfs c11_cdfs"), fam(1, 3, irregular=[]), {"quick": V(p0=6, p5=6, p6=260), "thorough": V(p0=8, p5=12, p6=600), "small": V(p0=5, p1=0)}, 4),
        (both("c11_abfs c11_adfs"), [1], {"quick": V(p0=6), "thorough": V(p0=8)}, 4)],
        FOREST % 6 + ", and 3 to 8 and 260 trees of mixed small shapes" + SYM, FOREST % 8 + ", and 3 to 14 and 600 trees of mixed small shapes" + SYM),
    "C12": prop("c12", [
        (both("c12"), mid(1, 2), {"quick": V(p0=5, p4=4, **MID), "thorough": V(p0=6, p4=5, **MID_T), "small": V(p0=4, p4=3)}, 8),
        (both("c12_coll"), mid(1, 2), {"quick": V(p1=4, p4=4, p7=24), "thorough": V(p1=6, p4=5, p7=60), "small": V(p1=3, p4=3)}, 8),
        (both("c12_arr"), [1, 2], {"quick": V(p2=5, p4=4), "thorough": V(p2=6, p4=5)}, 8),
        (both("c12_rt"), mid(2), {"quick": V(p3=6, **MID), "thorough": V(p3=9, **MID_T), "small": V(p3=5)}, 4)],
        BOTH % 5 + MQ() + ", collections of up to 24 trees, and every path of up to 4 symbolic indices or reported by a traversal" + SYM, BOTH % 6 + MQ(60, 600, 40, 60) + ", collections of up to 60 trees, and every path of up to 5 symbolic indices or reported by a traversal" + SYM),
    "C13": prop("c13", [
        (both("c13_prune c13_path"), [1, 2, 92], {"quick": V(p0=6, p7=40), "thorough": V(p0=8, p7=90)}, 4),
        (both("c13_depth"), fam(1, 3), {"quick": V(p0=6, p1=12, **HUGE), "thorough": V(p0=9, p1=20, **HUGE_T)}, 2)],
        BOTH % 6 + FQ(12) + " (prune_depth)" + NUM % 40 + SYM + ", every depth limit, symbolic predicates on values and paths", BOTH % 8 + FT(20) + " (prune_depth)" + NUM % 90 + SYM + ", every depth limit, symbolic predicates on values and paths"),
    "C14": prop("c14", [(both("c14_map c14_path"), fam(1), {"quick": V(p0=7, p1=12, **HUGE), "thorough": V(p0=10, p1=24, **HUGE_T)}, 4)], BOTH % 7 + FQ(12) + SYM, BOTH % 10 + FT(24) + SYM),
    "C15": prop("c15", [(both("c15_fold c15_path"), fam(1), {"quick": V(p0=7, p1=12, **HUGE), "thorough": V(p0=10, p1=24, **HUGE_T)}, 4)], BOTH % 7 + FQ(12) + SYM, BOTH % 10 + FT(24) + SYM),
    "C16": prop("c16", [
        (both("c16_own"), [1, 2], {"quick": V(p0=4), "thorough": V(p0=5)}, 16, 4),
        (both("c16_iter"), [1, 2], {"quick": V(p3=4), "thorough": V(p3=5), "small": V(p3=3)}, 8, 2),
        (both("c16_iter1 c16_one c16_ref c16_mut"), [1, 2, 92], {"quick": V(p1=5, p7=20), "thorough": V(p1=6, p7=40), "small": V(p1=4, p7=12)}, 4),
        (both("c16_two"), [1, 2], {"quick": V(p4=12), "thorough": V(p4=24), "small": V(p4=8)}, 8, 2),
        (both("c16_three"), [1, 2], {"quick": V(p2=4), "thorough": V(p2=6)}, 16, 2)],
        BOTH % 4 + " through every sequence of two stages followed by a terminal operation or stepped as an iterator, and chosen sequences of three (owned); 5 nodes through one stage on every kind of source" + NUM % 20 + SYM + ", symbolic predicates and depth limits",
        BOTH % 5 + " through every sequence of two stages followed by a terminal operation or stepped as an iterator, 6 nodes through chosen sequences of three (owned) and through one stage on every kind of source" + NUM % 40 + SYM + ", symbolic predicates and depth limits"),
    "C17": prop("c17", [
        (both("c17_own"), [1, 2], {"quick": V(p0=3), "thorough": V(p0=5), "small": V(p0=3)}, 32, 4),
        (both("c17_iter"), [2], {"quick": V(p3=3), "thorough": V(p3=5), "small": V(p3=3)}, 8),
        (both("c17_src c17_iter1"), [2, 92], {"quick": V(p1=4, p7=9), "thorough": V(p1=6, p7=20), "small": V(p1=3, p7=2)}, 8, 2),
        ("c17_chain_n", [1, 92], {"quick": V(p4=3, p7=1), "thorough": V(p4=5, p7=9), "small": V(p4=3, p7=1)}, 8, 4),
        (both("c17_two"), [2], {"quick": V(p5=6), "thorough": V(p5=12), "small": V(p5=4)}, 8, 2),
        (both("c17_each"), [1, 92], {"quick": V(p2=5, p7=9), "thorough": V(p2=7, p7=20), "small": V(p2=4, p7=2)}, 8)],
        FOREST % 3 + " through every sequence of two stages followed by a terminal operation or stepped as an iterator (owned), 4 nodes through one stage on every kind of source, 5 nodes through each *_each operation, and up to 12 trees of mixed shapes with distinct values in three orders" + SYM + ", symbolic predicates and depth limits",
        FOREST % 5 + " through every sequence of two stages followed by a terminal operation or stepped as an iterator (owned), 6 nodes through one stage on every kind of source, 7 nodes through each *_each operation, and up to 23 trees of mixed shapes with distinct values in three orders" + SYM + ", symbolic predicates and depth limits"),
    "C18": prop("c18", [
        (both("c18_wbfs c18_wpre c18_wpost") + ["c18_win_b"], mid(1), {"quick": V(p0=6, p1=5, **MID), "thorough": V(p0=8, p1=6, **MID_T), "small": V(p0=5, p1=4)}, 4),
        ("c18_epre_n c18_ebfs_n", mid(1, 2, 3, 4), {"quick": V(p0=6, p1=5, **MID), "thorough": V(p0=8, p1=6, **MID_T), "small": V(p0=5, p1=4)}, 4),
        (both("c18_each c18_pipe"), mid(1), {"quick": V(p0=6, p1=5, p2=5, **MID), "thorough": V(p0=8, p1=6, p2=7, **MID_T), "small": V(p0=5, p1=4, p2=4)}, 4),
        ("c18_epost_n", mid(1), {"quick": V(p0=6, p1=5, **MID), "thorough": V(p0=8, p1=6, **MID_T), "small": V(p0=5, p1=4)}, 2),
        ("c18_epre_b c18_ebfs_b", mid(1, 2), {"quick": V(p0=6, p1=5, **MID), "thorough": V(p0=8, p1=6, **MID_T), "small": V(p0=5, p1=4)}, 4)],
        BOTH % 6 + ", values overwritten at every point; up to 5 nodes with one child added, removed or replaced through children_mut at every node" + MQ() + SYM,
        BOTH % 8 + ", values overwritten at every point; up to 6 nodes with one child added, removed or replaced through children_mut at every node" + MQ(60, 600, 40, 60) + SYM),
    "C19": prop("c19", [
        (both("c19_bfs c19_abfs c19_cbfs c19_pre c19_apre c19_cpre c19_post c19_apost c19_cpost") + ["c19_in_b", "c19_ain_b", "c19_cin_b"], mid(1), {"quick": V(p0=5, p1=4, **MID), "thorough": V(p0=8, p1=5, **MID_T), "small": V(p0=4, p1=3)}, 2),
        (both("c19_coll"), mid(1), {"quick": V(p0=5, p1=4, p7=24), "thorough": V(p0=8, p1=5, p7=60), "small": V(p0=4, p1=3)}, 4),
        (both("c19_pipe c19_cpipe"), [1], {"quick": V(p0=5, p1=4), "thorough": V(p0=8, p1=5)}, 8)],
        BOTH % 5 + ", every owned iterator dropped after any number of steps; pipelines and collections up to 4 nodes; traversals also on larger trees" + MQ()[5:] + ", dropped at representative points; values own heap blocks", BOTH % 8 + ", every owned iterator dropped after any number of steps; pipelines and collections up to 5 nodes; traversals also on larger trees" + MQ(60, 600, 40, 60)[5:] + ", dropped at representative points; values own heap blocks"),
    "C20": prop("c20", [
        (both("c20"), mid(1, 2), {"quick": V(p0=5, **MID), "thorough": V(p0=7, **MID_T), "small": V(p0=4)}, 4),
        (both("c20_coll"), mid(1, 2, 3), {"quick": V(p0=4, p7=24), "thorough": V(p0=6, p7=60), "small": V(p0=3)}, 4)],
        BOTH % 5 + MQ() + " and every collection of up to 2 trees with up to 4 nodes or of 4, 7 or 24 trees, each conversion tried after every number of steps (large ones: 7 representative numbers)" + SYM, BOTH % 7 + MQ(60, 600, 40, 60) + " and every collection of up to 2 trees with up to 6 nodes or of 4, 7 or 60 trees, each conversion tried after every number of steps (large ones: 7 representative numbers)" + SYM),
    "C21": prop("c21", [
        ("c21_x c21_y c21_z c21_un c21_ub c21_wn c21_wb", mid(1), {"quick": V(p0=5, p1=4, **MID), "thorough": V(p0=6, p1=5, **MID_T), "small": V(p0=3, p1=3)}, 2),
        ("c21_px c21_py c21_pz c21_rx c21_ry c21_rz c21_cx c21_cy c21_cz", mid(1), {"quick": V(p0=4, p1=4, **MID), "thorough": V(p0=6, p1=5, **MID_T), "small": V(p0=3, p1=3)}, 4)],
        "three hand-written node types and the built-in ones with values of no size and over-aligned ones, trees of up to 4 nodes (traversals 5)" + MQ() + SYM, "three hand-written node types and the built-in ones with values of no size and over-aligned ones, trees of up to 6 nodes (pipelines and collections 5)" + MQ(60, 600, 40, 60) + SYM),
    "C22": prop("c22", [
        (both("c22"), fam(1, 2, 3, 4), {"quick": V(p0=5, p1=8, p2=5, p5=70, p6=100, p8=3, p9=30), "thorough": V(p0=7, p1=16, p2=7, p5=120, p6=300, p8=20, p9=60), "small": V(p0=4, p1=0, p2=4)}, 8, 2),
        (["c22_bad_n"], [1, 2], {"quick": V(p2=5), "thorough": V(p2=8)}, 2),
        (["c22_bad_b"], [1, 2, 3], {"quick": V(p2=5), "thorough": V(p2=8)}, 2)],
        BOTH % 5 + FAMS % (8, 70, 100, 3, 30) + "; written to and read from formats that keep fields by name, by name in another order, by number or by position, with and without lengths; every node of trees of up to 5 nodes damaged" + SYM,
        BOTH % 7 + FAMS % (16, 120, 300, 20, 60) + "; written to and read from formats that keep fields by name, by name in another order, by number or by position, with and without lengths; every node of trees of up to 8 nodes damaged" + SYM),
    "C23": prop("c23", [
        (both("c23_clone c23_collect c23_ctx"), mid(1), {"quick": V(p0=5, p1=4, **MID), "thorough": V(p0=8, p1=6, **MID_T), "small": V(p0=4, p1=3)}, 2),
        (both("c23_shown"), [1], {"quick": V(p0=4), "thorough": V(p0=6), "small": V(p0=3)}),
        (both("c23_eq"), mid(1, 2), {"quick": V(p0=5, p1=3, **MID), "thorough": V(p0=8, p1=5, **MID_T), "small": V(p0=4, p1=3)}, 4)],
        BOTH % 5 + MQ() + "; every pair of trees of up to 3 nodes, and larger trees against copies that differ at one node" + SYM, BOTH % 8 + MQ(60, 600, 40, 60) + "; every pair of trees of up to 5 nodes, and larger trees against copies that differ at one node" + SYM),
    "C24": prop("c24", [
        (both("c24"), [1], {"quick": V(p0=13, p1=280, p2=1000), "thorough": V(p0=40, p1=600, p2=5000), "small": V(p0=10, p1=80, p2=60)}, 8, 4),
        (both("c24_whole c24_coll"), [1], {"quick": V(p0=13, p1=280, p2=1000), "thorough": V(p0=40, p1=600, p2=5000), "small": V(p0=10, p1=80, p2=60)}, 8, 2)],
        "chains (n-ary and binary, with and without siblings) of symbolic depth 13 or 14 and of 70 and 280 levels, fans, fans of fans and complete trees of 20 and 1000 nodes, collections of 20 and 1000 trees, against those of up to 8; every traversal and operation",
        "chains of symbolic depth 40 or 41 and of 70 and 600 levels, fans, fans of fans and complete trees of 20 and 5000 nodes, collections of 20 and 5000 trees, against those of up to 8; every traversal and operation"),
    "C25": prop("c25", [
        (both("c25_own c25_pipe c25_lent c25_lpipe"), [1], {"quick": V(p0=9, p1=4), "thorough": V(p0=24, p1=6)}),
        (both("c25_graph"), [1, 2], {"quick": V(p2=6, p3=3), "thorough": V(p2=14, p3=3), "small": V(p2=5, p3=2)}, 4, 4),
        (both("c25_coll c25_each"), [1], {"quick": V(p4=6, p5=3), "thorough": V(p4=12, p5=4), "small": V(p4=4, p5=2)}, 4, 2)],
        "computed trees (owned, borrowed and mutably borrowed) with 1, 2, 3 or endlessly many children per node (binary: left, right or both), bottomless or with one child a leaf, first 9 nodes; pipelines cut at levels 0 to 3; every graph of up to 3 nodes with up to 2 references each, first 6 nodes of its unfolding; endless collections of two alternating trees of up to 3 nodes, first 6 nodes or trees" + SYM,
        "computed trees (owned, borrowed and mutably borrowed) with 1, 2, 3 or endlessly many children per node (binary: left, right or both), bottomless or with one child a leaf, first 24 nodes; pipelines cut at levels 0 to 5; every graph of up to 3 nodes with up to 2 references each, first 14 nodes of its unfolding; endless collections of two alternating trees of up to 4 nodes, first 12 nodes or trees" + SYM),
    "C26": prop("c26", [
        (both("c26 c26_s c26_m c26_each c26_seach"), mid(1), {"quick": V(p0=4, p1=3, p2=2, p3=3, p6=72, p7=21, p8=1, p9=24), "thorough": V(p0=6, p1=5, p2=3, p3=4, p6=240, p7=40, p8=6, p9=30), "small": V(p0=3, p1=3, p2=2, p3=2)}, 4, 4),
        (both("c26_pipe c26_cpipe c26_trees"), [1], {"quick": V(p2=2, p4=3, p5=3), "thorough": V(p2=3, p4=4, p5=4), "small": V(p2=2, p4=2, p5=2)}, 4)],
        BOTH % 4 + " (streams and pipelines 3)" + MQ(21, 72, 1, 24) + ", and every collection of up to 3 trees with up to 3 nodes together or of 4, 7 or 21 trees, every iterator type; up to 2 items taken by next(), then the others in each of 13 ways (streams: 9 and 4)" + SYM,
        BOTH % 6 + " (streams 5, pipelines 4)" + MQ(40, 240, 6, 30) + ", and every collection of up to 3 trees with up to 4 nodes together or of 4, 7 or 40 trees, every iterator type; up to 3 items taken by next(), then the others in each of 13 ways (streams: 9 and 4)" + SYM),
    "C27": prop("c27", [
        (both("c27_tree"), [1, 2, 92], {"quick": V(p0=5, p7=12), "thorough": V(p0=7, p7=24), "small": V(p0=3, p7=6)}, 4),
        (both("c27_pipe"), [1, 2, 3, 92], {"quick": V(p1=4, p7=6), "thorough": V(p1=5, p7=12), "small": V(p1=3, p7=4)}, 8),
        (both("c27_two"), [1, 2, 3, 92], {"quick": V(p2=3, p7=4), "thorough": V(p2=4, p7=8), "small": V(p2=2, p7=4)}, 8),
        (both("c27_coll"), [1, 2, 3, 92], {"quick": V(p3=3, p7=1), "thorough": V(p3=4, p7=3), "small": V(p3=2, p7=1)}, 8, 2),
        (both("c27_each c27_from"), [1, 2, 3, 92], {"quick": V(p3=3, p7=1), "thorough": V(p3=5, p7=3), "small": V(p3=2, p7=1)}, 8),
        (both("c27_bfs c27_pre c27_post") + ["c27_in_b"], mid(1, 2, 3), {"quick": V(p4=4, p6=45, p7=9, p8=2, p9=12), "thorough": V(p4=6, p6=150, p7=24, p8=12, p9=24), "small": V(p4=3)}, 8),
        (both("c27_op"), [1, 2, 92], {"quick": V(p5=4, p7=8), "thorough": V(p5=6, p7=24), "small": V(p5=3, p7=6)}, 8),
        (both("c27_copy"), mid(1, 2), {"quick": V(p0=5, p6=60, p7=12, p8=2, p9=12), "thorough": V(p0=7, p6=150, p7=24, p8=12, p9=24), "small": V(p0=4)}, 4)],
        BOTH % 4 + " (whole-tree operations and clones 5, pipelines of two stages 3), collections of up to 3 trees with up to 3 nodes together, and larger shapes of up to 12 levels or children and a fan of 60 (45 for traversals); the panic at every call, the iterator dropped or stepped on afterwards" + SYM,
        BOTH % 6 + " (whole-tree operations and clones 7, pipelines 5, of two stages 4), collections of up to 3 trees with up to 4 nodes together (*_each and traversals 5), and larger shapes of up to 24 levels or children and a fan of 150; the panic at every call, the iterator dropped or stepped on afterwards" + SYM),
}

# a path of more instructions counts as a hang: an order of magnitude more than any path of the unchanged code takes
for c in "C05 C06 C07 C08 C10 C24".split(): PROPS[c]["quick_cfg"] = {"max_steps": 200_000_000}
for c in "C16 C17 C25".split(): PROPS[c]["quick_cfg"] = {"max_steps": 3_000_000}

# trees of tens of thousands of nodes: a few fixed shapes, one path for each order and kind of access
GIANT = {c: "n b" for c in "C01 C02 C03 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C23 C26".split()}
GIANT["C04"] = "b"
for c, kinds in GIANT.items():
    for name in ["giant"] + ["gdepth"] * (c == "C13") + ["gcoll"] * (c == "C20"):
        for k in kinds.split():
            run = {"entry": "%s_%s_%s" % (c.lower(), name, k), "covers": [1], "cost": 6, "cfg": {"max_steps": 800_000_000, "max_alloc": 60_000_000}}
            PROPS[c]["quick"].append(dict(run, params=V(p0=65600, p1=16, p2=400, p3=1), shards=8))
            PROPS[c]["thorough"].append(dict(run, params=V(p0=140000, p1=17, p2=1000), shards=16))
    for t, n, l in (("quick", 65600, 16), ("thorough", 140000, 17)):
        PROPS[c]["bounds"][t] += "; and a fan of %d, chains of %d and a complete binary tree of %d levels (values: one symbolic number plus the index, or the index)" % (n, n, l)
