"""What each property's check runs.

explore: design specifications TLC explores (mc), with constants per tier, the
invariants checked on them, and the driver that executes the emitted
behaviours; record: what is recorded from the real code and the trace
specification that judges it; ops: the operations whose results decide the
property; must: operations that have to occur, or the check is vacuous.
"""
CHECKS = {}


def check(pid, title, explore=(), record=(), must=(), level="model_checking", note="", assumptions=()):
    CHECKS[pid] = dict(title=title, explore=list(explore), record=list(record), must=list(must), level=level, note=note,
                       assumptions=list(assumptions))


MAPOPS = ["get", "size", "each"]
check("C01", "AVL ordered map",
      explore=[dict(mc="MCAvl", driver="avl", consts=dict(Focus="map"), quick=dict(N=12), thorough=dict(N=15),
                    invs=["Refines", "EachAgrees", "BalanceInv", "GapsExist"], ops=MAPOPS)],
      record=[dict(trace="TraceOrderedMap", driver="avl", ops=MAPOPS, scale=dict(quick=12, thorough=48))],
      must=["put", "remove", "get", "size", "each", "putrange", "removerange"])
check("C02", "AVL and interval tree balance",
      explore=[dict(mc="MCAvl", driver="avl", consts=dict(Focus="balance"), quick=dict(N=13), thorough=dict(N=16),
                    invs=["Refines", "BalanceInv", "GapsExist"], ops=["height", "maxcost"]),
               dict(mc="MCIntervalShape", driver="interval", focus="shape", consts=dict(Focus="balance"), quick=dict(N=12), thorough=dict(N=15),
                    invs=["Refines", "BalanceInv", "GapsExist"], ops=["height"])],
      record=[dict(trace="TraceOrderedMap", driver="avl", focus="balance", ops=["height", "cost", "maxcost"], scale=dict(quick=6, thorough=24)),
              dict(trace="TraceIntervalMap", driver="interval", focus="balance", ops=["height"], n=dict(quick=3, thorough=16),
                   scale=dict(quick=6, thorough=24))],
      must=["put", "remove", "height", "cost", "maxcost", "putrange", "removerange"])

check("C15", "interval overlap queries",
      explore=[dict(mc="MCInterval", driver="interval", consts=dict(Focus="overlaps"), quick=dict(N=5, Highs=3), thorough=dict(N=6, Highs=3),
                    invs=["Refines", "OverlapInv", "BalanceInv"], ops=["overlaps", "ovall"]),
               dict(mc="MCInterval", driver="interval", consts=dict(Focus="overlaps"), quick=dict(N=6, Highs=2), thorough=dict(N=7, Highs=2),
                    invs=["Refines", "OverlapInv", "BalanceInv"], ops=["overlaps", "ovall", "each"])],
      record=[dict(trace="TraceIntervalMap", driver="interval", ops=["overlaps", "ovall", "each"], focus="overlaps",
                   scale=dict(quick=8, thorough=32))],
      must=["put", "add", "remove", "overlaps", "ovall", "each"])

IVOPS = ["put", "add", "remove", "get", "size", "each"]
check("C16", "interval map",
      explore=[dict(mc="MCInterval", driver="interval", consts=dict(Focus="map"), quick=dict(N=6, Highs=2), thorough=dict(N=7, Highs=2),
                    invs=["Refines", "BalanceInv"], ops=IVOPS),
               dict(mc="MCIntervalShape", driver="interval", focus="shape", consts=dict(Focus="map"), quick=dict(N=11), thorough=dict(N=14),
                    invs=["Refines", "BalanceInv", "GapsExist"], ops=IVOPS)],
      record=[dict(trace="TraceIntervalMap", driver="interval", ops=IVOPS, focus="map", scale=dict(quick=8, thorough=32))],
      must=IVOPS)
check("C03", "B-tree ordered map",
      explore=[dict(mc="MCBtree", driver="btree", consts=dict(M=4), quick=dict(N=6), thorough=dict(N=7),
                    invs=["Refines", "WellFormed"], ops=MAPOPS)],
      record=[dict(trace="TraceOrderedMap", driver="btree", ops=MAPOPS, scale=dict(quick=12, thorough=48))],
      must=["put", "remove", "get", "size", "each", "putrange", "putdown", "removerange"])

HMINV = ["Refines", "ProbeInv", "ShareInv"]
check("C04", "hash map",
      explore=[dict(mc="MCHashMap", driver="hashmap", consts=dict(NI=1, Caps=[0, 1, 8], Hashes=[1, 2, 3, 4, 5, 6, 7]), quick=dict(N=6),
                    thorough=dict(N=7), invs=HMINV, ops=MAPOPS)],
      record=[dict(trace="TraceOrderedMap", driver="hashmap", ops=MAPOPS, scale=dict(quick=12, thorough=48))],
      must=["put", "remove", "get", "size", "each", "clear", "putrange", "removerange"])

check("C05", "copies",
      explore=[dict(mc="MCHashMap", driver="hashmap", consts=dict(NI=2, Caps=[0, 8], Hashes=[1, 3]), quick=dict(N=3), thorough=dict(N=4),
                    invs=HMINV, ops=MAPOPS),
               dict(mc="MCHashMap", driver="hashmap", consts=dict(NI=3, Caps=[0]), quick=dict(N=1, Hashes=[1]), thorough=dict(N=2, Hashes=[1, 3]),
                    invs=HMINV, ops=MAPOPS)],
      record=[dict(trace="TraceOrderedMap", driver="hashmap", focus="copies", ops=MAPOPS, scale=dict(quick=12, thorough=48))],
      must=["put", "remove", "clear", "copy", "get", "size", "each"])
CHECKS["C05"]["explore"] += [
    dict(mc="MCHashSet", driver="set", focus="clones", consts=dict(NI=2, Caps=[0, 8], Hashes=[1, 3], MaxInit=1), quick=dict(N=2), thorough=dict(N=3),
         invs=HMINV, ops=["each", "size", "has", "keys"])]
CHECKS["C05"]["record"] += [dict(trace="TraceSetModel", driver="set", focus="clones", ops=["each", "size", "has"],
                                 n=dict(quick=2, thorough=12), scale=dict(quick=12, thorough=48))]
CHECKS["C05"]["must"] += ["clone"]

SETOPS = ["has", "size", "each", "keys", "map", "string"]
check("C06", "hash set, map set, set wrapper",
      explore=[dict(mc="MCHashSet", driver="set", focus="sets", consts=dict(NI=1, Caps=[0, 1, 8], Hashes=[1, 2, 3, 4, 5]),
                    quick=dict(N=5, MaxInit=2), thorough=dict(N=6, MaxInit=3), invs=HMINV, ops=SETOPS)],
      record=[dict(trace="TraceSetModel", driver="set", focus="sets", ops=SETOPS, scale=dict(quick=12, thorough=48))],
      must=["new", "put", "remove", "clear", "putrange", "removerange"] + SETOPS)

ALG = ["each", "iunion", "iinter", "idiff"]
check("C07", "set algebra",
      explore=[dict(mc="MCSetAlgebra", driver="set", focus="algebra", view="", consts=dict(Focus="algebra", MaxOps=1, Depth=1, Second=False),
                    quick=dict(N=4), thorough=dict(N=5), invs=["Refines"], ops=ALG),
               dict(mc="MCSetAlgebra", driver="set", focus="algebra", view="", consts=dict(Focus="algebra", MaxOps=2, Depth=1, Second=False),
                    quick=dict(N=3), thorough=dict(N=4), invs=["Refines"], ops=ALG),
               dict(mc="MCSetAlgebra", driver="set", focus="algebra", view="", consts=dict(Focus="algebra", MaxOps=1, Depth=2, Second=True),
                    quick=dict(N=2), thorough=dict(N=3), invs=["Refines"], ops=ALG)],
      record=[dict(trace="TraceSetModel", driver="set", focus="algebra", ops=ALG, scale=dict(quick=12, thorough=48))],
      must=["union", "inter", "diff", "sym", "cunion", "cinter", "cdiff", "csym", "iunion", "iinter", "idiff", "each"])

RELS = ["eq", "sub", "sup", "psub", "psup", "disj"]
check("C08", "set comparisons",
      explore=[dict(mc="MCSetAlgebra", driver="set", focus="rel", view="", consts=dict(Focus="rel", MaxOps=1, Depth=1, Second=False),
                    quick=dict(N=5), thorough=dict(N=6), invs=["Refines"], ops=RELS + ["each"])],
      record=[dict(trace="TraceSetModel", driver="set", focus="rel", ops=RELS + ["each"], scale=dict(quick=12, thorough=48))],
      must=RELS + ["each"])

LISTOPS = ["insafter", "insbefore", "ends", "walk", "back", "each", "eachnode", "eachrev", "eachrevnode"]
check("C11", "linked list",
      explore=[dict(mc="MCList", driver="list", consts=dict(NL=1), quick=dict(N=4, Window=0), thorough=dict(N=4, Window=2),
                    invs=["Refines"], ops=LISTOPS),
               dict(mc="MCList", driver="list", consts=dict(NL=2), quick=dict(N=3, Window=1), thorough=dict(N=3, Window=2),
                    invs=["Refines"], ops=LISTOPS)],
      record=[dict(trace="TraceList", driver="list", ops=LISTOPS, scale=dict(quick=12, thorough=48))],
      must=["pushback", "pushfront", "pushbackv", "pushfrontv", "remove"] + LISTOPS)

QOPS = ["deq", "trydeq", "deqall", "peek", "trypeek", "peekall", "each", "len", "empty"]
check("C12", "queue",
      explore=[dict(mc="MCQueue", driver="queue", consts=dict(NI=1), quick=dict(L=4, V=2, MaxInit=3, Window=3), thorough=dict(L=5, V=3, MaxInit=4, Window=3),
                    invs=["Refines"], ops=QOPS),
               dict(mc="MCQueue", driver="queue", consts=dict(NI=1, V=1, MaxInit=0), quick=dict(L=10, Window=4), thorough=dict(L=20, Window=6),
                    invs=["Refines"], ops=QOPS)],
      record=[dict(trace="TraceSeqModel", driver="queue", ops=QOPS, scale=dict(quick=12, thorough=48))],
      must=["new", "of", "enq", "clear"] + QOPS)

STOPS = ["pop", "top", "size"]
check("C13", "stack",
      explore=[dict(mc="MCStack", driver="stack", consts=dict(NI=1), quick=dict(L=6, V=2, Window=3), thorough=dict(L=9, V=2, Window=4),
                    invs=["Refines"], ops=STOPS),
               dict(mc="MCStack", driver="stack", consts=dict(NI=1, V=1), quick=dict(L=18, Window=4), thorough=dict(L=70, Window=6),
                    invs=["Refines"], ops=STOPS)],
      record=[dict(trace="TraceSeqModel", driver="stack", ops=STOPS, scale=dict(quick=12, thorough=48))],
      must=["new", "push"] + STOPS)

CHECKS["C05"]["explore"] += [
    dict(mc="MCQueue", driver="queue", focus="copies", consts=dict(V=2, MaxInit=0), quick=dict(NI=2, L=2, Window=1), thorough=dict(NI=2, L=3, Window=1),
         invs=["Refines"], ops=QOPS),
    dict(mc="MCStack", driver="stack", focus="copies", consts=dict(V=2), quick=dict(NI=2, L=2, Window=1), thorough=dict(NI=3, L=2, Window=1),
         invs=["Refines"], ops=STOPS)]
CHECKS["C05"]["record"] += [
    dict(trace="TraceSeqModel", driver="queue", focus="copies", ops=QOPS, n=dict(quick=1, thorough=8), scale=dict(quick=12, thorough=48)),
    dict(trace="TraceSeqModel", driver="stack", focus="copies", ops=STOPS, n=dict(quick=1, thorough=8), scale=dict(quick=12, thorough=48))]
CHECKS["C05"]["must"] += ["enq", "deqall", "push", "pop"]

HOPS = ["pop", "peek", "size"]
check("C14", "heap",
      explore=[dict(mc="MCHeap", driver="heap", consts=dict(Distinct=False, Window=1), quick=dict(K=3, L=6, MaxInit=6), thorough=dict(K=3, L=8, MaxInit=8),
                    invs=["Refines"], ops=HOPS),
               dict(mc="MCHeap", driver="heap", consts=dict(Distinct=True, Window=0), quick=dict(K=7, L=7, MaxInit=6), thorough=dict(K=8, L=8, MaxInit=8),
                    invs=["Refines"], ops=HOPS)],
      record=[dict(trace="TraceHeap", driver="heap", ops=HOPS, scale=dict(quick=12, thorough=48))],
      must=["of", "push"] + HOPS)

CBS = ["none", "log", "get", "rm", "own", "rmown"]
check("C09", "LRU cache contents and order",
      explore=[dict(mc="MCCache", driver="cache", consts=dict(Cbs=["none"]), quick=dict(N=4, C=3, Window=2), thorough=dict(N=5, C=4, Window=2),
                    invs=["Refines"], ops=["get", "each"])],
      record=[dict(trace="TraceCache", driver="cache", ops=["get", "each"], scale=dict(quick=12, thorough=48))],
      must=["new", "put", "remove", "resize", "get", "each", "setcb"])
COPS = ["put", "remove", "resize", "size", "cap", "each", "get"]
check("C10", "LRU cache capacity and evictions",
      explore=[dict(mc="MCCache", driver="cache", consts=dict(C=3), quick=dict(N=4, Window=0, Cbs=CBS), thorough=dict(N=4, Window=1, Cbs=CBS),
                    invs=["Refines"], ops=COPS),
               dict(mc="MCCache", driver="cache", consts=dict(Cbs=["none", "log"]), quick=dict(N=4, C=3, Window=0), thorough=dict(N=5, C=4, Window=1),
                    invs=["Refines"], ops=COPS)],
      record=[dict(trace="TraceCache", driver="cache", ops=COPS, scale=dict(quick=12, thorough=48))],
      must=["new", "setcb"] + COPS)

MMOPS = ["get", "count", "has", "dim", "size", "each", "assoc"]
KINDS = ["mapslice", "mapset", "avlslice", "avlset"]
check("C17", "multimap",
      explore=[dict(mc="MCMultimap", driver="multimap", consts=dict(Kinds=KINDS, Window=1), quick=dict(K=2, V=2, L=5), thorough=dict(K=2, V=3, L=6),
                    invs=["Refines"], ops=MMOPS),
               dict(mc="MCMultimap", driver="multimap", consts=dict(Kinds=KINDS, Window=0), quick=dict(K=3, V=2, L=5), thorough=dict(K=3, V=3, L=5),
                    invs=["Refines"], ops=MMOPS)],
      record=[dict(trace="TraceMulti", driver="multimap", ops=MMOPS, scale=dict(quick=12, thorough=48))],
      must=["new", "put", "remove", "removeall", "clear"] + MMOPS)

BMOPS = ["of", "getf", "getr", "hasf", "hasr", "len", "each"]
check("C18", "bidirectional map",
      explore=[dict(mc="MCBimap", driver="bimap", consts=dict(NI=1), quick=dict(N=3, MaxInit=3, Window=2), thorough=dict(N=4, MaxInit=4, Window=2),
                    invs=["Refines"], ops=BMOPS),
               dict(mc="MCBimap", driver="bimap", consts=dict(NI=1), quick=dict(N=4, MaxInit=0, Window=0), thorough=dict(N=5, MaxInit=0, Window=1),
                    invs=["Refines"], ops=BMOPS)],
      record=[dict(trace="TraceBimap", driver="bimap", ops=BMOPS, scale=dict(quick=12, thorough=48))],
      must=["new", "add", "rmf", "rmr", "clear"] + BMOPS)
CHECKS["C05"]["explore"] += [
    dict(mc="MCBimap", driver="bimap", focus="copies", consts=dict(N=2, MaxInit=0), quick=dict(NI=2, Window=1), thorough=dict(NI=3, Window=0),
         invs=["Refines"], ops=BMOPS)]
CHECKS["C05"]["record"] += [
    dict(trace="TraceBimap", driver="bimap", focus="copies", ops=BMOPS, n=dict(quick=1, thorough=8), scale=dict(quick=12, thorough=48))]
CHECKS["C05"]["must"] += ["rmf", "rmr"]

TMAP = ["get", "has", "size"]
TPRE = ["keys", "prefix", "longest"]
for pid, title, mp, ops in (("C19", "trie as a map", True, TMAP), ("C20", "trie prefix queries", False, TPRE)):
    check(pid, title,
          explore=[dict(mc="MCTrie", driver="trie", consts=dict(Map=mp), quick=dict(A=3, L=2, P=3), thorough=dict(A=3, L=2, P=5),
                        invs=["Refines", "ShapeInv"], ops=ops),
                   dict(mc="MCTrie", driver="trie", consts=dict(Map=mp), quick=dict(A=2, L=3, P=3), thorough=dict(A=2, L=3, P=5),
                        invs=["Refines", "ShapeInv"], ops=ops),
                   dict(mc="MCTrie", driver="trie", consts=dict(Map=mp), quick=dict(A=6, L=1, P=6), thorough=dict(A=8, L=1, P=8),
                        invs=["Refines", "ShapeInv"], ops=ops)],
          record=[dict(trace="TraceTrie", driver="trie", ops=ops, scale=dict(quick=12, thorough=48))],
          must=["new", "put", "remove"] + ops)

REDIT = ["len", "value", "slice", "at"]
RALL = REDIT + ["leaves"]
def rp(**k):
    return dict(dict(NI=1, RR=12, Window=0, Slices=True), **k)
RINV = ["Refines", "SeparateInv"]
check("C21", "rope edits and reads",
      explore=[dict(mc="MCRope", driver="rope", consts=rp(Ops="edit", SL=2, JL=1), invs=RINV, ops=REDIT,
                    quick=dict(MaxInit=5, MaxLen=6, MaxLeaves=5, InsLens=[0, 1, 3]), thorough=dict(MaxInit=6, MaxLen=7, MaxLeaves=6, InsLens=[0, 1, 2, 3])),
               dict(mc="MCRope", driver="rope", consts=rp(Ops="edit", SL=4, JL=2), invs=RINV, ops=REDIT,
                    quick=dict(MaxInit=6, MaxLen=7, MaxLeaves=4, InsLens=[0, 1, 2]), thorough=dict(MaxInit=9, MaxLen=9, MaxLeaves=4, InsLens=[0, 1, 2, 5])),
               dict(mc="MCRope", driver="rope", consts=rp(Ops="edit", SL=3, JL=3), invs=RINV, ops=REDIT,
                    quick=dict(MaxInit=5, MaxLen=6, MaxLeaves=4, InsLens=[1, 2]), thorough=dict(MaxInit=7, MaxLen=8, MaxLeaves=5, InsLens=[0, 1, 2, 4])),
               dict(mc="MCRope", driver="rope", consts=rp(Ops="edit", SL=1, JL=0), invs=RINV, ops=REDIT,
                    quick=dict(MaxInit=4, MaxLen=4, MaxLeaves=5, InsLens=[1, 2]), thorough=dict(MaxInit=5, MaxLen=5, MaxLeaves=6, InsLens=[0, 1, 2]))],
      record=[dict(trace="TraceRope", driver="rope", ops=REDIT, focus="edit", scale=dict(quick=12, thorough=48))],
      must=["new", "ins", "insself", "rm"] + REDIT)
check("C22", "rope splitting, joining and rebalancing",
      explore=[dict(mc="MCRope", driver="rope", consts=rp(Ops="both", NI=2, SL=2, JL=1, Slices=False), invs=RINV, ops=RALL,
                    quick=dict(MaxInit=6, MaxLen=6, MaxLeaves=5, InsLens=[1]), thorough=dict(MaxInit=6, MaxLen=6, MaxLeaves=6, InsLens=[1, 2])),
               dict(mc="MCRope", driver="rope", consts=rp(Ops="both", NI=2, SL=2, JL=1, RR=30, Slices=False), invs=RINV, ops=RALL,
                    quick=dict(MaxInit=5, MaxLen=5, MaxLeaves=5, InsLens=[1]), thorough=dict(MaxInit=6, MaxLen=6, MaxLeaves=6, InsLens=[1])),
               dict(mc="MCRope", driver="rope", consts=rp(Ops="both", NI=2, SL=3, JL=2, RR=15, Slices=False), invs=RINV, ops=RALL,
                    quick=dict(MaxInit=5, MaxLen=5, MaxLeaves=4, InsLens=[1, 2]), thorough=dict(MaxInit=6, MaxLen=6, MaxLeaves=5, InsLens=[1, 2])),
               dict(mc="MCRope", driver="rope", consts=rp(Ops="all", NI=1, SL=2, JL=2, Slices=True), invs=RINV, ops=RALL,
                    quick=dict(MaxInit=5, MaxLen=5, MaxLeaves=4, InsLens=[1, 2]), thorough=dict(MaxInit=6, MaxLen=6, MaxLeaves=5, InsLens=[0, 1, 2])),
               dict(mc="MCRope", driver="rope", consts=rp(Ops="both", NI=3, SL=2, JL=1, Slices=False), invs=RINV, ops=RALL,
                    quick=dict(MaxInit=3, MaxLen=3, MaxLeaves=5, InsLens=[1]), thorough=dict(MaxInit=4, MaxLen=4, MaxLeaves=5, InsLens=[1]))],
      record=[dict(trace="TraceRope", driver="rope", ops=RALL, focus="all", scale=dict(quick=12, thorough=48))],
      must=["new", "ins", "rm", "split", "join", "rebuild", "rebalance"] + RALL)
for pid, title in (("C23", "persistent rope versions never change"), ("C24", "persistent rope operations")):
    check(pid, title,
          explore=[dict(mc="MCProp", driver="prope", consts=rp(NV=2, SL=2, JL=1, Slices=False), invs=["Refines"], ops=REDIT,
                        quick=dict(MaxInit=3, MaxLen=3, MaxLeaves=2, InsLens=[1]), thorough=dict(MaxInit=3, MaxLen=3, MaxLeaves=3, InsLens=[1])),
                   dict(mc="MCProp", driver="prope", consts=rp(NV=1, SL=2, JL=1), invs=["Refines"], ops=REDIT,
                        quick=dict(MaxInit=5, MaxLen=5, MaxLeaves=5, InsLens=[0, 1, 2]), thorough=dict(MaxInit=6, MaxLen=6, MaxLeaves=6, InsLens=[0, 1, 2])),
                   dict(mc="MCProp", driver="prope", consts=rp(NV=2, SL=2, JL=1, RR=30, Slices=False), invs=["Refines"], ops=REDIT,
                        quick=dict(MaxInit=4, MaxLen=4, MaxLeaves=3, InsLens=[1]), thorough=dict(MaxInit=4, MaxLen=4, MaxLeaves=3, InsLens=[1, 2])),
                   dict(mc="MCProp", driver="prope", consts=rp(NV=2, SL=2, JL=2, Slices=False), invs=["Refines"], ops=REDIT,
                        quick=dict(MaxInit=4, MaxLen=4, MaxLeaves=2, InsLens=[1]), thorough=dict(MaxInit=4, MaxLen=4, MaxLeaves=2, InsLens=[0, 1, 2]))],
          record=[dict(trace="TraceProp", driver="prope", ops=REDIT, scale=dict(quick=12, thorough=48))],
          must=["new", "ins", "insof", "rm", "split", "join", "rebuild", "rebalance"] + REDIT)
for x in CHECKS["C23"]["explore"]:
    if x["consts"]["NV"] == 2:
        x["props"] = ["Immutable"]

USEQ = ["size", "walk", "back"]
UIT = ["begin", "end", "cur", "next", "prev", "moven", "addafter", "addbefore", "remove", "removen"]
for pid, title, ops in (("C25", "unrolled list contents", USEQ), ("C26", "unrolled list iterators", UIT)):
    check(pid, title,
          explore=[dict(mc="MCUList", driver="ulist", consts=dict(Window=0, Es=[1, 2, 3, 4]), quick=dict(N=8), thorough=dict(N=10), invs=["Refines"], ops=ops),
                   dict(mc="MCUList", driver="ulist", consts=dict(Window=2, Es=[1, 2, 3]), quick=dict(N=5), thorough=dict(N=7), invs=["Refines"], ops=ops)],
          record=[dict(trace="TraceUList", driver="ulist", ops=ops, scale=dict(quick=12, thorough=48))],
          must=["new", "pushback", "pushfront", "pushbackn", "pushfrontn"] + USEQ + UIT)

AOPS = ["get", "row", "span", "keeprow", "keepspan", "kept", "all", "str", "dims"]
AWR = ["new", "newfilled", "of", "set", "fill", "wrow", "wspan"]
def ar(**k):
    return dict(dict(Bounds=False, NI=1, Jags=False), **k)
SMALL = [w * 100 + h for w in range(5) for h in range(5)]
LONG = [901, 109, 902, 209, 503, 305, 1701]
check("C27", "2-D array cells",
      explore=[dict(mc="MCArray", driver="array2d", invs=["Refines"], ops=AOPS, consts=ar(Depth=1, Jags=True),
                    quick=dict(Shapes=[w * 100 + h for w in range(4) for h in range(4)]), thorough=dict(Shapes=SMALL)),
               dict(mc="MCArray", driver="array2d", invs=["Refines"], ops=AOPS, consts=ar(Depth=1), quick=dict(Shapes=LONG),
                    thorough=dict(Shapes=LONG + [1901, 706, 607])),
               dict(mc="MCArray", driver="array2d", invs=["Refines"], ops=AOPS, consts=ar(Depth=2), quick=dict(Shapes=[302, 203, 202, 104, 401]),
                    thorough=dict(Shapes=[303, 402, 204, 105, 501])),
               dict(mc="MCArray", driver="array2d", invs=["Refines"], ops=AOPS, consts=ar(Depth=3), quick=dict(Shapes=[201, 102]),
                    thorough=dict(Shapes=[201, 102, 202, 301, 103]))],
      record=[dict(trace="TraceArray", driver="array2d", ops=AOPS, focus="cells", scale=dict(quick=12, thorough=48))],
      must=AWR + ["wkept"] + AOPS)
check("C28", "2-D array bounds",
      explore=[dict(mc="MCArray", driver="array2d", invs=["Refines"], ops=["all"], consts=ar(Bounds=True, Depth=1),
                    quick=dict(Shapes=[w * 100 + h for w in range(4) for h in range(4)] + [601, 106]), thorough=dict(Shapes=SMALL + [601, 106, 602, 206]))],
      record=[dict(trace="TraceArray", driver="array2d", ops=["all"], focus="bounds", scale=dict(quick=12, thorough=48))],
      must=AWR + ["get", "row", "span", "all"])
CHECKS["C05"]["explore"] += [
    dict(mc="MCArray", driver="array2d", consts=ar(NI=2, Depth=3, Shapes=[201, 102]), quick=dict(), thorough=dict(Shapes=[201, 102, 202, 301]),
         invs=["Refines"], ops=AOPS)]
CHECKS["C05"]["record"] += [
    dict(trace="TraceArray", driver="array2d", focus="copies", ops=AOPS, n=dict(quick=1, thorough=8), scale=dict(quick=12, thorough=48))]
CHECKS["C05"]["must"] += ["wkept"]

GOPS = ["compare", "less", "equals", "max", "min", "clamp", "maxf", "minf", "clampf"]
check("C29", "ordering helpers",
      explore=[dict(mc="MCHelpers", driver="helpers", invs=["Refines"], ops=GOPS, quick=dict(R=4, T=3), thorough=dict(R=6, T=3))],
      record=[dict(trace="TraceHelper", driver="helpers", ops=GOPS, n=dict(quick=2, thorough=16), scale=dict(quick=12, thorough=48))],
      must=GOPS)
HINTS = ["uint64", "uint32", "uint16", "uint8", "int64", "int32", "int16", "int8", "int", "uint"]
check("C30", "hash helpers",
      explore=[dict(mc="MCHash", driver="hash", invs=["Refines"], ops=["same", "kept"],
                    consts=dict(Fns=["string", "bytes"], Bytes=[0, 255], Stores=[0, 1, 3]), quick=dict(L=2, MaxBytes=4), thorough=dict(L=2, MaxBytes=6)),
               dict(mc="MCHash", driver="hash", invs=["Refines"], ops=["same", "kept"],
                    consts=dict(Fns=HINTS, Bytes=[0], Stores=[0]), quick=dict(L=3, MaxBytes=0), thorough=dict(L=4, MaxBytes=0)),
               dict(mc="MCHash", driver="hash", invs=["Refines"], ops=["same", "kept"],
                    consts=dict(Fns=["string", "bytes", "int", "uint8"], Bytes=[97], Stores=[0, 5]), quick=dict(L=3, MaxBytes=3), thorough=dict(L=4, MaxBytes=3))],
      record=[dict(trace="TraceHash", driver="hash", ops=["hash"], scale=dict(quick=12, thorough=48))],
      must=["hash", "same", "kept"])

# ---- the contract in closed form, at sizes of tens of thousands of entries -----
BIGREADS = ["get", "size", "runs", "back-runs", "peekall", "peekf", "peekb", "min", "cap", "hits", "over", "rev", "longest", "prefix", "at", "slice",
            "eq", "sub", "sup", "psub", "psup", "disj", "popf", "popb", "popmin", "getn", "putn", "resize", "insit", "delit", "total", "dim",
            "height", "cost", "has"]


def big(pid, kinds="", T="map", acts=(), N=(3, 3), G=(22000, 22000), NI=1, Caps=(0,), Shifts=(0,), reads=None, scale=(8, 40), n=(1, 6), rec=True):
    """Adds closed-form models (MCBig) and recordings (TraceBig) to a check.

    G = 1 compares closed form and plain contents; G > 1 drives the real code
    with blocks of G entries."""
    reads = [o for o in BIGREADS if reads is None or o in reads]
    focus = pid + (":" + kinds if kinds else "")
    if acts:
        ops = list(acts) + [o for o in reads if o not in acts]
        for g, mx in ((1, (N[0] + 1, N[1] + 1)), (0, N)):
            q, t = dict(N=mx[0], G=g or G[0]), dict(N=mx[1], G=g or G[1])
            CHECKS[pid]["explore"].append(dict(mc="MCBig", driver="big", focus=focus, consts=dict(T=T, NI=NI, Ops=ops, Caps=list(Caps), Shifts=list(Shifts)),
                                               quick=q, thorough=t, invs=["Agree"], ops=reads))
    if rec:
        CHECKS[pid]["record"].append(dict(trace="TraceBig", driver="big", focus=focus, ops=reads, n=dict(quick=n[0], thorough=n[1]),
                                          scale=dict(quick=scale[0], thorough=scale[1])))


MAPS = ["get", "hits", "size", "runs"]
big("C01", acts=["fill", "drain"], Shifts=(0, 1), reads=MAPS)
big("C02", reads=["height", "cost"])
big("C03", acts=["fill", "drain"], N=(2, 3), G=(35000, 35000), Shifts=(0, 1), reads=MAPS)
big("C04", acts=["fill", "drain", "clear"], N=(2, 3), G=(35000, 22000), Caps=(0, 100), Shifts=(0, 1), reads=MAPS)
big("C05", "map", T="set", acts=["fill", "drain", "clear", "dup"], N=(2, 2), G=(5000, 35000), NI=2, reads=MAPS)
big("C05", "queue", T="seq", acts=["back", "popf", "clear", "dup"], N=(2, 3), NI=2, reads=["size", "peekf", "runs", "popf"])
big("C05", "stack", T="seq", acts=["back", "popb", "dup"], N=(2, 3), NI=2, reads=["size", "peekb", "popb"])
big("C06", acts=["fill", "drain", "clear"], reads=MAPS)
big("C07", T="set", acts=["fill", "drain", "union", "inter", "diff", "sym"], N=(2, 2), NI=2, reads=MAPS)
RELB = ["eq", "sub", "sup", "psub", "psup", "disj"]
big("C08", T="set", acts=["fill", "drain"], N=(2, 3), NI=2, reads=RELB)
big("C09", T="lru", acts=["putn", "getn", "rmn", "resize"], N=(2, 3), G=(35000, 20000), Caps=(0, 1, 2, 3), Shifts=(0, 1), reads=["getn", "runs"])
big("C10", T="lru", acts=["putn", "getn", "rmn", "resize"], N=(2, 3), G=(35000, 20000), Caps=(0, 1, 2, 3), Shifts=(0, 1), reads=["putn", "resize", "size", "cap", "runs"])
big("C11", T="seq", acts=["back", "front", "ins", "del"], reads=["runs", "back-runs"], Shifts=(0, 1))
big("C12", T="seq", acts=["back", "popf", "clear"], reads=["size", "peekf", "runs", "peekall", "popf"], Shifts=(0, 1))
big("C13", T="seq", acts=["back", "popb"], reads=["size", "peekb", "popb"], Shifts=(0, 1))
big("C14", acts=["add", "popmin"], reads=["popmin", "min", "size"])
big("C15", acts=["fill", "drain"], Caps=(1, 7, 30000), Shifts=(0, 1), reads=["over", "runs"])
big("C16", acts=["fill", "drain"], Caps=(1, 30000), Shifts=(0, 1), reads=MAPS)
big("C17", acts=["add", "drain", "clear"], N=(2, 2), G=(800, 2500), NI=2, reads=MAPS + ["total", "dim"])
big("C18", acts=["bfill", "drain", "bdrain", "clear"], N=(2, 3), Shifts=(0, 1), reads=MAPS + ["rev"])
big("C19", acts=["fill", "drain"], N=(2, 3), G=(18000, 18000), reads=["get", "hits", "size"], Shifts=(0, 1))
big("C20", acts=["fill", "drain"], N=(2, 3), G=(18000, 18000), reads=["runs", "longest", "prefix"], scale=(5, 40))
big("C21", T="seq", acts=["ins", "del", "rebuild", "rebal"], reads=["size", "runs", "peekall", "at", "slice"], Shifts=(0, 1))
big("C22", T="seq", acts=["ins", "del", "cut", "join", "rebuild", "rebal"], NI=2, N=(2, 2), reads=["size", "runs", "peekall", "at", "slice"])
for pid in ("C23", "C24"):
    big(pid, T="seq", acts=["ins", "del", "versions", "rebuild", "rebal", "cutl", "cutr", "cat"], NI=2, N=(2, 2), reads=["size", "runs", "at", "slice"])
for pid in ("C25", "C26"):
    big(pid, T="seq", acts=["back", "front", "insit", "delit"], N=(3, 3), Caps=(1, 2, 4, 64), reads=["size", "runs", "back-runs", "insit", "delit"],
        Shifts=(0, 1))

# ---- 2-D arrays in closed form ---------------------------------------------------
PREADS = ["all", "rows", "str", "dims", "get", "row", "span"]
for pid, bounds, ni, focus in (("C27", False, 1, ""), ("C28", True, 1, "bounds"), ("C05", False, 2, "")):
    CHECKS[pid]["explore"] += [
        dict(mc="MCPaint", driver="paint", focus=focus, consts=dict(G=1, NI=ni, Bounds=bounds), invs=["Agree"], ops=PREADS,
             quick=dict(Shapes=[202, 301, 103, 100, 2] if ni == 1 else [102, 201], V=1, MaxOps=2),
             thorough=dict(Shapes=[202, 301, 103, 302, 203, 100, 2, 0] if ni == 1 else [102, 201, 202], V=1 if ni > 1 else 2, MaxOps=2 if bounds or ni > 1 else 3)),
        dict(mc="MCPaint", driver="paint", focus=focus, consts=dict(NI=ni, Bounds=bounds), invs=["Agree"], ops=PREADS,
             quick=dict(Shapes=[201, 102], G=190, V=1, MaxOps=1 if bounds else 2),
             thorough=dict(Shapes=[202, 301, 103], G=190, V=1, MaxOps=1 if bounds else 2))]
    CHECKS[pid]["record"].append(dict(trace="TracePaint", driver="paint", focus=focus, ops=PREADS, n=dict(quick=1, thorough=6),
                                      scale=dict(quick=10, thorough=40)))

# ---- separate programs on several goroutines ---------------------------------------
check("C31", "separate programs on several goroutines", explore=[], record=[], must=["par"])
PARREADS = ["par", "size", "runs"]


def par(focus, T, ops, G=8, N=(1, 1), L=(2, 2)):
    CHECKS["C31"]["explore"].append(dict(mc="MCPar", driver="big", race=True, focus=focus, consts=dict(T=T, Ops=ops, Memo=False), invs=["Confluent"],
                                         ops=PARREADS, quick=dict(N=N[0], L=L[0], G=G), thorough=dict(N=N[1], L=L[1], G=2 * G)))


par("K1", "map", ["get", "hits", "size", "runs", "fill", "drain"], G=40, N=(1, 2))
par("C31:set of", "set", ["get", "size", "runs", "union", "inter", "sub", "eq", "fill"], G=20, N=(1, 2))
par("C31:interval", "map", ["get", "size", "runs", "hits", "over"], N=(1, 2))
par("C31:trie", "map", ["get", "size", "runs", "hits", "longest"], N=(1, 2))
par("C31:bimap", "set", ["get", "size", "runs", "hits", "rev"], N=(1, 2))
par("C31:queue", "seq", ["size", "peekf", "runs", "peekall", "back", "popf"], L=(2, 3))
par("C31:stack", "seq", ["size", "peekb", "back", "popb"], L=(2, 3))
par("C31:=list", "seq", ["runs", "back-runs", "back", "del"], L=(2, 3))
par("C31:ulist", "seq", ["size", "runs", "back-runs", "back", "delit", "insit"], L=(2, 2))
par("C31:=rope", "seq", ["size", "runs", "at", "slice", "peekall", "ins", "del"], L=(2, 2))
par("C31:prope", "seq", ["size", "runs", "at", "vins", "vdel", "cutl", "cutr", "cat", "ins"], L=(2, 2))
CHECKS["C31"]["record"] = [
    dict(trace="TracePar", driver="big", race=True, focus=f, ops=["par"] + BIGREADS, n=dict(quick=q, thorough=t), scale=dict(quick=44, thorough=64))
    for f, q, t in (("C31", 3, 12), ("C31m", 1, 4))]

# ---- what operations take ------------------------------------------------------------
AMORT = dict(mc="MCAmort", driver="big", focus="C32:hash", invs=["Agree", "Paid"], ops=["calls", "size", "runs"])
check("C32", "work done by operations",
      explore=[dict(AMORT, consts=dict(Starts=[1, 4, 16], Fee=4, Cap=64, ShrinkAt=8, Rounds=40), quick=dict(N=20, G=1), thorough=dict(N=70, G=1)),
               dict(AMORT, consts=dict(Starts=[1, 16], Fee=4, Cap=32, ShrinkAt=8, Rounds=40), quick=dict(N=16, G=512), thorough=dict(N=34, G=2048))],
      record=[dict(trace="TraceCost", driver="big", focus="C32", ops=["calls", "mem", "cpu"], n=dict(quick=3, thorough=16), scale=dict(quick=28, thorough=60))],
      must=["calls", "mem", "cpu"])

# ---- what containers keep ---------------------------------------------------------------
check("C33", "memory held by containers",
      explore=[dict(mc="MCSpace", driver="big", focus=f, invs=["Agree", "Lean"], ops=["live", "size", "runs"],
                    consts=dict(Kind=k, Scheme=sch, G=40), quick=dict(N=n, Turns=20, Rep=40), thorough=dict(N=2 * n, Turns=60, Rep=60))
               for k, sch, f, n in (("map", "table", "M33", 4), ("heap", "slice", "C33:heap", 5), ("popf", "nodes", "C33:queue", 5),
                                    ("popb", "slice", "C33:stack", 5), ("del", "nodes", "C33:=list", 5), ("delit", "nodes", "C33:ulist", 5),
                                    ("rope", "nodes", "C33:rope", 5), ("lru", "nodes", "C33:cache", 5))],
      record=[dict(trace="TraceCost", driver="big", focus="C33", ops=["live", "size", "runs"], n=dict(quick=3, thorough=16), scale=dict(quick=28, thorough=60))],
      must=["live"])

# ---- how hash helpers tell keys apart -----------------------------------------------------
BASES = [0, 3, 65000]
check("C34", "hash helpers tell keys apart",
      explore=[dict(mc="MCSpread", driver="spread", invs=["Injective", "Undone"], ops=["spread"], consts=dict(Odd=True, Fns=HINTS, Bases=BASES, Fills=[]),
                    quick=dict(W=8, Muls=[1, 3, 10], Sizes=[1000]), thorough=dict(W=10, Muls=[1, 3, 10, 1000], Sizes=[256, 1000, 20000])),
               dict(mc="MCSpread", driver="spread", invs=["Injective", "Undone"], ops=["spread"], consts=dict(Odd=True, Fns=["string", "bytes"], Bases=BASES, Fills=[40, 70, 150, 300, 1100]),
                    quick=dict(W=6, Muls=[1, 7, 100], Sizes=[1000, 20000]), thorough=dict(W=6, Muls=[1, 7, 100, 12345], Sizes=[300, 1000, 20000, 65536]))],
      record=[dict(trace="TraceSpread", driver="spread", ops=["spread"], n=dict(quick=2, thorough=8), scale=dict(quick=40, thorough=100))],
      must=["spread"])
