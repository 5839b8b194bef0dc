"""What each check explores: harness entries, bounds, required coverage."""
from collections import namedtuple

Run = namedtuple("Run", "group run what covers")

GEO = {
    0: "3 pages of 32 B, word 4, no cache", 1: "4 pages of 24 B, word 1, array page states + pointers",
    2: "2 pages of 64 B, write 8 read 1, calculated page states", 3: "1 page of 48 B, word 4, page pointers",
    4: "2 pages of 96 B, write 4 read 16, calculated states + array pointers", 5: "2 pages of 192 B, write 32 read 4, heap caches",
    6: "2 pages of 40 B, write 2 read 1, calculated states + array pointers", 7: "3 pages of 32 B, word 4, calculated states + array pointers",
    8: "3 pages of 32 B, word 4, array states + pointers", 9: "1 page of 48 B, no cache", 10: "1 page of 48 B, calculated states + array pointers",
    11: "4 pages of 24 B, word 1, no cache", 12: "2 pages of 64 B, write 8 read 1, no cache", 13: "4 pages of 24 B, word 1, calculated page states",
}

ASSUME = [
    "LLVM IR produced by rustc at opt-level 2 with overflow checks and debug assertions, panic=abort; x86-64 layout",
    "flash model: NOR semantics, power loss tears writes and erases at byte granularity in address order, erased bytes read 0xFF",
    "allocation never fails; single-threaded polling, every flash access completes within one poll unless the check makes it stall",
]


def name(geo, steps, pre, var, note):
    w = "%s; prelude of up to %d operations, %d free steps" % (geo, pre, steps)
    return w + (", variant %d" % var if var else "") + note


def q(entry, geos, steps=0, pre=0, var=0, covers=(), note=""):
    """one run per geometry; covers may be a dict geometry -> required situations"""
    out = []
    for g in geos:
        c = covers.get(g, covers.get(None, ())) if isinstance(covers, dict) else covers
        out.append(Run("queue", "%s:%d" % (entry, g | steps << 8 | pre << 12 | var << 18), name(GEO[g], steps, pre, var, note), tuple(c)))
    return out


MGEO = {
    0: "3 pages of 32 B, word 4, no cache", 1: "4 pages of 24 B, word 1, array caches, 8 keys", 2: "2 pages of 64 B, write 8 read 1, calculated page states, array key cache of 2",
    3: "3 pages of 40 B, word 1, array page pointers", 4: "2 pages of 96 B, write 4 read 16, calculated states, array pointers, heap key cache of 2",
    5: "2 pages of 192 B, write 32 read 4, heap caches", 6: "2 pages of 40 B, write 2 read 1, calculated states + array pointers",
    7: "2 pages of 64 B, word 4, array key cache of 1", 8: "3 pages of 40 B, word 1, array caches, 8 keys", 9: "3 pages of 40 B, word 1, no cache",
    10: "3 pages of 40 B, word 1, calculated states, array pointers, heap key cache of 2", 11: "2 pages of 64 B, word 4, no cache", 12: "3 pages of 32 B, word 4, heap caches",
    13: "4 pages of 24 B, word 1, calculated page states", 14: "2 pages of 40 B, write 2 read 1, array key cache of 1", 15: "3 pages of 40 B, word 1, array key cache of 0",
    32: "2 pages of 65792 B, word 4", 33: "2 pages of 65568 B, write 8 read 1",
}


def m(entry, geos, steps=0, pre=0, var=0, covers=(), note=""):
    out = []
    for g in geos:
        c = covers.get(g, covers.get(None, ())) if isinstance(covers, dict) else covers
        out.append(Run("map", "%s:%d" % (entry, g | steps << 8 | pre << 12 | var << 18), name("map, " + MGEO[g], steps, pre, var, note), tuple(c)))
    return out


PROPS = {}


def prop(pid, groups, quick, thorough, bounds, outside, **kw):
    PROPS[pid] = dict(groups=groups, quick=quick, thorough=thorough, bounds=bounds, outside=outside, **kw)


Q_OUT = "longer histories, larger pages and items, other word sizes and cache sizes; payload bytes other than the first two of the marked item are concrete"
MULTI = [0, 1, 2, 4, 5, 6, 7, 8]
SINGLE = [3, 9, 10]
ALL = range(14)

prop("C01", ["queue"],
     q("c01", range(11), 3, 8, covers={5: (0,), None: (0, 1, 2)}),
     q("c01", ALL, 4, 14, covers=(0, 1, 2)) + q("c01", range(7), 5, 8, covers=(0, 1, 2)),
     "prelude 0..8 (14) pushes with 4 pop policies, then every sequence of 3 (4, 5) operations (push of 3 lengths, pop, peek, reopen), two symbolic payload bytes",
     Q_OUT)
prop("C02", ["queue"],
     q("c02", range(11), 2, 8, covers=(0, 1, 2, 3)),
     q("c02", ALL, 3, 8, covers=(0, 1, 2, 3)) + q("c02", ALL, 2, 16, covers=(0, 1, 2, 3)),
     "prelude 0..8 (16) pushes with 4 pop policies, then every sequence of 2 (3) operations (push of 3 lengths with and without permission, too big push, pop), flash decoded by a fresh object after each; two symbolic payload bytes",
     Q_OUT)
prop("C03", ["queue"],
     q("c03", range(11), 2, 6, covers=(0,)) + q("c03", range(11), 0, 6, 1, covers=(1, 2, 3), note=", the iteration is interrupted and goes on"),
     q("c03", ALL, 3, 6, covers=(0,)) + q("c03", ALL, 2, 14, covers=(0,)) + q("c03", ALL, 1, 9, 1, covers=(1, 2, 3), note=", the iteration is interrupted and goes on"),
     "prelude 0..6 (14) pushes, then every sequence of 2 (3) steps of which iterations pop every subset of the first 6 live items; also with one access of the iteration, at any place (symbolic), failing, torn or never completing, after which the iteration goes on; two symbolic payload bytes",
     Q_OUT)
prop("C04", ["queue"],
     q("c04", range(11), 0, 8, covers=(0, 1, 2), note=", power lost after any byte written or erased")
     + q("c04", [0, 1, 3], 0, 3, 4, covers=(0, 1), note=", interrupted item with two symbolic bytes")
     + q("c04", [1, 3, 8], 0, 1, 1, note=", two power losses"),
     q("c04", ALL, 1, 10, covers=(0, 1, 2)) + q("c04", range(7), 0, 6, 4, covers=(0, 1)) + q("c04", range(7), 0, 6, 2, covers=(0, 1))
     + q("c04", [0, 1, 3, 4, 6, 8], 0, 4, 1, covers=(0, 1)),
     "prelude 0..8 (10) pushes with 4 pop policies; one operation of 8 kinds cut after any number of written or erased bytes (symbolic); reopen; 0 (1) further steps and a closing sequence that fills and drains the queue; also with a second power loss",
     Q_OUT + "; more than two power losses; bits torn within a byte")
prop("C05", ["queue"],
     q("c05", range(11), 2, 6, covers=(0, 1, 2)),
     q("c05", ALL, 3, 10, covers=(0, 1, 2)),
     "prelude 0..6 (10) pushes, every sequence of 2 (3) steps, then every item length from 0 to the page maximum pushed and compared with find_max_fit; space_left compared with an independent decoder",
     Q_OUT)
C12X = {14: "5 pages of 32 B, calculated page states", 15: "5 pages, calculated states + array pointers", 16: "5 pages, array states + pointers", 17: "5 pages, heap caches",
        18: "5 pages, array pointers", 19: "5 pages, array states", 20: "3 pages of 32 B, calculated page states", 21: "3 pages of 32 B, heap caches", 22: "3 pages of 32 B, array pointers"}
GEO.update(C12X)
prop("C12", ["queue"],
     q("c12", list(range(1, 9)) + [10, 13] + list(C12X), 2, 14),
     q("c12", list(range(1, 9)) + [10, 13] + list(C12X), 3, 20),
     "cached and uncached queue side by side: prelude 0..14 (20) pushes, every sequence of 2 (3) of 8 operations including moving the warm cache to a new object; results, flash bytes, space_left and find_max_fit compared after each",
     Q_OUT)
M_OUT = "longer histories, larger pages and values, other word sizes, cache sizes and key counts; keys are 0, 7 and 255 (u8); value bytes other than the first two of the marked value are concrete"
MQ = range(9)
MALL = range(16)
KT = ["u16", "i32", "[u8; 3]", "()", "ArrayVec<u8, 2>", "ArrayString<2>", "heapless Vec<u8, 2>", "heapless String<2>", "heapless 0.9 Vec<u8, 2>", "heapless 0.9 String<2, u8>", "Vec<u8>", "String"]


def keyed(types, steps, n, var):
    return [Run("codec", "c06t:%d" % (t | steps << 8 | n << 12 | var << 18), "map with %s keys of up to %d bytes, %d of 3 symbolic; %d free steps" % (KT[t], n, var + 1, steps), ()) for t in types]


prop("C06", ["map", "codec"],
     m("c06", MQ, 2, 5, covers=(0, 2)) + keyed(range(12), 1, 2, 0) + keyed(range(4, 12), 0, 1, 1),
     m("c06", MALL, 3, 9, covers=(0, 2)) + m("c06", [0, 3, 6], 4, 3, covers=(0, 2)) + keyed(range(12), 2, 2, 0) + keyed(range(4, 12), 1, 1, 1) + keyed([0], 1, 2, 1),
     "prelude 0..5 (9) stores with 4 key policies, then every sequence of 2 (3, 4) operations (stores of 5 kinds, reopen, fetch of all keys), then stores of one or two keys that wrap around all pages; every key fetched along the way and read by a fresh uncached object; two symbolic value bytes; three keys of each of 12 key types, one or two of them with every byte symbolic (up to 2 bytes), stored, removed, iterated and fetched through cached maps",
     M_OUT)
prop("C07", ["map"],
     m("c07", MQ, 2, 4, covers=(0, 1, 3)) + m("c07", [2, 3], 3, 2, covers=(2,)),
     m("c07", MALL, 3, 8, covers=(0, 1, 3)),
     "prelude 0..4 (8) stores, every sequence of 2 (3) stores that fail (too big, every too small buffer, full, unserialisable value) or succeed; every key compared after each",
     M_OUT)
prop("C08", ["map"],
     m("c08", MQ, 2, 5, covers=(0, 1)),
     m("c08", MALL, 3, 9, covers=(0, 1)),
     "prelude 0..5 (9) stores, every sequence of 2 (3) of removals of each key, remove_all, stores and reopening; then stores that wrap around all pages",
     M_OUT)
prop("C09", ["map"],
     m("c09", MQ, 2, 5, covers=(0,)) + m("c09", [0, 1, 2, 5, 8], 0, 4, 1, covers=(1,), note=", one access of the iteration fails") + m("c09", [0, 1, 2, 3, 5, 8], 0, 4, 3, covers=(2,), note=", one access of the iteration fails and it goes on"),
     m("c09", MALL, 3, 9, covers=(0,)) + m("c09", MALL, 1, 6, 1, covers=(1,)) + m("c09", MALL, 1, 6, 3, covers=(2,)),
     "prelude 0..5 (9) stores, every sequence of 2 (3) operations, then iteration; also with access number 0..255 (symbolic) of the iteration failing or never completing, after which the iteration ends or goes on",
     M_OUT)
prop("C10", ["map"],
     m("c10", [0, 1, 2, 3, 6, 8], 0, 5, covers=(0, 1), note=", power lost after any byte written or erased") + m("c10", [4, 5], 0, 3, covers=(0,))
     + m("c10", [2, 3], 0, 3, 4, covers=(0, 1), note=", interrupted value with two symbolic bytes") + m("c10", [0, 2, 8], 1, 3, covers=(0, 1)) + m("c10", [8], 0, 2, 1, note=", two power losses"),
     m("c10", MALL, 1, 5, covers=(0, 1)) + m("c10", MQ, 0, 4, 4, covers=(0, 1)) + m("c10", MQ, 0, 4, 2, covers=(0, 1)) + m("c10", [0, 2, 3, 6, 8], 0, 5, 1, covers=(0, 1)) + m("c10", MQ, 1, 5, 8, covers=(0,)),
     "prelude 0..5 stores with 2 key policies; a store of one of 3 keys cut after any number of written or erased bytes (symbolic); reopen; every key read; 0 (1) further operations and stores around all pages; also with a second power loss, after a removal, and with symbolic value bytes",
     M_OUT + "; more than two power losses; bits torn within a byte")
prop("C11", ["map"],
     m("c11", MQ, 0, 5, covers=(0, 1, 2)) + m("c11", [2, 8], 1, 4, covers=(0, 1, 2)) + m("c11", [3], 0, 3, 2, covers=(0, 1, 2)) + m("c11", [8], 0, 3, 1, covers=(0, 2), note=", two power losses"),
     m("c11", MALL, 1, 5, covers=(0, 1, 2)) + m("c11", MQ, 1, 5, 8, covers=(0,)) + m("c11", MQ, 0, 4, 2, covers=(0, 1, 2)) + m("c11", [0, 2, 3, 6, 8], 0, 5, 1, covers=(0, 2)),
     "prelude 0..5 stores with 2 key policies; remove_item of each key or remove_all_items cut after any number of written bytes (symbolic); reopen; every key read; the removal optionally run again; 0 (1) further operations and stores around all pages; also with a power loss in a store or removal before",
     M_OUT + "; more than two power losses; bits torn within a byte; what iteration yields for a key whose removal was interrupted")
prop("C13", ["map"],
     m("c13", list(range(1, 9)) + [15], 2, 5),
     m("c13", [x for x in MALL if x not in (0, 9, 11)], 3, 9),
     "cached and uncached map side by side: prelude 0..5 (9) stores, every sequence of 2 (3) of 9 operations including moving the warm cache to a new object, then stores of one or two keys around all pages; results and flash bytes compared after each",
     M_OUT)
prop("C14", ["queue", "map"],
     q("c14q", range(11), 0, 6, covers=(0, 1, 2), note=", one access fails, tears or never completes") + m("c14m", [2, 3, 6, 8], 0, 4, covers=(0, 1, 2)),
     q("c14q", range(11), 1, 10, covers=(0, 1, 2)) + m("c14m", [4, 5], 0, 4, covers=(0, 1, 2)) + m("c14m", [1, 2, 3, 6, 8, 10, 13, 14], 1, 4, covers=(0, 1, 2)),
     "prelude 0..6 (10) pushes (0..4 stores on maps); one of 8 operations whose access number 0..255 (symbolic) fails without effect, fails after any number of bytes, or stays pending before or after its effect and is dropped; then 0 (1) steps and a closing sequence on the same object, compared with a fresh uncached object",
     Q_OUT + "; several faults in a row")
prop("C15", ["queue", "map"],
     q("c15q", range(11), 2, 8, covers=(0,)) + q("c15q", range(7), 0, 4, 2, note=", after a power loss")
     + m("c15m", MQ, 2, 5, covers=(0, 2)) + m("c15m", [0, 1, 2, 3, 6], 0, 4, 2, covers=(0, 1), note=", after a power loss"),
     q("c15q", ALL, 3, 14, covers=(0,)) + q("c15q", ALL, 1, 8, 2) + m("c15m", MALL, 3, 9, covers=(0, 2)) + m("c15m", MALL, 0, 5, 2, covers=(0, 1)),
     "prelude 0..8 (14) pushes or 0..5 (9) stores, 2 (3) operations of 8 kinds and a closing sequence, each access checked for range, alignment and write-once; also after one power loss at any byte",
     Q_OUT)
QGEO3 = {
    0: "1 page of 24 B, word 4, no cache", 1: "2 pages of 28 B, word 4, no cache", 2: "2 pages of 28 B, word 4, calculated states + array pointers", 3: "1 page of 32 B, write 8, calculated states",
    4: "1 page of 12 B, word 1, heap caches", 5: "4 pages of 32 B, calculated states", 6: "4 pages of 32 B, calculated states + array pointers", 7: "4 pages of 32 B, array caches",
    8: "3 pages of 24 B, word 1, heap caches", 9: "4 pages of 32 B, no cache",
}
MGEO3 = {
    0: "2 pages of 20 B, word 4, no cache", 1: "2 pages of 28 B, word 4, no cache", 2: "2 pages of 28 B, word 4, array caches, 8 keys", 3: "2 pages of 32 B, write 8, array key cache of 2",
    4: "2 pages of 32 B, write 8, heap caches", 5: "4 pages of 32 B, calculated states", 6: "4 pages of 32 B, calculated states, array pointers, key cache", 7: "4 pages of 32 B, array caches, 8 keys",
    8: "3 pages of 24 B, word 1, heap caches", 9: "4 pages of 32 B, no cache", 10: "3 pages of 24 B, word 1, array key cache of 1",
}
SOUP = {0: "every byte of the flash symbolic", 3: "every combination of page states and item kinds (live, erased, bad length, bad data checksum, cut off), symbolic fields",
        5: "markers and first item of the first page symbolic, other pages in every state with items of every kind"}


def soup(group, entry, geos, steps, var):
    g3 = QGEO3 if group == "queue" else MGEO3
    return [Run(group, "%s:%d" % (entry, g | steps << 8 | var << 18), "%s%s; %s; %d free operations" % ("map, " if group == "map" else "", g3[g], SOUP[var], steps), ()) for g in geos]


prop("C16", ["queue", "map"],
     soup("queue", "c16q", [0, 3, 4], 1, 0) + soup("queue", "c16q", [2], 1, 5) + soup("queue", "c16q", [5, 6, 7, 8, 9], 1, 3) + soup("queue", "c16q", [8], 2, 3)
     + soup("map", "c16m", [3, 4], 1, 5) + soup("map", "c16m", [5, 6, 7, 8, 9, 10], 1, 3),
     soup("queue", "c16q", [0], 2, 0) + soup("queue", "c16q", [1], 1, 5) + soup("queue", "c16q", [5, 6, 7, 8, 9], 2, 3) + soup("queue", "c16q", [5, 8], 3, 3)
     + soup("map", "c16m", [1, 2], 1, 5) + soup("map", "c16m", [5, 6, 7, 8, 9, 10], 2, 3),
     "flash contents: every byte symbolic for one page of 12 to 32 bytes (queue); two pages of which the first has symbolic markers and a symbolic item; up to four pages in every combination of page states and item kinds; then every sequence of 1 (2, 3) operations of 8 kinds; data returned is compared with checksummed items in flash",
     "two or more pages with every byte symbolic, larger pages, longer histories; data returned from fully symbolic images is checked for panics, range and termination but not searched for in flash")
FLIP = {0: "data or checksum", 1: "length field", 2: "page marker", 3: "length field and its checksum"}


def flips(group, entry, gg, steps, pre, kinds, covers, note=""):
    G = GEO if group == "queue" else MGEO
    return [Run(group, "%s:%d" % (entry, g | steps << 8 | pre << 12 | k << 18), "%s%s; prelude of up to %d operations; up to 3 flipped bits in the %s%s; %d free operations" % ("map, " if group == "map" else "", G[g], pre, FLIP[k & 3], note, steps), (covers[:1] if k & 3 == 2 else covers))
            for g in gg for k in kinds]


prop("C17", ["queue", "map"],
     flips("queue", "c17q", [0], 1, 0, [0], (0,)) + flips("queue", "c17q", [0, 2, 6, 8], 1, 2, [1, 3], (0, 1)) + flips("queue", "c17q", [0, 6], 1, 2, [2], (0,))
     + flips("map", "c17m", [0], 0, 1, [0], (0, 1, 2)) + flips("map", "c17m", [0, 1], 0, 2, [1, 3], (0, 1, 2)) + flips("map", "c17m", [2, 6], 0, 2, [1, 3], (0, 1)) + flips("map", "c17m", [0, 2, 6], 0, 2, [2], (0,)),
     flips("queue", "c17q", [0, 2, 6, 8], 0, 1, [0], (0,)) + flips("queue", "c17q", [0, 1, 2, 4, 6, 7, 8], 1, 4, [1, 3], (0, 1)) + flips("queue", "c17q", [0, 1, 2, 6, 7, 8], 1, 2, [2], (0,))
     + flips("map", "c17m", [0, 8], 0, 1, [0], (0, 1, 2)) + flips("map", "c17m", [0, 1, 2, 3, 6, 8], 0, 4, [1, 3], (0, 1)) + flips("map", "c17m", [0, 1, 2, 3, 6, 8], 0, 3, [2], (0,)),
     "prelude of 0..2 (4) pushes or stores and one more, any one stored item hit at up to three byte positions with any bit pattern of in total at most three bits in its data or checksum, length field, length field with its checksum, or one page marker; object reopened or kept with its cache; 0 (1) free operations and a closing sequence",
     Q_OUT + "; flips in several items at once; items whose data looks like an item header")


K20 = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "()", "[u8; 0]", "[u8; 1]", "[u8; 5]", "ArrayVec<u8, 4>", "ArrayVec<u8, 0>", "ArrayString<4>", "heapless Vec<u8, 4>", "heapless String<4>",
       "heapless 0.9 Vec<u8, 4, u8>", "heapless 0.9 Vec<u8, 4>", "heapless 0.9 String<4, u8>", "heapless 0.9 String<4>", "Vec<u8>", "String"]
V20 = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "[u8; 3]", "[u16; 2]", "[i32; 2]", "[f32; 1]", "[u128; 2]", "[u64; 0]", "[f64; 2]", "Option<u8>", "Option<u32>", "Option<bool>",
       "Option<Option<i16>>", "Option<[u16; 2]>", "Option<f64>", "postcard struct", "Option<postcard struct>", "heapless Vec<u8, 4>", "heapless String<4>", "heapless 0.9 Vec<u8, 4, u8>", "heapless 0.9 Vec<u8, 4>", "heapless 0.9 String<4, u8>",
       "heapless 0.9 String<4>", "Vec<u8>", "String", "Option<heapless String<4>>", "Option<Vec<u8>>", "Option<heapless 0.9 Vec<u8, 4>>", "[i8; 2]", "[i16; 2]", "[i64; 2]", "[i128; 1]", "[u32; 2]"]
NAMES20 = {"c20k": dict(enumerate(K20)), "c20v": dict(enumerate(V20))}
NAMES20["c20v"][254] = "borrowing postcard struct"
NAMES20["c20v"][255] = "&[u8] and options of it"


def codec(entry, types, n, raw=0, covers=(0, 1)):
    d = NAMES20[entry]
    return [Run("codec", "%s:%d" % (entry, t | n << 8 | raw << 18), "%s %s, %s of up to %d" % ("key" if entry == "c20k" else "value", d[t], "raw bytes" if raw else "contents", n), tuple(covers)) for t in types]


NOERR_K, NOERR_V = [10, 11], [18]
STR_K, STR_V = [16, 18, 21, 22, 24], [29, 32, 33, 35, 36]
prop("C20", ["codec"],
     codec("c20k", [t for t in range(25) if t not in NOERR_K + [15]], 4) + codec("c20k", NOERR_K, 4, 0, (0,)) + codec("c20k", [15], 4)
     + codec("c20v", [t for t in range(44) if t not in NOERR_V] + [254, 255], 4) + codec("c20v", NOERR_V, 4, 0, (0,))
     + codec("c20k", [t for t in range(25) if t not in STR_K], 8, 1, ()) + codec("c20v", [t for t in range(44) if t not in STR_V], 8, 1, ())
     + codec("c20k", STR_K, 6, 1, (0, 1)) + codec("c20v", STR_V, 5, 1, (0, 1)) + codec("c20v", [254], 6, 1, (0, 1))
     + [Run("codec", "c20l:0", "key Vec<u8> of 65533 to 65537 bytes", (0, 1)), Run("codec", "c20l:1", "key String of 65533 to 65537 bytes", (0, 1))],
     codec("c20k", [23], 8) + codec("c20k", [24, 22], 6) + codec("c20v", [34, 37], 8) + codec("c20v", [35], 6) + codec("c20k", STR_K, 7, 1, (0, 1)) + codec("c20v", STR_V, 6, 1, (0, 1)) + codec("c20v", [254], 8, 1, (0, 1)) + codec("c20v", [254], 5),
     "every value of every provided key and value type (containers of up to 4 (8) bytes, all bytes symbolic, keys of 65533..65537 bytes), every buffer length from 0 to 2 more than needed, and every byte string of up to 8 bytes (5..8 for strings) given to the decoders",
     "longer containers and byte strings; array types other than those listed; postcard types other than the two harness structs")


G22 = ["1 1 11", "1 1 10", "2 1 14", "2 1 12", "4 1 20", "4 4 16", "8 1 32", "8 8 24", "16 4 64", "16 1 48", "32 1 128", "32 32 96", "1 32 128", "4 16 48", "64 1 4096", "1 64 4096", "1 1 4096", "4 4 4096", "8 4 8192", "4 1 65536",
       "32 1 131072", "4 4 2^28", "4 4 2^31", "4 4 24", "4 1 12288"]
C22Q = [Run("codec", "c22:%d" % i, "write size, read size, page size %s; start and end any u32" % g, (1, 3) if i in (0, 2, 4, 6, 8, 10, 12, 16, 17, 18, 19, 20, 21, 23, 24) else (0, 2)) for i, g in enumerate(G22)]
prop("C22", ["codec"], C22Q, C22Q,
     "every pair of u32 range bounds for 25 combinations of write, read and page size (smallest allowed page, just below it, word sizes 1 to 64, pages of up to 2^31 bytes)",
     "other geometries (they are compile-time constants of the flash type)")


RGEO21 = ["3 pages of 32 B, ring 12", "4 pages of 24 B, ring 7", "2 pages of 64 B, ring 16", "1 page of 48 B, ring 9", "2 pages of 40 B, ring 24", "4 pages of 24 B, ring 2", "4 pages of 24 B, ring 1", "4 pages of 24 B, ring 0",
          "4 pages of 24 B, heap caches, ring 33", "3 pages of 32 B, all caches, ring 5"]
RGEO24 = ["3 pages of 32 B, ring 12", "4 pages of 24 B, ring 7", "2 pages of 64 B, ring 16", "1 page of 48 B, ring 9", "2 pages of 40 B, ring 10", "4 pages of 24 B, ring 8"]


def ring(entry, gg, steps, pre, var, covers, note):
    G = RGEO21 if entry == "c21" else RGEO24
    return [Run("ring", "%s:%d" % (entry, g | steps << 8 | pre << 12 | var << 18), "%s bytes; prelude of up to %d operations, %d free steps%s" % (G[g], pre, steps, note), covers.get(g, ()) if isinstance(covers, dict) else covers) for g in gg]


FD = ", one access of one drain fails"
R_OUT = "longer histories, other ring and page sizes; payload bytes other than the first two of the marked item are concrete"
prop("C21", ["ring"],
     ring("c21", [0, 1, 2, 3, 9], 2, 2, 1, (0, 1, 2, 3, 4), FD) + ring("c21", [4, 8], 1, 2, 1, (1, 2), FD) + ring("c21", [5, 6, 7], 2, 2, 1, {5: (0, 1, 3)}, FD),
     ring("c21", [0, 1, 2, 3, 9], 3, 2, 0, (0, 1, 2, 4), "") + ring("c21", [4, 8], 2, 2, 1, (0, 1, 2, 3, 4), FD) + ring("c21", [5, 6, 7], 3, 3, 1, {5: (0, 1, 3)}, FD),
     "rings of 0, 1, 2, 5, 7, 9, 12, 16, 24 and 33 bytes; prelude of 0..2 enqueues, pops or drains and every sequence of 2 (3) operations (enqueue of several lengths with either policy, drain of one or all, pop, peek, with buffers of every relevant size), one drain failing or torn at any access (symbolic); then everything is taken out; two symbolic payload bytes",
     R_OUT)
IR = ", %d interrupts at any flash access or lock"
prop("C24", ["ring"],
     ring("c24", range(6), 2, 2, 0, (0, 1, 2, 4), IR % 1) + ring("c24", [1, 2, 4], 1, 2, 1, (0, 1, 2, 4), IR % 2) + ring("c24w", range(3), 3, 2, 1, (0, 2, 3), IR % 2 + ", draining task waiting for the signal") + ring("c24s", range(3), 4, 0, 1, (0, 1, 2), IR % 1 + ", waits, enqueues and drains in any order"),
     ring("c24", range(6), 1, 2, 1, (0, 1, 2, 4), IR % 2) + ring("c24", range(6), 3, 2, 0, (0, 1, 2, 4), IR % 1) + ring("c24w", range(3), 3, 2, 2, (0, 1, 2, 3), IR % 3 + ", draining task waiting for the signal") + ring("c24s", range(3), 5, 0, 1, (0, 1, 2), IR % 1 + ", waits, enqueues and drains in any order"),
     "1 or 2 (3) enqueues of 4 to 6 kinds from an interrupt, each at any flash access or any entry to a critical section (symbolic), during every sequence of 1..2 (3) of drain_one, drain_all, pop and peek, or while a drain task waits; every sequence of 4 (5) waits, enqueues and drains; ring contents, flash contents and wake-ups compared after each",
     R_OUT + "; interrupts nest at flash accesses and at entries to critical sections only, which is where the ring can be observed; other cores (the ring is locked by a critical section)")

GEO.update({32: "1 page of 65792 B, word 4", 33: "1 page of 65568 B, word 8"})
prop("C18", ["queue", "map"],
     q("c18q", [0, 1, 2, 3], 0, 3, covers=(0, 1)) + q("c18q", [32], 0, 0, 0, covers=(0,)) + q("c18q", [33], 0, 0, 0, covers=(0,))
     + q("c18q", [32, 33], 0, 0, 1, covers=(1,))
     + m("c18m", [0, 1, 2, 3], 0, 2, covers=(0, 1)) + m("c18m", [32, 33], 0, 0, 0, covers=(0,)) + m("c18m", [32, 33], 0, 0, 1, covers=(1,)),
     m("c18m", MALL, 0, 5, covers=(0, 1)) + m("c18m", [32, 33], 0, 0, 2, covers=(0,)) + q("c18q", range(11), 0, 8, covers=(0, 1)) + q("c18q", [32, 33], 0, 0, 0, covers=(0,)) + q("c18q", [32, 33], 0, 0, 1, covers=(1,)) + q("c18q", [32, 33], 0, 0, 2, covers=(0,)),
     "every item length (and map value length) from 0 to 2 above the page maximum after a prelude of 0..3 (8) operations; pages that can hold 65535 bytes with the lengths around that limit; two symbolic payload bytes",
     Q_OUT)
prop("C19", ["queue", "map"],
     q("c19q", range(11), 2, 12, covers=(0,)) + m("c19m", MQ, 2, 5, covers=(0,)),
     q("c19q", ALL, 3, 30, covers=(0,)) + m("c19m", MALL, 3, 20, covers=(0,)),
     "prelude 0..12 (30) pushes or 0..5 (20) stores, 2 (3) operations of 8 kinds and a closing sequence; every erase checked",
     Q_OUT)
prop("C23", ["queue", "map"],
     q("c23q", range(7), 2, 8, covers=(0, 1)) + q("c23i", range(7), 1, covers=(0,)) + q("c23i", [4, 5, 6], 2, covers=(0,))
     + m("c23m", MQ, 2, 5, covers=(0,)) + m("c23n", MQ, 1) + m("c23n", [2, 4, 7], 2, covers=(0,)),
     q("c23q", range(11), 3, 14, covers=(0, 1)) + q("c23i", [0, 2, 3, 4, 5, 6, 7], 2, covers=(0,)) + q("c23i", [2, 3, 4, 5, 6, 9], 2, 0, 1, covers=(0,))
     + m("c23m", MALL, 3, 9, covers=(0,)) + m("c23n", [0, 2, 4, 5, 6, 7], 2, 0, 1, covers=(0,)),
     "flash decoded by an independent decoder after preludes of 0..8 (14) pushes or 0..5 (9) stores and every sequence of 2 (3) operations; every image of up to 1 (2) items per page, each live or erased, in any rotation of the pages, written by an independent encoder and read back",
     Q_OUT)
prop("C25", ["queue", "map"],
     q("c25q", range(7), 1, 4, covers=(0, 1)) + m("c25m", MQ, 1, 4, covers=(0, 1)),
     m("c25m", MQ, 1, 6, 1, covers=(0, 1)) + m("c25m", [0, 2, 3], 2, 4, covers=(0, 1)) + q("c25q", range(7), 2, 4, covers=(0, 1)) + q("c25q", range(7), 1, 8, 1, covers=(0, 1)),
     "prelude 0..4 (8) pushes, every sequence of 1 (2) operations in which any single item header or data read (symbolic number) returns 1..3 flipped bits in two (four) neighbouring bytes at any position, compared with the same operations without the misread",
     Q_OUT + "; misreads of page markers and of headers whose CRC field only is hit")
prop("C26", ["queue", "map"],
     q("c26q", range(7), 0, 8, covers=(0, 1)) + m("c26m", MQ, 0, 4, covers=(0, 1)),
     q("c26q", ALL, 0, 24, covers=(0, 1)) + m("c26m", MALL, 0, 9, covers=(0, 1)),
     "prelude 0..8 (24) pushes or 0..4 (9) stores, then peek, pop, fetch, store, removal or iteration with every buffer length from 0 to the page maximum",
     Q_OUT)

NA = {}
