# What each check runs besides the verifier. The harnesses are bounded.
def h(src, run, pkg=None, package=None, **kw):
    pkg = pkg or src
    return dict(src=src, pkg=pkg, package=package or pkg + "_test", run=run, **kw)


MACHINE = ["int and the other integer types are mathematical integers with range checks; overflow wraps where the code relies on it"]
HOLD = set()
PROPS = {
    "C19": dict(harness=[h("memfs", "TestVerifC19", nocommon=True, bound="all operation sequences of length 2 over 13 paths, random ones up to length 40")],
                note="every memfs function satisfies its tree contract for all inputs and tree shapes; assumes the contracts of strings, path, slices, bytes and fs.ValidPath and that allocation succeeds",
                assumptions=["allocation and out-of-memory are not modelled"]),
    "C20": dict(harness=[h("memfs", "TestVerifC20|TestVerifC20Locks|TestVerifC20Lost", race=True, nocommon=True, bound="random concurrent operations under the race detector")],
                note="lock discipline proved: guarded state only accessed with its lock held, no nested locks, all released, files immutable once shared; the reduction from this discipline to race freedom (mutex semantics, Go memory model) is assumed",
                assumptions=["data-race freedom is reduced to the lock discipline of the guard declarations"]),
    "C21": dict(harness=[h("memfs", "TestVerifC21", nocommon=True, bound="random histories of handles and writes")], note="copies and freshness of buffers proved by frame and freshness conditions; assumes the contracts of bytes.Buffer and bytes.Clone", assumptions=[]),
    "C22": dict(harness=[h("memfs", "TestVerifC22", nocommon=True, bound="directories of up to 333 entries, page sizes 1 to 1000")], note="the cursor contract of fhDir.ReadDir proved for all directories and page sizes; assumes the contract of slices.Sort", assumptions=[]),
    "C09": dict(harness=[h("arfs", "TestVerifC09", bound="random sources of up to 40 files; an independent reference parser is the oracle")], note="the writer's output is specified as a ghost byte string and the round trip is a lemma over that string and the parser's contract; assumes the contracts of fmt, io, strings, strconv, time, path/filepath and archive/tar in contracts/00prelude.gcv", assumptions=[]),
    "C10": dict(harness=[h("arfs", "TestVerifC10", bound="random sources, representable or not, checked by an independent strict reader")], note="every header field, column, padding byte and refusal is a postcondition over the ghost output; assumes the contracts of fmt, io and strings in contracts/00prelude.gcv", assumptions=[]),
    "C11": dict(harness=[h("arfs", "TestVerifC11", bound="random, mutated and truncated archives against an independent reference parser")], note="Open is proved to accept exactly the archives of a recursive byte-level definition, with termination and safety; assumes the contracts of io, strings, strconv, time and path/filepath in contracts/00prelude.gcv", assumptions=[]),
    "C16": dict(harness=[h("arfs", "TestVerifC16", bound="every failure point of random sources"), h("tarfs", "TestVerifC16", bound="every failure point of random sources"), h("erofs", "TestVerifC16", bound="every failure point of random sources")],
                budget=300, note="ar, tar and erofs: proved with a ghost failure flag over every source and destination call; the contracts of io, archive/tar and fs.WalkDir are assumed", assumptions=[]),
    "C17": dict(budget=300, harness=[h("arfs", "TestVerifC17", bound="every cut of random archives"), h("tarfs", "TestVerifC17", bound="cuts of random archives"), h("erofs", "TestVerifC17", bound="cuts of random images")],
                note="ar, tar (the archive reader and the end of the archive) and erofs (data readers, inodes, directories) proved against ghost readers; whole cut archives additionally bounded", assumptions=["archive/tar reports an archive that is cut as its ghost model says"]),
    "C18": dict(harness=[h("arfs", "TestVerifC18", bound="all short strings over a small alphabet and random longer ones"), h("tarfs", "TestVerifC18", bound="all short strings over a small alphabet and random longer ones")],
                note="ar and tar: every operation is proved to depend on the canonical form of the name only", assumptions=[]),
    "C23": dict(harness=[h("arfs", "TestVerifC23", race=True, bound="random operations in random order and concurrently"), h("tarfs", "TestVerifC23", race=True, bound="random operations in random order and concurrently"), h("erofs", "TestVerifC23", race=True, bound="random operations in random order and concurrently")],
                note="ar, tar and erofs: every read operation is proved to modify nothing that is shared (frames) and to return handles of its own", assumptions=["data-race freedom is reduced to the frame conditions: operations that write to no shared object do not race"]),
    "C01": dict(budget=300, harness=[h("erofs", "TestVerifC01", bound="random trees written and read back; an independent decoder is the oracle")],
                note="Create is proved to place every entry of the source once, with the mode, owner, time, size and data (or link target) of the source, at the place its inode number and block address name; and for a directory the encoded, sorted and complete list of its entries with the inode numbers and types of their paths; that the reader shows the same again is bounded", assumptions=["the source does not change while it is written and returns neither fs.SkipDir nor fs.SkipAll"]),
    "C02": dict(budget=300, harness=[h("erofs", "TestVerifC02", bound="all modes of the three types with random other bits, owners and sizes at the bounds of the two inode forms")],
                note="the conversions of modes are proved inverse for all modes (lemma), the owner and the choice of the inode form for all entries, and that Create refuses what the format does not hold", assumptions=["the source does not change while it is written"]),
    "C03": dict(budget=300, harness=[h("erofs", "TestVerifC03", bound="random trees, every image checked by an independent strict validator")],
                note="alignment, disjointness and bounds of all inodes and data, the superblock with its checksum and the counts are postconditions of firstPass, writeMetadata, writeData and write for all sources; what directory blocks hold is proved under C01", assumptions=["the source does not change while it is written"]),
    "C04": dict(harness=[h("erofs", "TestVerifC04", bound="random and generated directories, all names listed and neighbours of them")],
                note="Lookup is proved sound and complete against a byte-level definition of directories (any number of blocks and entries), by two binary-search invariants; assumes the contracts of io.ReaderAt, bytes and encoding/binary", assumptions=[]),
    "C05": dict(harness=[h("erofs", "TestVerifC05", bound="mutated images, every operation on every reachable path")],
                note="panic freedom, termination measures and the 64 KiB allocation bound proved for the reading functions; assumes the contracts of io.ReaderAt, bytes and encoding/binary", assumptions=[]),
    "C06": dict(harness=[h("erofs", "TestVerifC06", bound="every byte of the superblock changed, random superblocks")],
                note="Open is proved to accept exactly the images with a good superblock, for all contents; CRC32C is an uninterpreted function of the bytes", assumptions=["CRC32C detects a change as far as hash/crc32 does: it is an uninterpreted function here"]),
    "C07": dict(harness=[h("erofs", "TestVerifC07", bound="random inodes of both forms and layouts, an independent decoder is the oracle")],
                note="Inode is proved to accept exactly the well-formed inodes and to decode every field from its place, for all images, numbers and block sizes; links read their stored target", assumptions=[]),
    "C08": dict(harness=[h("erofs", "TestVerifC08", bound="random trees of links, an independent resolver is the oracle")],
                note="resolve is proved to terminate within the link budget, to walk only through entries of the directories it names and to leave no link unfollowed; the rest of the walk is compared with a reference resolver (bounded)", assumptions=[]),
    "C12": dict(budget=300, harness=[h("tarfs", "TestVerifC12", bound="random archives: links, implied directories, repeated and odd names; an independent reader is the oracle")],
                note="Open is proved to give every node of the tree the header and data place of the last entry of its name (hard links: of their final target), for all archives; listings, stat and reads are proved against the tree; archive/tar is specified by a ghost model of its reader, where the nodes are placed through symbolic links is bounded", assumptions=["archive/tar reads the format as its ghost model says"]),
    "C13": dict(harness=[h("tarfs", "TestVerifC13", bound="random trees of links, an independent resolver is the oracle")],
                note="resolve is proved equal to a recursive definition of path resolution for all trees and paths, and to terminate; every operation of FS is proved to use it", assumptions=[]),
    "C14": dict(budget=300, harness=[h("tarfs", "TestVerifC14", bound="random chains, cycles and dangling hard links")],
                note="Open's hard-link loop is proved to follow chains of any length to the entry they finally denote, to terminate on cycles, and to change nothing but the name", assumptions=["archive/tar reads the format as its ghost model says"]),
    "C15": dict(harness=[h("tarfs", "TestVerifC15", bound="random sources of directories, files and links")],
                note="Create is proved to write exactly the entries that are visited, in order, each with its name, mode, size, time, link target and data; that such an archive is read back entry by entry is a lemma over the definition Open is proved against (C12); fs.WalkDir is specified as a loop over the entries of the source, archive/tar by ghost models of its writer and reader; that the two models agree is assumed and replayed (bounded)", assumptions=["archive/tar reads back what it wrote", "the source does not change while it is archived and returns neither fs.SkipDir nor fs.SkipAll"]),
}

NOT_CLAIMED = {f"C{i:02d}": "contracts for this package are not written yet" for i in range(1, 24)}

