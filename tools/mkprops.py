#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech])))
W="erofs/writer.go"; R="erofs/reader.go"; E="erofs/erofs.go"; C="erofs/constants.go"
p("C01","EROFS create then open reproduces the source tree",
 "For every source filesystem made of directories, regular files and symbolic links, if creating an EROFS image succeeds, then opening that image shows exactly the source's paths and no others, with the same file types, the same bytes in every regular file, and the same symbolic link targets (of up to 4095 bytes). Empty files, files around the inlining and block size limits, directories spanning many blocks and names starting with any byte are included.",
 ["inputs","programs"],"every source tree (any names of 1..255 bytes without NUL, any file sizes, any directory sizes)",
 "The tests round-trip one image that has no empty file, no name sorting before '.', no multi-block directory boundary case, and they hash the source instead of the result.",
 [W,R,E],[("layout pass","writer.firstPass"),("directory encoding","writer.dataForInode, encodeDirents, splitIntoDirentBlocks"),("metadata and data passes","writer.writeMetadata, writer.writeData"),("reader","Image.Inode, Inode.Data, Inode.Lookup, Inode.IterDirents, Inode.Readlink")],
 [("inodes","path to on-disk inode being laid out","writer.inodes")])
p("C02","EROFS create then open preserves metadata",
 "For every entry of the source, an image created from it reports the same permission bits, setuid/setgid/sticky bits, file type, and (for regular files and symlinks) size; the same modification time to the nanosecond unless the source reports the zero time; and the same numeric owner and group whenever the source exposes them as an OS stat structure, a tar header, or another EROFS inode.",
 ["inputs"],"every mode, owner, group, time and size a source entry can report",
 "The tests check a handful of permission bits and zero owners read from one image; nothing checks metadata after creating an image.",
 [W,C,R,E,"erofs/owner_unix.go"],[("mode encoding","statModeFromFileMode"),("mode decoding","Inode.Mode"),("inode selection","toInode"),("owner extraction","getOwner"),("time decoding","fileInfo.ModTime")])
p("C03","EROFS images are laid out without overlap and in bounds",
 "In every image that is created successfully, each inode starts on a 32-byte slot at or after the metadata area, inline data lies in the same block as the tail of its inode, no two inodes' headers, inline data or data blocks share a byte or touch the superblock, and everything lies within the declared number of blocks. The root is inode number 0 of the metadata area and the superblock carries the magic, 4096-byte blocks and a correct checksum.",
 ["inputs","programs"],"every number, order and size of inodes",
 "Layout errors only show when particular sizes meet particular offsets; one sample image reaches few of them.",
 [W],[("layout pass","writer.firstPass"),("slot arithmetic","offsetToNID, roundUp"),("superblock","writer.write, SuperBlock.checksum")],
 [("metaSize/dataSize","bytes laid out so far in the two areas","writer.firstPass")])
p("C04","EROFS lookup agrees with listing for every valid directory",
 "In every valid EROFS image, a name can be opened in a directory if and only if listing that directory shows it, and both give the same inode and file type; listings hide '.' and '..' and are otherwise complete and strictly ascending by name. This holds for any number of entries and directory blocks, padded or not, inline or not.",
 ["inputs"],"every well-formed directory, every name looked up (present or absent)",
 "Binary search over blocks and then entries has boundary cases (first/last entry or block, one-entry blocks, absent names between entries) that the sample image exercises only in part.",
 [R,E],[("binary search","Inode.Lookup"),("name bounds","Inode.getDirentName, Inode.getDirent0, Inode.getBlockDataInfo"),("iteration","Inode.IterDirents, Filesystem.ReadDir")])
p("C05","Reading an untrusted EROFS image never crashes or hangs",
 "For every byte string offered as an EROFS image and every failure of the underlying reader, opening it and every subsequent listing, stat, open, read, link or lookup operation returns a result or an error: no panic, no unbounded loop or recursion, and no single buffer allocation larger than 64 KiB requested on the say-so of an unvalidated field.",
 ["inputs","fault_sequences"],"every image content (valid or corrupt), every path, every reader failure",
 "The tests open one good image; corrupt images are never opened.",
 [R,E],[("superblock validation","Image.initSuperBlock, Image.verifyChecksum"),("inode validation","Image.Inode"),("bounded reads","Image.bytesAt"),("error propagation","dirEntry.getInode"),("symlink budget","Filesystem.resolve")])
p("C06","EROFS images are accepted only with a valid superblock",
 "Opening an EROFS image succeeds only if the magic number matches, the block size exponent is between 9 and 16, no unknown incompatible feature bit is set, and, when the checksum feature is set, the stored CRC32C equals the one computed over the superblock (with its checksum field zeroed) and the rest of its block; every such image that can be read is accepted. Any change to a checksummed superblock block that leaves its CRC stale is therefore refused.",
 ["inputs"],"every superblock content",
 "The tests open one valid image; rejection is never tested.",
 [R],[("validation","Image.initSuperBlock"),("checksum","Image.verifyChecksum, SuperBlock.checksum")])
p("C07","EROFS inodes are decoded exactly as stored",
 "For every valid image (created here or elsewhere), the reported type, mode bits, size, owner, group, link count, and modification time of a file are those of its on-disk inode, in both the compact and the extended form (compact inodes take the build time). Reading a regular file yields exactly the recorded number of bytes from the recorded place: the data blocks for plain files, and full data blocks followed by the tail behind the inode for inline files; reading a link yields its stored target.",
 ["inputs"],"every inode content, both inode forms, both supported data layouts, block sizes 512..65536",
 "The sample image covers few combinations of inode form, data layout and size.",
 [R,E],[("inode decoding","Image.Inode"),("data location","Inode.Data, Inode.Readlink, Inode.getBlockDataInfo"),("addressing","SuperBlock.NidToOffset, SuperBlock.BlockAddrToOffset")])
p("C08","EROFS path resolution follows symlinks like a file system",
 "Resolving any path in an EROFS image always terminates: after at most 40 symbolic links it fails with an error instead of looping. A relative target is resolved from the directory that really contains the link, an absolute one from the image root, '..' never leaves the root, and intermediate links are always followed while the last one is followed except when reading or stat-ing the link itself.",
 ["inputs","programs"],"every tree of directories and links (chains, loops, links to links, links below linked directories), every path",
 "The sample image has only one-step links; loops and relative links below linked directories are not tested.",
 [E],[("resolution","Filesystem.resolve, splitPath")])
p("C09","ar create then open reproduces names, contents and metadata",
 "For every source directory of regular files, if creating an ar archive succeeds, then opening it lists exactly the source's names, and each file has the same bytes, size, permission bits (with setuid/setgid/sticky), modification time to the second, and the owner and group that the source exposes (an ar entry or a tar header). Files of odd length, empty files and names of up to 16 bytes are included.",
 ["inputs"],"every set of names, contents and metadata",
 "The tests round-trip two small files of equal size and compare contents only.",
 ["arfs/create.go","arfs/arfs.go"],[("writer","Create, writeArHeader, writeArData"),("reader","Open, parseArEntry")])
p("C10","ar archives that are written are always well formed",
 "Whenever creating an ar archive succeeds, the output is the 8-byte magic followed, for each file in name order, by a 60-byte header with every field in its fixed column, exactly the declared number of content bytes, and one newline of padding when that number is odd. Anything that cannot be represented (names over 16 bytes or that would be read back differently, values too wide for their column, directories, symbolic links, contents whose length differs from the declared size) makes creation fail instead.",
 ["inputs"],"every source directory and metadata values",
 "One archive with ordinary values cannot show overflow of a fixed-width field or a size mismatch.",
 ["arfs/create.go"],[("header formatting","writeArHeader"),("contents and padding","writeArData"),("rejections","Create")])
p("C11","ar parsing accepts exactly complete, well-formed archives",
 "For every byte string and every reader failure, opening it as an ar archive terminates without a panic; it succeeds only if the magic is right and the rest is a sequence of complete entries, each with the right header terminator, numeric fields, a non-negative size, a non-empty name without a slash, and all of its content present. The opened archive then lists exactly the entry names and serves for each (the last, if repeated) exactly its own content range and header values.",
 ["inputs","fault_sequences"],"every byte string offered as an archive",
 "The tests parse one good archive; malformed ones are never offered.",
 ["arfs/arfs.go"],[("entry loop","Open"),("header parsing","parseArEntry"),("magic","checkAr"),("lookup and listing","FS.Open, FS.ReadDir, FS.Stat")])
p("C12","tar entries are served with their own contents and metadata",
 "For every tar archive that opens and in which nothing lies below a non-directory, each path present as a directory, regular file or symbolic link is listed in its parent with the metadata of its (last) entry, and reading a file gives exactly that entry's own bytes; directories implied by a path but absent from the archive appear with mode 0755, and an explicit directory entry keeps its metadata no matter where its children appear. Listings are sorted by name, contain no duplicates and nothing that is not in the archive.",
 ["inputs"],"every archive (any order of entries, repeated and implied entries, any sizes and header formats)",
 "The vectors are small archives; order and repetition of entries, and metadata of directories with children, are not tested.",
 ["tarfs/tarfs.go"],[("entry index","Open"),("tree","dirent.addChild, dirent.findChild"),("serving","FS.Open, FS.ReadDir, FS.Stat")])
p("C13","tar path resolution follows symlinks and never leaves the archive",
 "Resolving any path in an opened tar archive always terminates, failing with an error after more than 40 symbolic links. A relative link target is resolved from the directory that contains the link, an absolute one from the archive root, '..' stays within the root, and reading or stat-ing a link itself never follows the last component.",
 ["inputs","programs"],"every tree of directories and links, every path",
 "The sample archive has only one-step links without '..'.",
 ["tarfs/tarfs.go"],[("resolution","resolve"),("link access","FS.ReadLink, FS.StatLink")])
p("C14","tar hard links denote their target",
 "In every opened tar archive, a hard link has the contents, type and metadata of the entry it finally denotes, under its own name, no matter how many links are chained or in which order they appear, and the outcome is the same on every run. An archive with a hard link whose target is missing, or that links to itself, is refused with an error.",
 ["inputs"],"every set of hard links and order of entries",
 "Map iteration order makes the outcome of chained links vary from run to run; one run of one archive cannot show it.",
 ["tarfs/tarfs.go"],[("link resolution","Open (second loop)")])
p("C15","tar create then open reproduces the source tree",
 "For every source filesystem of directories, regular files and symbolic links, if creating a tar archive succeeds, then opening it shows exactly the source's paths with the same types, permission bits, modification times to the second, file bytes and link targets.",
 ["inputs","programs"],"every source tree",
 "The test hashes file contents of one tree.",
 ["tarfs/create.go","tarfs/tarfs.go"],[("writer","Create"),("reader","Open")])
p("C16","Creating an archive never hides an I/O failure",
 "If any write to the destination fails, any read, open, stat, directory listing or link read of the source fails, or a file delivers more or fewer bytes than its reported size, then creating an ar, tar or EROFS archive returns a non-nil error. Conversely success means that every byte of the archive was handed to the destination without error.",
 ["fault_sequences"],"every point at which a source or destination operation fails, including the last write",
 "No test injects a failure.",
 ["arfs/create.go","tarfs/create.go",W],[("ar","Create, writeArHeader, writeArData"),("tar","Create (including the trailer)"),("erofs","writer.write and all passes")])
p("C17","Reading from an archive never silently truncates a file",
 "Reading any regular file of an opened ar, tar or EROFS archive to the end yields exactly the number of bytes its metadata declares, or an error. An archive cut short inside an entry is reported at open or at read time (a cut between two complete entries of an ar or tar archive leaves a shorter archive whose entries are complete), and a failing underlying reader is reported as an error.",
 ["inputs","fault_sequences"],"every archive cut at any point, every reader failure",
 "The tests read intact archives only.",
 ["arfs/arfs.go","tarfs/tarfs.go",E,R],[("ar content check","arfs Open"),("tar full scan","tarfs Open"),("erofs byte accounting","file.Read")])
p("C18","Path spellings map to one canonical entry without collisions",
 "In ar and tar archives, looking up a name is insensitive to leading './' or '/', repeated or trailing slashes and '..' above the root, and canonicalising is idempotent and never yields an absolute path or a '..' component. Distinct canonical names, including names with leading dots (and, in tar, spaces), remain distinct: none shadows another or is listed under a different name.",
 ["inputs"],"every path string",
 "A few ordinary names cannot show that two names collide.",
 ["arfs/arfs.go","tarfs/tarfs.go"],[("canonicalisation","sanitizePath (both packages)")])
p("C19","The in-memory file system behaves like a tree of named files",
 "After any sequence of directory creations and file writes, opening a path yields exactly what was last written there: files have the last content and size with the permissions of their first creation, directories list exactly their children, sorted when listed through io/fs and each with its type bits; everything else is reported as not existing or invalid. Operations on invalid paths, through files, or replacing a directory by a file fail and leave the tree unchanged except for directories already created by the same call, and a sub-tree view shows the same files.",
 ["histories"],"every sequence of operations",
 "The test performs one short sequence.",
 ["memfs/memfs.go"],[("tree updates","FS.MkdirAll, FS.create, FS.WriteFile"),("lookup","FS.get, FS.getDir, FS.Open, FS.Sub")],
 [("children","name to file or directory","dir.children")])
p("C20","The in-memory file system is free of data races and deadlocks",
 "For every interleaving of concurrent operations on one in-memory file system, every access to a directory's children happens while holding that directory's lock, files are never modified once other goroutines can see them, every operation releases every lock it took on every path including errors, and no operation takes a lock it already holds or holds two at once.",
 ["schedules"],"every schedule of concurrent callers",
 "The test is single-threaded.",
 ["memfs/memfs.go"],[("directory lock","dir.mu"),("immutable files","FS.create")])
p("C21","Written data and open handles of the in-memory file system are isolated",
 "Content stored by a write is independent of the caller's buffer afterwards, and an open file handle keeps delivering the content, size and permissions as of its opening whatever is written, read or closed through other handles; closing a handle makes that handle, and only that handle, fail.",
 ["histories"],"every interleaving of writes, reads and closes over several handles",
 "The test never reuses a buffer or holds two handles.",
 ["memfs/memfs.go"],[("copy on write","FS.create"),("per-handle state","FS.Open, File")])
p("C22","Listing an in-memory directory in pages yields every entry once",
 "Calling ReadDir(n) repeatedly on an open in-memory directory, with any positive page sizes, returns every entry exactly once in ascending order, at most n per call, and then an end-of-file error; with n <= 0 it returns all remaining entries and no error.",
 ["histories","inputs"],"every directory and sequence of page sizes",
 "The tests only list directories in one call.",
 ["memfs/memfs.go"],[("cursor","fhDir.ReadDir")],[("last","name of the last entry returned","fhDir.last")])
p("C23","Opened archives are never modified by reading them",
 "Listing, stat-ing, opening, reading and resolving on an opened ar, tar or EROFS archive do not modify any state shared between callers, so concurrent use is free of data races and every operation returns the same result however often and in whatever order operations are performed; each open file has its own read position.",
 ["schedules","histories"],"every interleaving and order of read operations",
 "The tests are single-threaded and perform each read once.",
 ["arfs/arfs.go","tarfs/tarfs.go",E,R],[("read-only operations","all methods of the three file system types"),("once-only inode cache","dirEntry.getInode")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
