From 2995863f16f0d70f0f6f5ec739958ff9d5ea6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:47 +0000
Subject: [PATCH 01/55] fix: arfs: reject entry headers whose terminator is
 only half right

---
 arfs/arfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 0102238..32d29b4 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -162,7 +162,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 		return nil, errors.New("malformed file entry line length")
 	}
 
-	if line[58] != 0x60 && line[59] != 0x0A {
+	if line[58] != 0x60 || line[59] != 0x0A {
 		return nil, errors.New("malformed file entry line endings")
 	}
 
-- 
2.43.0


From 2255c12e046a7b9b133c361d00a8c876ca14b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:47 +0000
Subject: [PATCH 02/55] fix: arfs: reject negative entry sizes (a size of -60
 made Open loop forever)

---
 arfs/arfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 32d29b4..918a9de 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -197,6 +197,10 @@ func parseArEntry(line []byte) (*Entry, error) {
 		*target = int64(intValue)
 	}
 
+	if e.FileSize < 0 {
+		return nil, fmt.Errorf("invalid file size: %d", e.FileSize)
+	}
+
 	return &e, nil
 }
 
-- 
2.43.0


From 468c7e74c2a434028b4a0c059f41629ce693a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 03/55] fix: arfs: report a truncated entry header instead of
 ignoring it

---
 arfs/arfs.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 918a9de..c80abff 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -69,19 +69,16 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		line := make([]byte, 60)
 
 		n, err := ra.ReadAt(line, offset)
-		if err != nil {
-			if errors.Is(err, io.EOF) {
-				break
-			}
-
+		if err != nil && !errors.Is(err, io.EOF) {
 			return nil, err
 		}
 
-		if n == 1 && line[0] == '\n' {
-			return nil, io.EOF
+		// The end of the archive (perhaps with a stray padding newline).
+		if n == 0 || (n == 1 && line[0] == '\n') {
+			break
 		}
 		if n != 60 {
-			return nil, errors.New("short read")
+			return nil, io.ErrUnexpectedEOF
 		}
 
 		e, err := parseArEntry(line)
-- 
2.43.0


From 25a6c94436ec2020db1e7c8823af6eb6d949826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 04/55] fix: arfs: reject archives that end in the middle of an
 entry's contents

---
 arfs/arfs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index c80abff..1249413 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -91,6 +91,18 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		}
 
 		begin := offset + int64(n)
+
+		// Reject archives that end before the contents of the entry do.
+		if e.FileSize > 0 {
+			if n, err := ra.ReadAt(make([]byte, 1), begin+e.FileSize-1); n != 1 {
+				if errors.Is(err, io.EOF) {
+					err = io.ErrUnexpectedEOF
+				}
+
+				return nil, fmt.Errorf("failed to read file %s: %w", e.Filename, err)
+			}
+		}
+
 		e.data = func() io.Reader {
 			return io.NewSectionReader(ra, begin, e.FileSize)
 		}
-- 
2.43.0


From 3a83d5120587dc3d87cb4e6521bb670b8a3fd2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 05/55] fix: arfs, tarfs: keep the leading dot of names such as
 .profile

---
 arfs/arfs.go   | 3 ++-
 tarfs/tarfs.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 1249413..64f1ffc 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -37,6 +37,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path"
 	"path/filepath"
 	"slices"
 	"strconv"
@@ -227,7 +228,7 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name))), "/")
 }
 
 type file struct {
diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 9e7e20e..921af84 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -15,6 +15,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path"
 	"path/filepath"
 	"slices"
 	"strings"
@@ -281,7 +282,7 @@ func resolve(root *dirent, name string) (*dirent, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(strings.TrimPrefix(filepath.Clean(filepath.ToSlash(strings.TrimSpace(name))), "."), "/")
+	return strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name))), "/")
 }
 
 type file struct {
-- 
2.43.0


From 8de991b31fe0e01c681708905aab7dbd82907c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 06/55] fix: arfs: reject entries without a name (they hid
 behind the root directory)

---
 arfs/arfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 64f1ffc..1945648 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -87,7 +87,7 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			return nil, err
 		}
 
-		if strings.Contains(e.Filename, "/") {
+		if e.Filename == "" || strings.Contains(e.Filename, "/") {
 			return nil, fmt.Errorf("invalid filename: %s", e.Filename)
 		}
 
-- 
2.43.0


From 62e9a6ee1ac45e0ead5c8734215fa088dff04145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 07/55] fix: arfs: refuse file names that an ar header cannot
 represent

---
 arfs/create.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index a76be3d..8c63e89 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -70,6 +70,9 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 	if len(name) > 16 {
 		return fmt.Errorf("file name too long: %s", name)
 	}
+	if name != hdr.Name {
+		return fmt.Errorf("file name cannot be represented: %q", hdr.Name)
+	}
 
 	// Construct the ar(1) header
 	arHeader := fmt.Sprintf(
-- 
2.43.0


From d67d50f79c3423e974d94d657ec513a0423969f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 08/55] fix: arfs: refuse metadata that does not fit in the
 fixed width header fields

---
 arfs/create.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 8c63e89..74ef3de 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -85,6 +85,11 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		fmt.Sprintf("%-10d", hdr.Size),
 	)
 
+	// A field that is too wide would shift all of the ones that follow it.
+	if len(arHeader) != 60 {
+		return fmt.Errorf("file metadata does not fit in an ar header: %s", name)
+	}
+
 	// Write the ar header to the output
 	if _, err := io.WriteString(w, arHeader); err != nil {
 		return err
-- 
2.43.0


From 45dfd1292a846cba18e2ae4fc077daf7a967da4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 09/55] fix: arfs: fail if the contents of a file do not match
 its size

---
 arfs/create.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 74ef3de..9b259d9 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -111,6 +111,9 @@ func writeArData(w io.Writer, src fs.FS, path string, size int64) error {
 	if err != nil {
 		return err
 	}
+	if n != size {
+		return fmt.Errorf("file %s is %d bytes long, expected %d", path, n, size)
+	}
 
 	// Handle padding if the file size is odd (ar format requires even size)
 	if n%2 != 0 {
-- 
2.43.0


From 52ea958628e02e01d3019a2cb21b834b900e7ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 10/55] fix: arfs: preserve ownership when copying from another
 ar archive

---
 arfs/create.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arfs/create.go b/arfs/create.go
index 9b259d9..a1ec916 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -49,6 +49,11 @@ func Create(dst io.Writer, src fs.FS) error {
 			return err
 		}
 
+		// The tar package doesn't know about our own entries.
+		if e, ok := fi.Sys().(*Entry); ok {
+			hdr.Uid, hdr.Gid = int(e.Uid), int(e.Gid)
+		}
+
 		// Write ar(1) header for the file
 		if err := writeArHeader(dst, hdr); err != nil {
 			return err
-- 
2.43.0


From b455817850e36ca632d365ea50f2a335d80068a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:18 +0000
Subject: [PATCH 11/55] fix: arfs: pad non-ASCII file names to the right number
 of bytes

---
 arfs/create.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arfs/create.go b/arfs/create.go
index a1ec916..f3b99b0 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -16,6 +16,7 @@ import (
 	"io"
 	"io/fs"
 	"strconv"
+	"strings"
 )
 
 // Create creates an ar(1) archive from the given filesystem.
@@ -79,10 +80,11 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 		return fmt.Errorf("file name cannot be represented: %q", hdr.Name)
 	}
 
-	// Construct the ar(1) header
+	// Construct the ar(1) header (note that fmt pads to a number of runes, but
+	// the width of the name field is in bytes).
 	arHeader := fmt.Sprintf(
-		"%-16s%-12s%-6s%-6s%-8s%-10s`\n",
-		name,
+		"%s%-12s%-6s%-6s%-8s%-10s`\n",
+		name+strings.Repeat(" ", 16-len(name)),
 		strconv.Itoa(int(hdr.ModTime.Unix())),
 		strconv.Itoa(hdr.Uid),
 		strconv.Itoa(hdr.Gid),
-- 
2.43.0


From b776d945062f7a63b3d087a36b54f17a3871de4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:18 +0000
Subject: [PATCH 12/55] fix: memfs: release the directory lock when MkdirAll
 runs into a file

---
 memfs/memfs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 6f09735..b597277 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -102,6 +102,7 @@ func (rootFS *FS) MkdirAll(path string, perm os.FileMode) error {
 		} else {
 			childDir, ok := child.(*dir)
 			if !ok {
+				cur.mu.Unlock()
 				return fmt.Errorf("not a directory: %s: %w", part, fs.ErrInvalid)
 			}
 			next = childDir
-- 
2.43.0


From 61b33b61b2454759dbcba4c8c986bbb49d52f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 13/55] fix: memfs: don't publish a file before its contents
 are in place (data race)

---
 memfs/memfs.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index b597277..9335195 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -190,7 +190,7 @@ func (rootFS *FS) get(path string) (childI, error) {
 	return chld, nil
 }
 
-func (rootFS *FS) create(path string) (*File, error) {
+func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, error) {
 	if !fs.ValidPath(path) {
 		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
 	}
@@ -218,10 +218,11 @@ func (rootFS *FS) create(path string) (*File, error) {
 		}
 	}
 
+	// Files are immutable once they are visible to other goroutines.
 	newFile := &File{
 		name:    filePart,
-		perm:    0666,
-		content: &bytes.Buffer{},
+		perm:    perm,
+		content: bytes.NewBuffer(data),
 	}
 	dir.children[filePart] = newFile
 
@@ -241,13 +242,8 @@ func (rootFS *FS) WriteFile(path string, data []byte, perm os.FileMode) error {
 		path = ""
 	}
 
-	f, err := rootFS.create(path)
-	if err != nil {
-		return err
-	}
-	f.content = bytes.NewBuffer(data)
-	f.perm = perm
-	return nil
+	_, err := rootFS.create(path, data, perm)
+	return err
 }
 
 // Open opens the named file.
-- 
2.43.0


From b0732c0c03c0b6411a631115b5c92a6a8de7e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:19 +0000
Subject: [PATCH 14/55] fix: memfs: copy the data passed to WriteFile instead
 of keeping the caller's slice

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 9335195..85bc68b 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -222,7 +222,7 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	newFile := &File{
 		name:    filePart,
 		perm:    perm,
-		content: bytes.NewBuffer(data),
+		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 	dir.children[filePart] = newFile
 
-- 
2.43.0


From c2c9902fea69fdea1ebe8b5ea2193869a7e7bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 15/55] fix: memfs: WriteFile keeps the permissions of an
 existing file, as documented

---
 memfs/memfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 85bc68b..0203630 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -212,10 +212,13 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	defer dir.mu.Unlock()
 	existing := dir.children[filePart]
 	if existing != nil {
-		_, ok := existing.(*File)
+		existingFile, ok := existing.(*File)
 		if !ok {
 			return nil, fmt.Errorf("path is a directory: %s: %w", path, fs.ErrExist)
 		}
+
+		// Overwriting a file doesn't change its permissions.
+		perm = existingFile.perm
 	}
 
 	// Files are immutable once they are visible to other goroutines.
-- 
2.43.0


From ff84b90de0c74c52f0a51085038a0b492f6fb437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 16/55] fix: memfs: report the size of an open file, not how
 much of it is left to read

---
 memfs/memfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 0203630..5a0bc5f 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -225,6 +225,7 @@ func (rootFS *FS) create(path string, data []byte, perm os.FileMode) (*File, err
 	newFile := &File{
 		name:    filePart,
 		perm:    perm,
+		size:    int64(len(data)),
 		content: bytes.NewBuffer(bytes.Clone(data)),
 	}
 	dir.children[filePart] = newFile
@@ -274,6 +275,7 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 		handle := &File{
 			name:    cc.name,
 			perm:    cc.perm,
+			size:    int64(cc.content.Len()),
 			content: bytes.NewBuffer(cc.content.Bytes()),
 		}
 		return handle, nil
@@ -373,6 +375,7 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 type File struct {
 	name    string
 	perm    os.FileMode
+	size    int64
 	content *bytes.Buffer
 	modTime time.Time
 	closed  bool
@@ -384,7 +387,7 @@ func (f *File) Stat() (fs.FileInfo, error) {
 	}
 	fi := fileInfo{
 		name:    f.name,
-		size:    int64(f.content.Len()),
+		size:    f.size,
 		modTime: f.modTime,
 		mode:    f.perm,
 	}
-- 
2.43.0


From f6878f7aeb28bec165388b7a9085dd3d0613f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 17/55] fix: memfs: DirEntry.Type returns the type bits only

---
 memfs/memfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 5a0bc5f..1992b4c 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -462,7 +462,7 @@ func (de *dirEntry) IsDir() bool {
 }
 
 func (de *dirEntry) Type() fs.FileMode {
-	return de.info.Mode()
+	return de.info.Mode().Type()
 }
 
 func (de *dirEntry) Info() (fs.FileInfo, error) {
-- 
2.43.0


From 1cf0dce7ce2af7a452fc50177b72e95a313dd4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 18/55] fix: memfs: ReadDir(n) on a directory handle returns
 the next n entries, then io.EOF

---
 memfs/memfs.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 1992b4c..0d8d50c 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -44,9 +44,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"io/fs"
 	"os"
 	syspath "path"
+	"slices"
 	"strings"
 	"sync"
 	"time"
@@ -307,8 +309,8 @@ type dir struct {
 }
 
 type fhDir struct {
-	dir *dir
-	idx int
+	dir  *dir
+	last string // name of the last entry returned by ReadDir
 }
 
 func (d *fhDir) Stat() (fs.FileInfo, error) {
@@ -333,19 +335,27 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 	d.dir.mu.Lock()
 	defer d.dir.mu.Unlock()
 
+	// Continue after the last entry that was returned.
 	names := make([]string, 0, len(d.dir.children))
 	for name := range d.dir.children {
-		names = append(names, name)
+		if name > d.last {
+			names = append(names, name)
+		}
 	}
 
-	if n <= 0 {
-		n = len(names)
+	slices.Sort(names)
+
+	if n > 0 {
+		if len(names) == 0 {
+			return nil, io.EOF
+		}
+
+		names = names[:min(n, len(names))]
 	}
 
-	out := make([]fs.DirEntry, 0, n)
+	out := make([]fs.DirEntry, 0, len(names))
 
-	for i := d.idx; i < n && i < len(names); i++ {
-		name := names[i]
+	for _, name := range names {
 		child := d.dir.children[name]
 
 		f, isFile := child.(*File)
@@ -367,7 +377,7 @@ func (d *fhDir) ReadDir(n int) ([]fs.DirEntry, error) {
 			})
 		}
 
-		d.idx = i
+		d.last = name
 	}
 	return out, nil
 }
-- 
2.43.0


From 9e708480568ad79db6b9f6fb43998a9235f1aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 19/55] fix: memfs: Sub validates its path and accepts the root
 directory

---
 memfs/memfs.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/memfs/memfs.go b/memfs/memfs.go
index 0d8d50c..acdde9b 100644
--- a/memfs/memfs.go
+++ b/memfs/memfs.go
@@ -293,6 +293,15 @@ func (rootFS *FS) Open(name string) (fs.File, error) {
 
 // Sub returns an FS corresponding to the subtree rooted at path.
 func (rootFS *FS) Sub(path string) (fs.FS, error) {
+	if !fs.ValidPath(path) {
+		return nil, fmt.Errorf("invalid path: %s: %w", path, fs.ErrInvalid)
+	}
+
+	if path == "." {
+		// root dir
+		path = ""
+	}
+
 	dir, err := rootFS.getDir(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ba215e2ca0c04c8cb4775f129cbdf80fc6a22d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 20/55] fix: erofs: don't inline empty files (the image could
 not be read back)

---
 erofs/writer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index ff65dcd..d4cab9e 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -105,7 +105,8 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
-		inlined := size <= MaxInlineDataSize
+		// Readers reject inline inodes without any inline data.
+		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
 			// if the size of the inode and data exceeds the block size, we need to
 			// pad to the next block boundary before inlining the data.
-- 
2.43.0


From 343e72607d8fdaffdff30218bf1da50d0daf5acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:13 +0000
Subject: [PATCH 21/55] fix: erofs: return an error instead of panicking on a
 corrupt inode

---
 erofs/erofs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 28998b3..c02d689 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -242,6 +242,7 @@ type dirEntry struct {
 	nid           uint64
 	readInodeOnce sync.Once
 	inode         *Inode
+	inodeErr      error
 }
 
 func (de *dirEntry) Name() string {
@@ -297,10 +298,14 @@ func (de *dirEntry) getInode() (Inode, error) {
 	de.readInodeOnce.Do(func() {
 		ino, err := de.image.Inode(de.nid)
 		if err != nil {
-			panic(err)
+			de.inodeErr = err
+			return
 		}
 		de.inode = &ino
 	})
+	if de.inodeErr != nil {
+		return Inode{}, de.inodeErr
+	}
 
 	return *de.inode, nil
 }
-- 
2.43.0


From 1984a87508fa82b1ccf22d36ef0e24531e6e5b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 22/55] fix: erofs: reject block sizes that the format does not
 allow (division by zero)

---
 erofs/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index e31e4a1..f0dad5b 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -228,6 +228,10 @@ func (i *Image) initSuperBlock() error {
 		return fmt.Errorf("unknown magic: 0x%x", i.sb.Magic)
 	}
 
+	if i.sb.BlockSizeBits < 9 || i.sb.BlockSizeBits > 16 {
+		return fmt.Errorf("unsupported block size: 1 << %d", i.sb.BlockSizeBits)
+	}
+
 	if err := i.verifyChecksum(); err != nil {
 		return err
 	}
-- 
2.43.0


From 70907fc79f63c042f96dee635066670691060493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 23/55] fix: erofs: reject inode sizes that overflow (Readlink
 panicked on them)

---
 erofs/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index f0dad5b..16f76bb 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -39,6 +39,7 @@ import (
 	"hash/crc32"
 	"io"
 	"io/fs"
+	"math"
 )
 
 const (
@@ -423,6 +424,9 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 	}
 
 	blockSize := int64(i.BlockSize())
+	if inode.size > uint64(math.MaxInt64-blockSize) {
+		return Inode{}, fmt.Errorf("invalid size at inode %d: %d", nid, inode.size)
+	}
 	inode.blocks = (int64(inode.size) + (blockSize - 1)) / blockSize
 
 	switch dataLayout := inode.DataLayout(); dataLayout {
-- 
2.43.0


From 32cd5ce298f53e17aca040cc76995cd8f20f2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 24/55] fix: erofs: don't panic on a checksummed superblock
 with a block size below 2048

---
 erofs/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index 16f76bb..4bf6f06 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -453,6 +453,9 @@ func (i *Image) Inode(nid uint64) (Inode, error) {
 
 // bytesAt returns the bytes at [off, off+n) of the image.
 func (i *Image) bytesAt(off, n int64) ([]byte, error) {
+	if n < 0 {
+		return nil, io.ErrUnexpectedEOF
+	}
 	buf := make([]byte, n)
 	if _, err := i.src.ReadAt(buf, off); err != nil {
 		return nil, err
-- 
2.43.0


From 32508a4306f7ac5d40173adbedad2cce64d9c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 25/55] fix: erofs: accept an io.EOF that accompanies a full
 read

---
 erofs/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 4bf6f06..e455329 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -457,7 +457,11 @@ func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 		return nil, io.ErrUnexpectedEOF
 	}
 	buf := make([]byte, n)
-	if _, err := i.src.ReadAt(buf, off); err != nil {
+	// A full read that ends at the end of the image may come with an io.EOF.
+	if m, err := i.src.ReadAt(buf, off); m != len(buf) || (err != nil && !errors.Is(err, io.EOF)) {
+		if err == nil {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
 	return buf, nil
-- 
2.43.0


From d433669ff0f7cc0683e48a30840673bc76b2196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 26/55] fix: erofs: report truncated file contents instead of a
 clean end of file

---
 erofs/erofs.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index c02d689..5eef7d1 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -209,6 +209,7 @@ type file struct {
 	image *Image
 	de    *dirEntry
 	r     io.Reader
+	left  uint64 // number of bytes still to be read
 }
 
 func (f *file) Read(p []byte) (int, error) {
@@ -222,9 +223,17 @@ func (f *file) Read(p []byte) (int, error) {
 		if err != nil {
 			return 0, err
 		}
+		f.left = ino.Size()
 	}
 
-	return f.r.Read(p)
+	n, err := f.r.Read(p)
+	f.left -= uint64(n)
+	if err == io.EOF && f.left > 0 {
+		// The image has been truncated.
+		err = io.ErrUnexpectedEOF
+	}
+
+	return n, err
 }
 
 func (f *file) Close() error {
-- 
2.43.0


From 1c4c814660e64b5d18b4e38ce74b375d7324c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 27/55] fix: erofs: resolve symlinks relative to the directory
 they are in, and detect loops

---
 erofs/erofs.go | 51 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 5eef7d1..7c98e22 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -57,6 +57,7 @@ func Open(src io.ReaderAt) (*Filesystem, error) {
 		image: image,
 		root: &dirEntry{
 			image: image,
+			name:  ".",
 			nid:   image.RootNid(),
 			typ:   FT_DIR,
 		},
@@ -166,11 +167,34 @@ func (fsys *Filesystem) StatLink(name string) (fs.FileInfo, error) {
 	}, nil
 }
 
+// maxSymlinks is the number of symbolic links that are followed for a path,
+// beyond that it is assumed that there is a loop.
+const maxSymlinks = 40
+
 func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEntry, error) {
-	de := fsys.root
+	// The directory entries from the root to the current one.
+	parents := []*dirEntry{fsys.root}
 
+	numSymlinks := 0
 	components := splitPath(name)
-	for i, comp := range components {
+	for len(components) > 0 {
+		de, comp := parents[len(parents)-1], components[0]
+		components = components[1:]
+
+		if comp == "." || comp == ".." {
+			ino, err := de.getInode()
+			if err != nil {
+				return nil, err
+			}
+			if !ino.IsDir() {
+				return nil, fs.ErrInvalid
+			}
+			if comp == ".." && len(parents) > 1 {
+				parents = parents[:len(parents)-1]
+			}
+			continue
+		}
+
 		child, err := de.lookup(comp)
 		if err != nil {
 			return nil, err
@@ -181,28 +205,27 @@ func (fsys *Filesystem) resolve(name string, noResolveLastSymlink bool) (*dirEnt
 			return nil, err
 		}
 
-		if ino.IsSymlink() && !(noResolveLastSymlink && i == len(components)-1) {
+		if ino.IsSymlink() && !(noResolveLastSymlink && len(components) == 0) {
+			if numSymlinks++; numSymlinks > maxSymlinks {
+				return nil, errors.New("too many levels of symbolic links")
+			}
+
 			link, err := ino.Readlink()
 			if err != nil {
 				return nil, err
 			}
-			link = filepath.Clean(link)
 
+			// The link is relative to the directory that contains it.
 			if strings.HasPrefix(link, "/") {
-				link = strings.TrimPrefix(link, "/")
-			} else {
-				link = filepath.Join(strings.Join(components[:i], "/"), link)
-			}
-
-			child, err = fsys.resolve(link, noResolveLastSymlink)
-			if err != nil {
-				return nil, err
+				parents = parents[:1]
 			}
+			components = append(splitPath(link), components...)
+			continue
 		}
 
-		de = child
+		parents = append(parents, child)
 	}
-	return de, nil
+	return parents[len(parents)-1], nil
 }
 
 type file struct {
-- 
2.43.0


From e55a13fb92a2a7e6ffcdd3663b067dd6f1aba5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:10 +0000
Subject: [PATCH 28/55] fix: erofs: report the setuid, setgid and sticky bits

---
 erofs/reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/erofs/reader.go b/erofs/reader.go
index e455329..b85fef6 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -613,6 +613,16 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeSymlink
 	}
 
+	if ino.mode&S_ISUID != 0 {
+		mode |= fs.ModeSetuid
+	}
+	if ino.mode&S_ISGID != 0 {
+		mode |= fs.ModeSetgid
+	}
+	if ino.mode&S_ISVTX != 0 {
+		mode |= fs.ModeSticky
+	}
+
 	return mode
 }
 
-- 
2.43.0


From dc4c04b0fee052746bbd701b51b761511141729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:11 +0000
Subject: [PATCH 29/55] fix: erofs: report modification times with their
 nanoseconds

---
 erofs/erofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/erofs.go b/erofs/erofs.go
index 7c98e22..f7084d1 100644
--- a/erofs/erofs.go
+++ b/erofs/erofs.go
@@ -361,7 +361,7 @@ func (fi *fileInfo) Mode() fs.FileMode {
 }
 
 func (fi *fileInfo) ModTime() time.Time {
-	return time.Unix(int64(fi.inode.Mtime()), 0)
+	return time.Unix(int64(fi.inode.Mtime()), int64(fi.inode.MtimeNsec()))
 }
 
 func (fi *fileInfo) IsDir() bool {
-- 
2.43.0


From 212149f728aebc36e415df3cb5cc385e34621f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 30/55] fix: erofs: preserve ownership when copying from
 another erofs image

---
 erofs/owner_unix.go    | 6 ++++++
 erofs/owner_windows.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/erofs/owner_unix.go b/erofs/owner_unix.go
index 57ae752..d9b3d66 100644
--- a/erofs/owner_unix.go
+++ b/erofs/owner_unix.go
@@ -31,6 +31,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 
 		uid = hdr.Uid
 		gid = hdr.Gid
+
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
 	}
 
 	return
diff --git a/erofs/owner_windows.go b/erofs/owner_windows.go
index d497daa..3d1fd19 100644
--- a/erofs/owner_windows.go
+++ b/erofs/owner_windows.go
@@ -24,6 +24,12 @@ func getOwner(fi fs.FileInfo) (uid, gid int) {
 
 		uid = hdr.Uid
 		gid = hdr.Gid
+
+	case *Inode:
+		ino := fi.Sys().(*Inode)
+
+		uid = int(ino.UID())
+		gid = int(ino.GID())
 	}
 
 	return
-- 
2.43.0


From 04503232934da771942d97bf3b536c00dfb1f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 31/55] fix: erofs: don't mistake character devices for regular
 files

---
 erofs/constants.go | 4 ++--
 erofs/reader.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/erofs/constants.go b/erofs/constants.go
index 3e33128..6303a2f 100644
--- a/erofs/constants.go
+++ b/erofs/constants.go
@@ -32,7 +32,7 @@ func fileTypeFromFileMode(mode fs.FileMode) uint8 {
 		return FT_SYMLINK
 	case fs.ModeDevice:
 		return FT_BLKDEV
-	case fs.ModeCharDevice:
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
 		return FT_CHRDEV
 	case fs.ModeNamedPipe:
 		return FT_FIFO
@@ -68,7 +68,7 @@ func statModeFromFileMode(mode fs.FileMode) uint16 {
 		stMode |= S_IFLNK
 	case fs.ModeDevice:
 		stMode |= S_IFBLK
-	case fs.ModeCharDevice:
+	case fs.ModeCharDevice, fs.ModeDevice | fs.ModeCharDevice:
 		stMode |= S_IFCHR
 	case fs.ModeNamedPipe:
 		stMode |= S_IFIFO
diff --git a/erofs/reader.go b/erofs/reader.go
index b85fef6..68f78dc 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -598,7 +598,7 @@ func (ino *Inode) Mode() fs.FileMode {
 		mode |= fs.ModeDir
 	}
 	if ino.IsCharDev() {
-		mode |= fs.ModeCharDevice
+		mode |= fs.ModeDevice | fs.ModeCharDevice
 	}
 	if ino.IsBlockDev() {
 		mode |= fs.ModeDevice
-- 
2.43.0


From 627fe2b53a703a1c4293c5cc5913cd42040a67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 32/55] fix: erofs: use extended inodes for directories with
 more than 65535 links

---
 erofs/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index d4cab9e..6b4f3fe 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -400,7 +400,7 @@ func toInode(fi fs.FileInfo, nlink int) any {
 
 	// Can we use a compact inode?
 	compact := fi.Size() <= math.MaxUint32 &&
-		uid <= math.MaxUint16 && gid <= math.MaxUint16 &&
+		uid <= math.MaxUint16 && gid <= math.MaxUint16 && nlink <= math.MaxUint16 &&
 		fi.ModTime() == time.Time{}
 
 	if compact {
-- 
2.43.0


From 31655a2fa3de548acae21728d8943827e6a5c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:49 +0000
Subject: [PATCH 33/55] fix: erofs: sort . and .. with the other entries (names
 such as -x could not be looked up)

---
 erofs/writer.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 6b4f3fe..22a5d9e 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -19,6 +19,8 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"slices"
+	"strings"
 	"time"
 )
 
@@ -335,12 +337,15 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			return nil, 0, fmt.Errorf("failed to read directory entries: %w", err)
 		}
 
-		dirents := []Dirent{{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}}
-		names := []string{"."}
+		type namedDirent struct {
+			Dirent
+			name string
+		}
+
+		namedDirents := []namedDirent{{Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}, "."}}
 
 		if path != "." {
-			dirents = append(dirents, Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))})
-			names = append(names, "..")
+			namedDirents = append(namedDirents, namedDirent{Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}, ".."})
 		}
 
 		for _, de := range entries {
@@ -361,11 +366,22 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 				return nil, 0, fmt.Errorf("unsupported inode type %T", ino)
 			}
 
-			dirents = append(dirents, Dirent{
+			namedDirents = append(namedDirents, namedDirent{Dirent{
 				Nid:      uint64(nid),
 				FileType: uint8(fileTypeFromFileMode(de.Type())),
-			})
-			names = append(names, de.Name())
+			}, de.Name()})
+		}
+
+		// Directory entries (including "." and "..") are looked up by binary search.
+		slices.SortFunc(namedDirents, func(a, b namedDirent) int {
+			return strings.Compare(a.name, b.name)
+		})
+
+		var dirents []Dirent
+		var names []string
+		for _, de := range namedDirents {
+			dirents = append(dirents, de.Dirent)
+			names = append(names, de.name)
 		}
 
 		buf, err := encodeDirents(dirents, names)
-- 
2.43.0


From 596fce8c12a253838039428a86bf80edab673fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 34/55] fix: erofs: point the . and .. entries at the directory
 and its parent (all were the root)

---
 erofs/writer.go | 52 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 22a5d9e..061bb6b 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -342,28 +342,34 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 			name string
 		}
 
-		namedDirents := []namedDirent{{Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}, "."}}
+		nid, err := w.nidForPath(path)
+		if err != nil {
+			return nil, 0, err
+		}
+
+		namedDirents := []namedDirent{{Dirent{
+			Nid:      uint64(nid),
+			FileType: uint8(fileTypeFromFileMode(fs.ModeDir)),
+		}, "."}}
 
 		if path != "." {
-			namedDirents = append(namedDirents, namedDirent{Dirent{FileType: uint8(fileTypeFromFileMode(fs.ModeDir))}, ".."})
+			nid, err := w.nidForPath(filepath.Dir(path))
+			if err != nil {
+				return nil, 0, err
+			}
+
+			namedDirents = append(namedDirents, namedDirent{Dirent{
+				Nid:      uint64(nid),
+				FileType: uint8(fileTypeFromFileMode(fs.ModeDir)),
+			}, ".."})
 		}
 
 		for _, de := range entries {
 			path := filepath.Clean(filepath.Join(path, de.Name()))
 
-			ino, ok := w.inodes[path]
-			if !ok {
-				return nil, 0, fmt.Errorf("failed to find inode for path %q", path)
-			}
-
-			var nid uint32
-			switch ino := ino.(type) {
-			case InodeCompact:
-				nid = ino.Ino
-			case InodeExtended:
-				nid = ino.Ino
-			default:
-				return nil, 0, fmt.Errorf("unsupported inode type %T", ino)
+			nid, err := w.nidForPath(path)
+			if err != nil {
+				return nil, 0, err
 			}
 
 			namedDirents = append(namedDirents, namedDirent{Dirent{
@@ -411,6 +417,22 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 	}
 }
 
+func (w *writer) nidForPath(path string) (uint32, error) {
+	ino, ok := w.inodes[path]
+	if !ok {
+		return 0, fmt.Errorf("failed to find inode for path %q", path)
+	}
+
+	switch ino := ino.(type) {
+	case InodeCompact:
+		return ino.Ino, nil
+	case InodeExtended:
+		return ino.Ino, nil
+	default:
+		return 0, fmt.Errorf("unsupported inode type %T", ino)
+	}
+}
+
 func toInode(fi fs.FileInfo, nlink int) any {
 	uid, gid := getOwner(fi)
 
-- 
2.43.0


From db43f1bbcc8289a522df764c4cbe52aac6743649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 35/55] fix: erofs: refuse file names that cannot be read back
 (too long, null bytes)

---
 erofs/writer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 061bb6b..a56c5ba 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -388,6 +388,11 @@ func (w *writer) dataForInode(path string, ino any) (io.ReadCloser, int64, error
 		for _, de := range namedDirents {
 			dirents = append(dirents, de.Dirent)
 			names = append(names, de.name)
+
+			// Readers reject names that are too long, and stop at a null byte.
+			if len(de.name) > MaxNameLen || strings.Contains(de.name, "\x00") {
+				return nil, 0, fmt.Errorf("invalid file name %q", de.name)
+			}
 		}
 
 		buf, err := encodeDirents(dirents, names)
-- 
2.43.0


From 4050ac124a1d8214aad22997534aaccad8cebb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 36/55] fix: erofs: fail if the contents of a file do not match
 its size (they overwrote their neighbours)

---
 erofs/writer.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index a56c5ba..081f82a 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -195,12 +195,17 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 	for _, path := range w.inodeOrder {
 		ino := w.inodes[path]
 
-		var nid uint32
+		var (
+			nid  uint32
+			size int64
+		)
 		switch ino := ino.(type) {
 		case InodeCompact:
 			nid = ino.Ino
+			size = int64(ino.Size)
 		case InodeExtended:
 			nid = ino.Ino
+			size = int64(ino.Size)
 		default:
 			return fmt.Errorf("unsupported inode type %T", ino)
 		}
@@ -221,11 +226,14 @@ func (w *writer) writeMetadata(metaBlockAddr int64) error {
 			}
 
 			// Write the inlined data.
-			_, err = io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
+			n, err := io.Copy(io.NewOffsetWriter(w.dst, off+int64(binary.Size(ino))), data)
 			_ = data.Close()
 			if err != nil {
 				return fmt.Errorf("failed to write inline data for %q: %w", path, err)
 			}
+			if n != size {
+				return fmt.Errorf("data for %q is %d bytes long, expected %d", path, n, size)
+			}
 		}
 	}
 
@@ -241,12 +249,17 @@ func (w *writer) writeData() error {
 			continue
 		}
 
-		var rawBlockAddr uint32
+		var (
+			rawBlockAddr uint32
+			size         int64
+		)
 		switch ino := ino.(type) {
 		case InodeCompact:
 			rawBlockAddr = ino.RawBlockAddr
+			size = int64(ino.Size)
 		case InodeExtended:
 			rawBlockAddr = ino.RawBlockAddr
+			size = int64(ino.Size)
 		default:
 			return fmt.Errorf("unsupported inode type %T", ino)
 		}
@@ -256,11 +269,14 @@ func (w *writer) writeData() error {
 			return fmt.Errorf("failed to get data for %q: %w", path, err)
 		}
 
-		_, err = io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
+		n, err := io.Copy(io.NewOffsetWriter(w.dst, int64(rawBlockAddr)*BlockSize), data)
 		_ = data.Close()
 		if err != nil {
 			return fmt.Errorf("failed to write data for %q: %w", path, err)
 		}
+		if n != size {
+			return fmt.Errorf("data for %q is %d bytes long, expected %d", path, n, size)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 94cacddd59b8d907672ba2f9d7c4568943e81664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 37/55] fix: erofs: write the zeroes that the superblock
 checksum covers

---
 erofs/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/erofs/writer.go b/erofs/writer.go
index 081f82a..2991842 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -87,6 +87,12 @@ func (w *writer) write() error {
 		return fmt.Errorf("failed to write superblock: %w", err)
 	}
 
+	// The checksum covers the zeroes in the remainder of the block.
+	sbEnd := SuperBlockOffset + int64(binary.Size(&sb))
+	if _, err := w.dst.WriteAt(make([]byte, BlockSize-sbEnd), sbEnd); err != nil {
+		return fmt.Errorf("failed to write superblock padding: %w", err)
+	}
+
 	if f, ok := w.dst.(*os.File); ok {
 		if err := f.Truncate(int64(sb.Blocks) * BlockSize); err != nil {
 			return fmt.Errorf("failed to truncate destination file: %w", err)
-- 
2.43.0


From 028f7324b8855d7f51d01b080b282c508ee7816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 38/55] fix: tarfs: keep leading and trailing spaces of names

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 921af84..3d8f6cb 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -282,7 +282,7 @@ func resolve(root *dirent, name string) (*dirent, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name))), "/")
+	return strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(name)), "/")
 }
 
 type file struct {
-- 
2.43.0


From d9edf41fc3e01d9d1638fd91e2332f62811fe91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 39/55] fix: tarfs: keep the metadata of directories that are
 followed by their contents

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 3d8f6cb..69961c2 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -85,6 +85,10 @@ func Open(ra io.ReaderAt) (*FS, error) {
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
 			// Don't worry if we see one later, we'll just overwrite it.
+			if existing, ok := dirents[dir]; ok && existing.Typeflag == tar.TypeDir {
+				continue
+			}
+
 			dirents[dir] = &dirent{
 				Header: tar.Header{
 					Typeflag: tar.TypeDir,
-- 
2.43.0


From 12ae3e5ff25ebc63b5b9e2efc4950910acd25f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 40/55] fix: tarfs: follow chains of hardlinks (the outcome
 depended on map iteration order)

---
 tarfs/tarfs.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 69961c2..3cd6822 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -111,10 +111,21 @@ func Open(ra io.ReaderAt) (*FS, error) {
 	// Point hardlinks to the underlying dirent.
 	for path, d := range dirents {
 		if d.Typeflag == tar.TypeLink {
-			name := sanitizePath(d.Linkname)
-			target, ok := dirents[name]
-			if !ok {
-				return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+			target := d
+
+			// The target might be a hardlink too.
+			for n := 0; target.Typeflag == tar.TypeLink; n++ {
+				name := sanitizePath(target.Linkname)
+
+				var ok bool
+				target, ok = dirents[name]
+				if !ok {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrNotExist)
+				}
+
+				if n == len(dirents) {
+					return nil, fmt.Errorf("failed to resolve hardlink %q: %w", name, fs.ErrInvalid)
+				}
 			}
 
 			targetCopy := *target
-- 
2.43.0


From b3216b3c8a86c0ae251baa8bff1c312321fd808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 41/55] fix: tarfs: don't panic when opening a directory that
 has no entry of its own

---
 tarfs/tarfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 3cd6822..b93bc3c 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -169,6 +169,11 @@ func (fsys *FS) Open(name string) (fs.File, error) {
 		return nil, err
 	}
 
+	// The root directory, and default directory entries, are not in the archive.
+	if d.data == nil {
+		return &file{dirent: d, r: strings.NewReader("")}, nil
+	}
+
 	tr := tar.NewReader(d.data())
 	if _, err := tr.Next(); err != nil {
 		return nil, fmt.Errorf("failed to read file %s: %w", name, err)
-- 
2.43.0


From 5e8f835f5bf59597486be84b6fcfada10a232e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:33 +0000
Subject: [PATCH 42/55] fix: tarfs: resolve relative, nested absolute and
 looping symlinks

---
 tarfs/tarfs.go | 56 +++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index b93bc3c..2cb7984 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -263,39 +263,49 @@ func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
 	return d.Info()
 }
 
+// maxSymlinks is the number of symbolic links that are followed for a path,
+// beyond that it is assumed that there is a loop.
+const maxSymlinks = 40
+
 func resolve(root *dirent, name string) (*dirent, error) {
 	d := root
 
-	name = sanitizePath(name)
-	if name == "" {
-		return d, nil
-	}
+	numSymlinks := 0
+	components := strings.Split(sanitizePath(name), "/")
+	for len(components) > 0 {
+		component := components[0]
+		components = components[1:]
+
+		if component == "" || component == "." {
+			continue
+		}
+
+		if component == ".." {
+			if d.parent != nil {
+				d = d.parent
+			}
+			continue
+		}
 
-	for _, component := range strings.Split(name, "/") {
-		var found bool
-		d, found = d.findChild(component)
+		child, found := d.findChild(component)
 		if !found {
 			return nil, fs.ErrNotExist
 		}
 
-		if d.Type()&fs.ModeSymlink != 0 {
-			// Resolve the symlink.
-			target := d.Linkname
+		if child.Type()&fs.ModeSymlink == 0 {
+			d = child
+			continue
+		}
 
-			var err error
-			if !filepath.IsAbs(target) && d.parent != nil {
-				d, err = resolve(d.parent, target)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				// The target is an absolute path or the dirent is the root dirent.
-				d, err = resolve(root, target)
-				if err != nil {
-					return nil, err
-				}
-			}
+		// Resolve the symlink, relative to the directory that contains it.
+		if numSymlinks++; numSymlinks > maxSymlinks {
+			return nil, errors.New("too many levels of symbolic links")
+		}
+
+		if filepath.IsAbs(child.Linkname) {
+			d = root
 		}
+		components = append(strings.Split(child.Linkname, "/"), components...)
 	}
 
 	return d, nil
-- 
2.43.0


From 7fa113c234dd8c15753d0808780ee20cf943cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 43/55] fix: tarfs: GNU sparse files are regular files

---
 tarfs/tarfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 2cb7984..a0ced07 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -372,7 +372,7 @@ func (d *dirent) IsDir() bool {
 
 func (d *dirent) Type() fs.FileMode {
 	switch d.Typeflag {
-	case tar.TypeReg:
+	case tar.TypeReg, tar.TypeGNUSparse:
 		return 0
 	case tar.TypeSymlink:
 		return fs.ModeSymlink
-- 
2.43.0


From f534b18991c9198ff57ebf98a79af2c66f789570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 44/55] fix: tarfs: ReadDir of a file is an error

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index a0ced07..524e165 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -188,6 +188,10 @@ func (fsys *FS) ReadDir(name string) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 
+	if !d.IsDir() {
+		return nil, errors.New("not a directory")
+	}
+
 	var children []fs.DirEntry
 	for _, child := range d.children {
 		children = append(children, child)
-- 
2.43.0


From 9c61937b96bab6d8b20709abc6a637f595189cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 45/55] fix: tarfs: report a failure to finish the archive

---
 tarfs/create.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tarfs/create.go b/tarfs/create.go
index b8a105e..8793914 100644
--- a/tarfs/create.go
+++ b/tarfs/create.go
@@ -21,9 +21,8 @@ import (
 // Create creates a tar archive from the given filesystem.
 func Create(dst io.Writer, src fs.FS) error {
 	tw := tar.NewWriter(dst)
-	defer tw.Close()
 
-	return fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
+	err := fs.WalkDir(src, ".", func(path string, d fs.DirEntry, err error) error {
 		if err != nil {
 			return err
 		}
@@ -79,4 +78,10 @@ func Create(dst io.Writer, src fs.FS) error {
 
 		return nil
 	})
+	if err != nil {
+		return err
+	}
+
+	// Fails if the last file is incomplete, or if the trailer can't be written.
+	return tw.Close()
 }
-- 
2.43.0


From e81825ee0a8109e37fbfbdfb2a56984ac5d24ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 46/55] fix: tarfs: StatLink of the root directory

---
 tarfs/tarfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 524e165..33c85a6 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -254,6 +254,10 @@ func (fsys *FS) ReadLink(name string) (string, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
+	if sanitizePath(name) == "" {
+		return fsys.root.Info()
+	}
+
 	d, err := resolve(&fsys.root, filepath.Dir(name))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From a3f2280a170c7be83a0f3d8950d3c6fd3fb658fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 47/55] fix: tarfs: accept the same spellings of a path in
 ReadLink and StatLink as in Stat

---
 tarfs/tarfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 33c85a6..0afec8b 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -233,6 +233,8 @@ func (fsys *FS) Stat(name string) (fs.FileInfo, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) ReadLink(name string) (string, error) {
+	name = sanitizePath(name)
+
 	d, err := resolve(&fsys.root, filepath.Dir(name))
 	if err != nil {
 		return "", err
@@ -254,7 +256,8 @@ func (fsys *FS) ReadLink(name string) (string, error) {
 // Experimental implementation of fs.ReadLinkFS:
 // https://github.com/golang/go/issues/49580
 func (fsys *FS) StatLink(name string) (fs.FileInfo, error) {
-	if sanitizePath(name) == "" {
+	name = sanitizePath(name)
+	if name == "" {
 		return fsys.root.Info()
 	}
 
-- 
2.43.0


From 5bd693e76306a727a09323a84d57b8ed4de9494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 48/55] fix: tarfs: don't rewrite symlink targets (./x in a/
 became /x instead of a/x)

---
 tarfs/tarfs.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/tarfs/tarfs.go b/tarfs/tarfs.go
index 0afec8b..dfb9665 100644
--- a/tarfs/tarfs.go
+++ b/tarfs/tarfs.go
@@ -73,14 +73,6 @@ func Open(ra io.ReaderAt) (*FS, error) {
 			continue
 		}
 
-		// Make archive relative paths absolute.
-		if h.Typeflag == tar.TypeSymlink {
-			if strings.HasPrefix(h.Linkname, "./") {
-				h.Linkname = strings.TrimPrefix(h.Linkname, ".")
-			}
-			h.Linkname = filepath.Clean(h.Linkname)
-		}
-
 		// Create a default directory entry for each parent directory.
 		for dir := filepath.Dir(h.Name); dir != "." && dir != "/"; dir = filepath.Dir(dir) {
 			// Create a default directory entry if it doesn't exist.
-- 
2.43.0


From c3fb3d2b4b9ecd9ee4e93b61e377868c2d22df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 49/55] fix: arfs: accept an io.EOF that accompanies the magic
 of an empty archive

---
 arfs/arfs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 1945648..20df58d 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -218,7 +218,8 @@ func parseArEntry(line []byte) (*Entry, error) {
 // like an `ar(1)` archive, and not some random file.
 func checkAr(ra io.ReaderAt) (int64, error) {
 	header := make([]byte, 8)
-	if _, err := ra.ReadAt(header, 0); err != nil {
+	// Reading all of an empty archive may come with an io.EOF.
+	if n, err := ra.ReadAt(header, 0); err != nil && (n != len(header) || !errors.Is(err, io.EOF)) {
 		return 0, err
 	}
 	if string(header) != "!<arch>\n" {
-- 
2.43.0


From f89aaa68a920b88365ea3275949e11634a29e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 50/55] fix: arfs: only trim the padding of names ("/ x" was
 listed as " x" but could not be opened)

---
 arfs/arfs.go   | 4 ++--
 arfs/create.go | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/arfs/arfs.go b/arfs/arfs.go
index 20df58d..c5d3264 100644
--- a/arfs/arfs.go
+++ b/arfs/arfs.go
@@ -185,7 +185,7 @@ func parseArEntry(line []byte) (*Entry, error) {
 	fileMode := (&tar.Header{Mode: int64(mode)}).FileInfo().Mode()
 
 	e := Entry{
-		Filename: sanitizePath(string(line[0:16])),
+		Filename: sanitizePath(strings.TrimRight(string(line[0:16]), " ")),
 		FileMode: fileMode,
 	}
 
@@ -229,7 +229,7 @@ func checkAr(ra io.ReaderAt) (int64, error) {
 }
 
 func sanitizePath(name string) string {
-	return strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(strings.TrimSpace(name))), "/")
+	return strings.TrimPrefix(path.Clean("/"+filepath.ToSlash(name)), "/")
 }
 
 type file struct {
diff --git a/arfs/create.go b/arfs/create.go
index f3b99b0..60a054e 100644
--- a/arfs/create.go
+++ b/arfs/create.go
@@ -76,7 +76,8 @@ func writeArHeader(w io.Writer, hdr *tar.Header) error {
 	if len(name) > 16 {
 		return fmt.Errorf("file name too long: %s", name)
 	}
-	if name != hdr.Name {
+	// The field is padded with spaces.
+	if name != hdr.Name || strings.HasSuffix(name, " ") {
 		return fmt.Errorf("file name cannot be represented: %q", hdr.Name)
 	}
 
-- 
2.43.0


From f0a3415d4d8aad94b75e1bba306697a7a38f8184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:22 +0000
Subject: [PATCH 51/55] fix: erofs: accept directory blocks with a lot of
 padding behind the last name

---
 erofs/reader.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 68f78dc..4f7dec2 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -714,7 +714,11 @@ func (ino *Inode) getBlockDataInfo(blockIdx uint64) blockData {
 func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, lastDirent bool) ([]byte, error) {
 	var nameLen uint32
 	if lastDirent {
-		nameLen = block.size - uint32(d.NameOff)
+		if uint32(d.NameOff) > block.size {
+			return nil, errors.New("corrupted dirent")
+		}
+		// The name may be followed by any amount of padding.
+		nameLen = min(block.size-uint32(d.NameOff), MaxNameLen+1)
 	} else {
 		next, err := ino.image.direntAt(direntOff + DirentSize)
 		if err != nil {
@@ -723,7 +727,7 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 
 		nameLen = uint32(next.NameOff - d.NameOff)
 	}
-	if uint32(d.NameOff)+nameLen > block.size || nameLen > MaxNameLen || nameLen == 0 {
+	if uint32(d.NameOff)+nameLen > block.size || nameLen > MaxNameLen+1 || nameLen == 0 {
 		return nil, errors.New("corrupted dirent")
 	}
 	name, err := ino.image.bytesAt(int64(block.base)+int64(d.NameOff), int64(nameLen))
@@ -740,6 +744,9 @@ func (ino *Inode) getDirentName(d *Dirent, direntOff int64, block blockData, las
 			name = name[:n]
 		}
 	}
+	if len(name) > MaxNameLen {
+		return nil, errors.New("corrupted dirent")
+	}
 	return name, nil
 }
 
-- 
2.43.0


From 873336c61d6efef61060c44cfbce37a46d4b3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 52/55] fix: erofs: verify the superblock checksum of images
 with blocks of up to 1024 bytes

---
 erofs/reader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 4f7dec2..f144d28 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -262,7 +262,8 @@ func (i *Image) verifyChecksum() error {
 	checksum := crc32.Checksum(marshalledSb.Bytes(), table)
 
 	off := SuperBlockOffset + int64(binary.Size(i.sb))
-	if buf, err := i.bytesAt(off, int64(i.BlockSize())-off); err != nil {
+	blockSize := int64(i.BlockSize())
+	if buf, err := i.bytesAt(off, blockSize-off%blockSize); err != nil {
 		return errors.New("image size is too small")
 	} else {
 		checksum = ^crc32.Update(checksum, table, buf)
-- 
2.43.0


From b060a6cd3eaa71645d24c99cb844188d115c8bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:26 +0000
Subject: [PATCH 53/55] fix: erofs: look up names in a directory that is stored
 at offset 0 of the image

---
 erofs/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index f144d28..7431936 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -811,7 +811,7 @@ func (ino *Inode) Lookup(name string) (Dirent, error) {
 		}
 	}
 
-	if targetBlock.base == 0 {
+	if targetNumDirents == 0 {
 		// The target block was not found.
 		return Dirent{}, fs.ErrNotExist
 	}
-- 
2.43.0


From 92bfe675579e4d8957c5353dfa101912633669e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 54/55] fix: erofs: report a missing inode as an unexpected end
 of the image

---
 erofs/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/erofs/reader.go b/erofs/reader.go
index 7431936..a850a94 100644
--- a/erofs/reader.go
+++ b/erofs/reader.go
@@ -460,7 +460,7 @@ func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 	buf := make([]byte, n)
 	// A full read that ends at the end of the image may come with an io.EOF.
 	if m, err := i.src.ReadAt(buf, off); m != len(buf) || (err != nil && !errors.Is(err, io.EOF)) {
-		if err == nil {
+		if err == nil || err == io.EOF {
 			err = io.ErrUnexpectedEOF
 		}
 		return nil, err
@@ -471,6 +471,10 @@ func (i *Image) bytesAt(off, n int64) ([]byte, error) {
 func (i *Image) unmarshalFrom(off int64, data any) error {
 	if err := binary.Read(io.NewSectionReader(i.src, off, int64(binary.Size(data))),
 		binary.LittleEndian, data); err != nil {
+		if err == io.EOF {
+			// There is nothing at off, the image has been truncated.
+			err = io.ErrUnexpectedEOF
+		}
 		return err
 	}
 
-- 
2.43.0


From 7bb478e25fb6c2c2c3903dcf392e5a661ef0bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 55/55] fix: erofs: refuse images that are too large for 32-bit
 inode numbers and block addresses

---
 erofs/writer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/erofs/writer.go b/erofs/writer.go
index 2991842..2a31643 100644
--- a/erofs/writer.go
+++ b/erofs/writer.go
@@ -29,6 +29,9 @@ const (
 	BlockSizeBits     = 12
 	InodeSlotSize     = 1 << InodeSlotBits
 	MaxInlineDataSize = BlockSize / 4
+
+	// The block addresses of an image are limited to 32 bits.
+	maxImageSize = math.MaxUint32 * BlockSize
 )
 
 // Create creates an EROFS filesystem image from the source filesystem and writes
@@ -113,6 +116,10 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 		}
 		_ = data.Close()
 
+		if size < 0 || size > maxImageSize {
+			return metaSize, dataSize, fmt.Errorf("invalid size of data for %q: %d", path, size)
+		}
+
 		// Readers reject inline inodes without any inline data.
 		inlined := size > 0 && size <= MaxInlineDataSize
 		if inlined {
@@ -167,6 +174,11 @@ func (w *writer) firstPass() (metaSize, dataSize int64, err error) {
 			dataSize += size
 			dataSize = roundUp(dataSize, BlockSize)
 		}
+
+		// The superblock, and the padding of the metadata take up space too.
+		if metaSize+dataSize > maxImageSize-2*BlockSize {
+			return metaSize, dataSize, errors.New("image is too large")
+		}
 	}
 
 	metaSize = roundUp(metaSize, BlockSize)
@@ -572,8 +584,12 @@ func offsetToNID(metaOffset int64) (uint32, error) {
 		return 0, fmt.Errorf("offset %d is not properly aligned", metaOffset)
 	}
 
-	nid := uint32(metaOffset >> InodeSlotBits)
-	return nid, nil
+	nid := metaOffset >> InodeSlotBits
+	if nid > math.MaxUint32 {
+		return 0, fmt.Errorf("offset %d is too large", metaOffset)
+	}
+
+	return uint32(nid), nil
 }
 
 func isInlined(ino any) bool {
-- 
2.43.0

