From a3fd35a34bc1f4a4e0944ab0e648f1d069f6d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:46 +0000
Subject: [PATCH 01/53] fix: squash: bound the number of symlinks followed in a
 lookup

A symlink whose resolution goes through itself ("a -> a/b") or through another symlink that goes
back through it made the lookup recurse until the stack overflowed, and a family of symlinks that
each go twice through the previous one made it take exponential time.
---
 pkg/squash/vfs.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 2a0c1a5..8ee2dfd 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -17,6 +17,9 @@ var (
 	ErrNotDir = syscall.ENOTDIR
 )
 
+// maxHops is how many symlinks may be followed in the course of a single lookup.
+const maxHops = 255
+
 type fsfile struct {
 	name     string // io/fs fullname
 	parent   *fsfile
@@ -28,6 +31,11 @@ type fsfile struct {
 }
 
 func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
+	return fsGetHops(dir, pathname, create, followLinks, new(int))
+}
+
+// fsGetHops is fsGet, counting in `*hops` the symlinks followed so far by the whole lookup.
+func fsGetHops(dir *fsfile, pathname string, create, followLinks bool, hops *int) (*fsfile, error) {
 	pathname = path.Clean(pathname)
 
 	done := 0 // index of the next byte in pathname to look at
@@ -47,13 +55,13 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 			break
 		}
 		var err error
-		dir, err = dir.Get(pathname[done:done+slash], create, false)
+		dir, err = dir.getHops(pathname[done:done+slash], create, false, hops)
 		done += slash + 1
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.Get(pathname[done:], create, followLinks)
+	ret, err := dir.getHops(pathname[done:], create, followLinks, hops)
 	if err != nil {
 		return nil, err
 	}
@@ -61,6 +69,10 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 }
 
 func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
+	return f.getHops(child, create, followLinks, new(int))
+}
+
+func (f *fsfile) getHops(child string, create, followLinks bool, hops *int) (*fsfile, error) {
 	var ret *fsfile
 
 	switch child {
@@ -70,7 +82,14 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			newF, err := fsGet(f.parent, f.header.Linkname, create, true)
+			if *hops++; *hops > maxHops {
+				return nil, &fs.PathError{
+					Op:   "vfs.readlink(dir)",
+					Path: "/" + f.name,
+					Err:  ErrLoop,
+				}
+			}
+			newF, err := fsGetHops(f.parent, f.header.Linkname, create, true, hops)
 			if err != nil {
 				return nil, &fs.PathError{
 					Op:   "vfs.readlink(dir)",
@@ -119,7 +138,8 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 	// Resolve symlinks
 	stack := make(map[*fsfile]struct{})
 	for followLinks && ret != nil && ret.header != nil && ret.header.Typeflag == tar.TypeSymlink {
-		if _, loop := stack[ret]; loop {
+		*hops++
+		if _, loop := stack[ret]; loop || *hops > maxHops {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
 				Path: "/" + ret.name,
@@ -127,7 +147,7 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 			}
 		}
 		stack[ret] = struct{}{}
-		target, err := fsGet(ret.parent, ret.header.Linkname, create, false)
+		target, err := fsGetHops(ret.parent, ret.header.Linkname, create, false, hops)
 		if err != nil {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
-- 
2.43.0


From fa2906e0008a430108c2a7225b49ebc32ecc2075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:49 +0000
Subject: [PATCH 02/53] fix: squash: don't drop a whiteout when the directory
 is re-created

Given ".wh.dir" followed by a "dir/" entry (in the same or a later layer), the marker was
discarded without anything to keep the lower layers' contents of dir hidden.
---
 pkg/squash/vfs.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 8ee2dfd..2a703b1 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -179,6 +179,10 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 	}
 
 	wasFile := f.header != nil && f.header.Typeflag != tar.TypeDir
+	wasHidden := false
+	if f.parent != nil {
+		_, wasHidden = f.parent.children[".wh."+path.Base(f.name)]
+	}
 
 	f.header = hdr
 	f.body = body
@@ -203,6 +207,22 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 		}, nil); err != nil {
 			return err
 		}
+	} else if wasHidden {
+		// The ".wh." marker for this directory is about to be discarded (see below), and a
+		// directory entry on its own is merged with a directory from a lower layer, so keep
+		// the lower layers' contents hidden by making the directory opaque.  Don't use
+		// .Set() for this, things already in the directory are newer than the marker.
+		if f.children == nil {
+			f.children = make(map[string]*fsfile)
+		}
+		f.children[".wh..wh..opq"] = &fsfile{ //nolint:exhaustivestruct
+			name:   path.Join(f.name, ".wh..wh..opq"),
+			parent: f,
+			header: &tar.Header{ //nolint:exhaustivestruct
+				Typeflag: tar.TypeReg,
+				Mode:     0o644,
+			},
+		}
 	}
 	if f.parent != nil {
 		if basename := path.Base(f.name); strings.HasPrefix(basename, ".wh.") {
-- 
2.43.0


From d19e5815b2c2008ca724328c443ecdb4b6035060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:50 +0000
Subject: [PATCH 03/53] fix: squash: allow names that get too long for USTAR by
 symlink resolution

---
 pkg/squash/vfs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 2a703b1..fe725fe 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -251,6 +251,11 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 		}
 		hdr := *f.header // shallow copy
 		hdr.Name = name
+		if hdr.Format == tar.FormatUSTAR {
+			// The name might have become too long for USTAR (because of symlinks having
+			// been resolved), so let the writer choose (it'll still choose USTAR if it can).
+			hdr.Format = tar.FormatUnknown
+		}
 		if err := tarWriter.WriteHeader(&hdr); err != nil {
 			return err
 		}
-- 
2.43.0


From f4386381af126da21d6377279cc6c46b9d0cf713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:55 +0000
Subject: [PATCH 04/53] fix: squash: list directories that contain broken
 symlinks

---
 pkg/squash/vfs_fs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 7dd2b05..f324c32 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -187,7 +187,9 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 
 			tgt, err := lnk.Get(".", false, true) // follow symlinks
 			if err != nil {
-				return nil, err
+				// A broken symlink; that's a problem for whoever follows it, not for
+				// listing the directory that it is in.
+				tgt = lnk
 			}
 			var tgtDirEnt fs.DirEntry
 			if tgt.header != nil {
-- 
2.43.0


From 7cb649091e4bcf4803839ce0c6eb15b0ca9ad83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:55 +0000
Subject: [PATCH 05/53] fix: squash: don't let whiteout markers be opened as
 files

---
 pkg/squash/vfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index fe725fe..0309662 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -133,6 +133,10 @@ func (f *fsfile) getHops(child string, create, followLinks bool, hops *int) (*fs
 			}
 		}
 		ret = f.children[child]
+		if !create && strings.HasPrefix(child, ".wh.") {
+			// Whiteout markers are not files.
+			ret = nil
+		}
 	}
 
 	// Resolve symlinks
-- 
2.43.0


From 6e1d568f735e70e9aaaa34631cbcc8c4752072d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:30 +0000
Subject: [PATCH 06/53] fix: squash: keep hard links pointing at the file
 rather than at the name

A hard link was carried over as a reference by name, so the squashed layer had it in front of the file
it refers to if it sorts first, had it refer to a file that is gone or to other content if a later layer
removes or replaces the target, and it read as an empty file when loaded as a file system.
---
 pkg/squash/vfs.go    | 34 +++++++++++++++++++++++++++++++---
 pkg/squash/vfs_fs.go |  6 ++++--
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 0309662..933679e 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -25,7 +25,8 @@ type fsfile struct {
 	parent   *fsfile
 	children map[string]*fsfile
 
-	// if header is nil, that implies that this is a directory
+	// If header is nil, that implies that this is a directory.  Files that are hard links to
+	// each other share the same header pointer (and body), so header.Name is not reliable.
 	header *tar.Header
 	body   []byte
 }
@@ -180,6 +181,19 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 	if hdr != nil {
 		_hdr := *hdr
 		hdr = &_hdr
+		if hdr.Typeflag == tar.TypeLink {
+			// Refer to the file itself rather than to its current name, since the thing with
+			// that name may change later.  If it isn't in the layers, then leave it be.
+			root := f
+			for root.parent != root {
+				root = root.parent
+			}
+			tgt, err := fsGet(root, hdr.Linkname, false, false)
+			if err == nil && tgt != f && tgt.header != nil && tgt.header.Typeflag != tar.TypeDir {
+				hdr = tgt.header
+				body = tgt.body
+			}
+		}
 	}
 
 	wasFile := f.header != nil && f.header.Typeflag != tar.TypeDir
@@ -247,6 +261,11 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 }
 
 func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
+	return f.writeTo(tarWriter, make(map[*tar.Header]string))
+}
+
+// writeTo is WriteTo, tracking in `written` the names of the files that have been written so far.
+func (f *fsfile) writeTo(tarWriter *tar.Writer, written map[*tar.Header]string) error {
 	name := f.name
 
 	if f.header != nil {
@@ -255,6 +274,15 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 		}
 		hdr := *f.header // shallow copy
 		hdr.Name = name
+		body := f.body
+		if linkname, ok := written[f.header]; ok {
+			hdr.Typeflag = tar.TypeLink
+			hdr.Linkname = linkname
+			hdr.Size = 0
+			body = nil
+		} else {
+			written[f.header] = name
+		}
 		if hdr.Format == tar.FormatUSTAR {
 			// The name might have become too long for USTAR (because of symlinks having
 			// been resolved), so let the writer choose (it'll still choose USTAR if it can).
@@ -263,7 +291,7 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 		if err := tarWriter.WriteHeader(&hdr); err != nil {
 			return err
 		}
-		if _, err := tarWriter.Write(f.body); err != nil {
+		if _, err := tarWriter.Write(body); err != nil {
 			return err
 		}
 	}
@@ -288,7 +316,7 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 
 	for _, childName := range childNames {
 		child := f.children[childName]
-		if err := child.WriteTo(tarWriter); err != nil {
+		if err := child.writeTo(tarWriter, written); err != nil {
 			return err
 		}
 	}
diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index f324c32..5823b1a 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -79,7 +79,7 @@ func (f *fsfileReader) Stat() (fs.FileInfo, error) {
 		}
 	}
 	hdr := *f.tgt.header // shallow copy
-	hdr.Name = f.lnk.header.Name
+	hdr.Name = f.lnk.name
 	return hdr.FileInfo(), nil
 }
 
@@ -180,7 +180,9 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 
 			var lnkDirEnt fs.DirEntry
 			if lnk.header != nil {
-				lnkDirEnt = fs.FileInfoToDirEntry(lnk.header.FileInfo())
+				hdr := *lnk.header // shallow copy
+				hdr.Name = lnk.name
+				lnkDirEnt = fs.FileInfoToDirEntry(hdr.FileInfo())
 			} else {
 				lnkDirEnt = missingDirEntry(childname)
 			}
-- 
2.43.0


From 8dd5d6a2d3078587b7ae22a946a274a3787be339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:46 +0000
Subject: [PATCH 07/53] fix: squash: resolve symlinks to "/" itself

---
 pkg/squash/vfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 933679e..67b54f9 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -79,7 +79,7 @@ func (f *fsfile) getHops(child string, create, followLinks bool, hops *int) (*fs
 	switch child {
 	case "..":
 		ret = f.parent
-	case ".":
+	case ".", "": // "" is what is left of the root directory "/"
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-- 
2.43.0


From 204aefd9fb4cfd2a97ad1d8c26967656bbbea52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:17 +0000
Subject: [PATCH 08/53] fix: pep440: don't drop the first character of "<V" and
 ">V" versions

---
 pkg/python/pep440/02_version_specifiers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index a8da602..abc84ae 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -172,10 +172,10 @@ func parseSpecifierClause(str string) (SpecifierClause, error) {
 		str = str[2:]
 	case strings.HasPrefix(str, "<"):
 		ret.CmpOp = CmpOpLT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, ">"):
 		ret.CmpOp = CmpOpGT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, "==="):
 		return ret, fmt.Errorf("specifiers with === are not supported; versions must be PEP 440 compliant")
 	default:
-- 
2.43.0


From b5cb3fd1869f3ca870b5de3c39df010212f02fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:17 +0000
Subject: [PATCH 09/53] fix: pep440: keep the ".*" when printing a specifier

---
 pkg/python/pep440/02_version_specifiers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index abc84ae..aa2a491 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -214,7 +214,11 @@ func (spec SpecifierClause) String() string {
 	if !ok {
 		panic(fmt.Errorf("invalid CmpOp: %d", spec.CmpOp))
 	}
-	return opStr + spec.Version.String()
+	ret := opStr + spec.Version.String()
+	if spec.CmpOp == CmpOpPrefixMatch || spec.CmpOp == CmpOpPrefixExclude {
+		ret += ".*"
+	}
+	return ret
 }
 
 func (spec SpecifierClause) Match(ver Version) bool {
-- 
2.43.0


From 35b7a43d41cb27781007e934d9a9000d3291cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:17 +0000
Subject: [PATCH 10/53] fix: pep440: ignore local labels in "<=V" and ">V", and
 post-releases in ">V"

Local version labels of candidates must be ignored by every ordered
comparison, and ">V" must not allow post-releases of V.
---
 pkg/python/pep440/02_version_specifiers.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index aa2a491..8728cbf 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -481,7 +481,7 @@ func matchPrefixExclude(spec, ver Version) bool {
 //
 // Local version identifiers are NOT permitted in this version specifier.
 func matchLE(spec, ver Version) bool {
-	return spec.Cmp(ver) >= 0
+	return spec.PublicVersion.Cmp(ver.PublicVersion) >= 0
 }
 
 func matchGE(spec, ver Version) bool {
@@ -523,7 +523,16 @@ func matchLT(spec, ver Version) bool {
 }
 
 func matchGT(spec, ver Version) bool {
-	return spec.Cmp(ver) < 0
+	if spec.Post == nil && spec.Dev == nil && ver.Post != nil {
+		base := ver.PublicVersion
+		base.Post = nil
+		base.Dev = nil
+		if spec.PublicVersion.Cmp(base) == 0 {
+			// ver is a post-release of spec
+			return false
+		}
+	}
+	return spec.PublicVersion.Cmp(ver.PublicVersion) < 0
 }
 
 //
-- 
2.43.0


From c54a8c98b5b3130f56c7721a42e9bbb7fcf6f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 11/53] fix: pep440: don't truncate big numbers in local
 version labels

"1.0+20211118123456" was parsed as "1.0+-1151...", because an
intstr.IntOrString only holds 32 bits.
---
 pkg/python/pep440/01_version_scheme.go | 38 +++++++++++++++++++++-----
 pkg/python/pep440/03_tail.go           |  4 +--
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/pkg/python/pep440/01_version_scheme.go b/pkg/python/pep440/01_version_scheme.go
index 4a23f24..04a9762 100644
--- a/pkg/python/pep440/01_version_scheme.go
+++ b/pkg/python/pep440/01_version_scheme.go
@@ -2,6 +2,7 @@ package pep440
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"k8s.io/apimachinery/pkg/util/intstr"
@@ -232,10 +233,15 @@ func cmpLocalSegment(a, b *intstr.IntOrString) int {
 	case a != nil && b == nil:
 		return 1
 	}
+	aNum, bNum := isNumericSegment(a), isNumericSegment(b)
 	switch {
-	case a.Type == intstr.Int && b.Type == intstr.Int:
-		return int(a.IntVal - b.IntVal)
-	case a.Type == intstr.String && b.Type == intstr.String:
+	case aNum && bNum:
+		aStr, bStr := a.String(), b.String()
+		if d := len(aStr) - len(bStr); d != 0 {
+			return d
+		}
+		return strings.Compare(aStr, bStr)
+	case !aNum && !bNum:
 		switch {
 		case a.StrVal < b.StrVal:
 			return -1
@@ -243,13 +249,31 @@ func cmpLocalSegment(a, b *intstr.IntOrString) int {
 			return 1
 		}
 		return 0
-	case a.Type == intstr.Int && b.Type == intstr.String:
+	case aNum:
 		return 1
-	case a.Type == intstr.String && b.Type == intstr.Int:
-		return -1
 	default:
-		panic("should not happen: invalid intstr.IntOrString")
+		return -1
+	}
+}
+
+// parseLocalSegment parses a segment of a local version label.  Numeric segments that are too big
+// for an intstr.IntOrString integer are kept as a string of digits without leading zeros.
+func parseLocalSegment(str string) intstr.IntOrString {
+	if n, err := strconv.ParseInt(str, 10, 32); err == nil {
+		return intstr.FromInt(int(n))
+	}
+	if isNumeric(str) {
+		str = strings.TrimLeft(str, "0")
 	}
+	return intstr.FromString(str)
+}
+
+func isNumeric(str string) bool {
+	return str != "" && strings.Trim(str, "0123456789") == ""
+}
+
+func isNumericSegment(seg *intstr.IntOrString) bool {
+	return seg.Type == intstr.Int || isNumeric(seg.StrVal)
 }
 
 func cmpLocal(a, b LocalVersion) int {
diff --git a/pkg/python/pep440/03_tail.go b/pkg/python/pep440/03_tail.go
index 7c2afd0..2b97329 100644
--- a/pkg/python/pep440/03_tail.go
+++ b/pkg/python/pep440/03_tail.go
@@ -5,8 +5,6 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
-
-	"k8s.io/apimachinery/pkg/util/intstr"
 )
 
 // Direct references
@@ -715,7 +713,7 @@ func parseVersion(str string) (*Version, error) {
 		return strings.ContainsRune("-_.", r)
 	})
 	for _, part := range localParts {
-		ver.Local = append(ver.Local, intstr.Parse(strings.ToLower(part)))
+		ver.Local = append(ver.Local, parseLocalSegment(strings.ToLower(part)))
 	}
 
 	return &ver, nil
-- 
2.43.0


From 3244415e9104424e7ce9443c38b63f8c3f5599c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 12/53] fix: bdist: reject build numbers that are out of range
 instead of changing them

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 4df8590..b0d79fe 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -534,7 +534,10 @@ func ParseFilename(filename string) (*FileNameData, error) {
 	ret.Version = *ver
 
 	if buildN := match[reFilename.SubexpIndex("build_n")]; buildN != "" {
-		n, _ := strconv.Atoi(buildN)
+		n, err := strconv.Atoi(buildN)
+		if err != nil {
+			return nil, fmt.Errorf("invalid wheel filename: %q: %w", filename, err)
+		}
 		ret.BuildTag = &BuildTag{
 			Int: n,
 			Str: match[reFilename.SubexpIndex("build_l")],
-- 
2.43.0


From c46f5db2bad59c27dd671b9ab3e3104e709d4020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 13/53] fix: python: correct the FileAttributeXXX bits

iota is already 8 at FileAttributeTemporary, so it and the ones after it
were 8 bits too far left.
---
 pkg/python/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/stat.go b/pkg/python/stat.go
index fa75b76..83dd890 100644
--- a/pkg/python/stat.go
+++ b/pkg/python/stat.go
@@ -197,7 +197,7 @@ const (
 	FileAttributeNormal    StatFileAttribute = StatFileAttribute(_DOSUnused7)
 
 	// 1<<8 through 1<<15
-	FileAttributeTemporary StatFileAttribute = 1 << (8 + iota)
+	FileAttributeTemporary StatFileAttribute = 1 << iota
 	FileAttributeSparseFile
 	FileAttributeReparsePoint
 	FileAttributeCompressed
-- 
2.43.0


From 89a53d92222f29dd5524aff39cad4e4d4f0b1b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 14/53] fix: pep440, pep592: prefer versions that are allowed
 over ones that are excluded

Both ExclusionBehavior users had Allow inverted, so that pre-releases were
preferred to final releases.
---
 pkg/python/pep440/02_version_specifiers.go | 2 +-
 pkg/python/pep592/yank.go                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 8728cbf..d8cfc1b 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -639,7 +639,7 @@ func (spec Specifier) Select(choices []Version, exclusionBehavior ExclusionBehav
 	var bestExcluded *Version
 	for _, choice := range choices {
 		if spec.Match(choice) {
-			if exclusionBehavior == nil || !exclusionBehavior.Allow(choice) {
+			if exclusionBehavior == nil || exclusionBehavior.Allow(choice) {
 				if best == nil || best.Cmp(choice) < 0 {
 					val := choice
 					best = &val
diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 98e6eab..86784c1 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -36,5 +36,5 @@ func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
 	_, yanked := e.yankedVersions[v.String()]
-	return yanked
+	return !yanked
 }
-- 
2.43.0


From 2ef0978e9196cbf768ebc062081cef4462fb4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:57 +0000
Subject: [PATCH 15/53] fix: simple_repo_api: prefer the highest build tag

---
 pkg/python/pypa/simple_repo_api/pypa_repo_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 3092c07..2871602 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -99,7 +99,7 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 	sort.Slice(links, func(i, j int) bool {
 		iInfo, _ := bdist.ParseFilename(links[i].Text)
 		jInfo, _ := bdist.ParseFilename(links[j].Text)
-		return iInfo.BuildTag.Cmp(jInfo.BuildTag) < 0
+		return iInfo.BuildTag.Cmp(jInfo.BuildTag) > 0
 	})
 	ret := links[0]
 	return &ret, nil
-- 
2.43.0


From f1ec3a7e7732b0aa79d822ae2518addd7905d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:25 +0000
Subject: [PATCH 16/53] fix: simple_repo_api, pep592: don't select a yanked
 file over an available one

A release of which only some files are yanked can still be installed from
the other files.  Also, don't treat different spellings of the same version
("1.0" and "1.0.0") as different releases, which made the selection depend
on the order in which the index lists them.
---
 pkg/python/pep592/yank.go                     | 32 ++++++++++++-------
 .../pypa/simple_repo_api/pypa_repo_api.go     | 19 +++++++++--
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 86784c1..8a6a859 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -15,26 +15,36 @@ func IsYanked(l pep503.FileLink) bool {
 }
 
 type excludeYanked struct {
-	yankedVersions map[string]struct{}
+	yankedVersions    []pep440.Version
+	availableVersions []pep440.Version
 }
 
 func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
-	ret := excludeYanked{
-		yankedVersions: make(map[string]struct{}),
-	}
+	var ret excludeYanked
 	for _, link := range links {
+		fileInfo, err := bdist.ParseFilename(link.Text)
+		if err != nil {
+			continue
+		}
 		if IsYanked(link) {
-			fileInfo, err := bdist.ParseFilename(link.Text)
-			if err != nil {
-				continue
-			}
-			ret.yankedVersions[fileInfo.Version.String()] = struct{}{}
+			ret.yankedVersions = append(ret.yankedVersions, fileInfo.Version)
+		} else {
+			ret.availableVersions = append(ret.availableVersions, fileInfo.Version)
 		}
 	}
 	return ret
 }
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
-	_, yanked := e.yankedVersions[v.String()]
-	return !yanked
+	for _, available := range e.availableVersions {
+		if available.Cmp(v) == 0 {
+			return true
+		}
+	}
+	for _, yanked := range e.yankedVersions {
+		if yanked.Cmp(v) == 0 {
+			return false
+		}
+	}
+	return true
 }
diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 2871602..c6f92e2 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -47,7 +47,6 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		return nil, err
 	}
 	// 1. Filter by version
-	version2links := make(map[string][]pep503.FileLink)
 	var whlLinks []pep503.FileLink //nolint:prealloc // 'continue' is quite likely
 	var versions []pep440.Version  //nolint:prealloc // 'continue' is quite likely
 	for _, link := range links {
@@ -58,7 +57,6 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		if !c.SupportedTags.Supports(linkInfo.CompatibilityTag) {
 			continue
 		}
-		version2links[linkInfo.Version.String()] = append(version2links[linkInfo.Version.String()], link)
 		whlLinks = append(whlLinks, link)
 		versions = append(versions, linkInfo.Version)
 	}
@@ -71,7 +69,22 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 	if selectedVersion == nil {
 		return nil, fmt.Errorf("no matches for %q %q", pkgname, version.String())
 	}
-	links = version2links[selectedVersion.String()]
+	links = nil
+	var yankedLinks []pep503.FileLink
+	for _, link := range whlLinks {
+		linkInfo, _ := bdist.ParseFilename(link.Text)
+		switch {
+		case linkInfo.Version.Cmp(*selectedVersion) != 0:
+			continue
+		case pep592.IsYanked(link):
+			yankedLinks = append(yankedLinks, link)
+		default:
+			links = append(links, link)
+		}
+	}
+	if len(links) == 0 {
+		links = yankedLinks
+	}
 	if len(links) == 1 {
 		ret := links[0]
 		return &ret, nil
-- 
2.43.0


From f832bd9778372079f6585cf06c8217c8d9e60a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 17/53] fix: pep503: don't skip the checksum when the URL
 fragment doesn't parse

"#sha256=0123...&x=%zz" or "#sha256=0123...;x" silently disabled the check.
---
 pkg/python/pep503/simple_repo_api.go | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index fba7170..527f970 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -89,21 +89,23 @@ func (c Client) get(ctx context.Context, requestURL string) (_ *url.URL, _ []byt
 		return nil, nil, &HTTPError{Status: resp.Status, StatusCode: resp.StatusCode}
 	}
 	if u, err := url.Parse(requestURL); err == nil && u.Fragment != "" {
-		if keyvals, err := url.ParseQuery(u.Fragment); err == nil {
-			for key, vals := range keyvals {
-				for _, val := range vals {
-					newHasher := python.HashlibAlgorithmsGuaranteed[key]
-					if newHasher == nil {
-						continue
-					}
-					hasher := newHasher()
-					hasher.Write(content)
-					sum := hex.EncodeToString(hasher.Sum(nil))
-					if sum != val {
-						//nolint:lll // error string
-						return nil, nil, fmt.Errorf("checksum mismatch: %s: expected=%s actual=%s",
-							key, val, sum)
-					}
+		keyvals, err := url.ParseQuery(u.Fragment)
+		if err != nil {
+			return nil, nil, fmt.Errorf("invalid URL fragment: %w", err)
+		}
+		for key, vals := range keyvals {
+			for _, val := range vals {
+				newHasher := python.HashlibAlgorithmsGuaranteed[key]
+				if newHasher == nil {
+					continue
+				}
+				hasher := newHasher()
+				hasher.Write(content)
+				sum := hex.EncodeToString(hasher.Sum(nil))
+				if sum != val {
+					//nolint:lll // error string
+					return nil, nil, fmt.Errorf("checksum mismatch: %s: expected=%s actual=%s",
+						key, val, sum)
 				}
 			}
 		}
-- 
2.43.0


From 4761f12ed82bfaac51f2fb1f731ebf70ec658f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 18/53] fix: pep503: get the signature rather than the file
 from GetSignature

---
 pkg/python/pep503/simple_repo_api.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index 527f970..0cc9abe 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -290,14 +290,28 @@ func (l FileLink) Get(ctx context.Context) ([]byte, error) {
 var ErrNoSignature = errors.New("no signature")
 
 func (l FileLink) GetSignature(ctx context.Context) ([]byte, error) {
+	// "If there is a GPG signature for a particular distribution file it MUST live alongside
+	// that file with the same name with a .asc appended to it."
+	u, err := url.Parse(l.HRef)
+	if err != nil {
+		return nil, err
+	}
+	u.Path += ".asc"
+	if u.RawPath != "" {
+		u.RawPath += ".asc"
+	}
+	u.Fragment = ""
+	u.RawFragment = ""
+	sigURL := u.String()
+
 	switch l.DataAttrs["data-gpg-sig"] {
 	case "false":
 		return nil, ErrNoSignature
 	case "true":
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL)
 		return content, err
 	default:
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL)
 		var httpErr *HTTPError
 		if err != nil && errors.As(err, &httpErr) && httpErr.StatusCode == http.StatusNotFound {
 			err = ErrNoSignature
-- 
2.43.0


From 2605fc9b93c4f7e26808c74091e3753d790e03a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:58 +0000
Subject: [PATCH 19/53] fix: python: keep the serial of pre-releases in
 VersionInfo.PEP440

---
 pkg/python/platform.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/python/platform.go b/pkg/python/platform.go
index ffb6860..32f31d2 100644
--- a/pkg/python/platform.go
+++ b/pkg/python/platform.go
@@ -43,11 +43,11 @@ func (vi VersionInfo) PEP440() (*pep440.Version, error) {
 	}
 	switch vi.ReleaseLevel {
 	case "alpha":
-		ret.Pre = &pep440.PreRelease{L: "a", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "a", N: vi.Serial}
 	case "beta":
-		ret.Pre = &pep440.PreRelease{L: "b", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "b", N: vi.Serial}
 	case "candidate":
-		ret.Pre = &pep440.PreRelease{L: "rc", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "rc", N: vi.Serial}
 	case "final":
 		ret.Pre = nil
 	default:
-- 
2.43.0


From 3bba42b044b203cd770262dc266501802b80d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:45 +0000
Subject: [PATCH 20/53] fix: pep440: avoid an overflow when comparing the
 biggest post-release number

---
 pkg/python/pep440/01_version_scheme.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/python/pep440/01_version_scheme.go b/pkg/python/pep440/01_version_scheme.go
index 04a9762..6a67f06 100644
--- a/pkg/python/pep440/01_version_scheme.go
+++ b/pkg/python/pep440/01_version_scheme.go
@@ -532,15 +532,16 @@ func cmpPreRelease(a, b PublicVersion) int {
 //    pre-release by incrementing the numeric component.
 
 func cmpPostRelease(a, b PublicVersion) int {
-	aPost := -1
-	if a.Post != nil {
-		aPost = *a.Post
-	}
-	bPost := -1
-	if b.Post != nil {
-		bPost = *b.Post
+	switch {
+	case a.Post == nil && b.Post == nil:
+		return 0
+	case a.Post == nil && b.Post != nil:
+		return -1
+	case a.Post != nil && b.Post == nil:
+		return 1
+	default:
+		return (*a.Post) - (*b.Post)
 	}
-	return aPost - bPost
 }
 
 //
-- 
2.43.0


From d7e3020bbe66b54362cf563bbefc4fc88e7fd932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:02 +0000
Subject: [PATCH 21/53] fix: python: correct FileAttributeRecallOnDataAccess
 (0x400000)

---
 pkg/python/stat.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/python/stat.go b/pkg/python/stat.go
index 83dd890..66a2841 100644
--- a/pkg/python/stat.go
+++ b/pkg/python/stat.go
@@ -211,6 +211,8 @@ const (
 	FileAttributeNoScrubData
 	FileAttributeRecallOnOpen // not in Python 3.9.1 stat.py
 	_FileattributeUnused19
+	_FileattributeUnused20
+	_FileattributeUnused21
 	FileAttributeRecallOnDataAccess // not in Python 3.9.1 stat.py
 )
 
-- 
2.43.0


From 74de0ec6d875316dad0ebd866955ff9af2ddb4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:55 +0000
Subject: [PATCH 22/53] fix: dir: apply the requested ownership before writing
 the header

---
 pkg/dir/dir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index a482fee..01cc923 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -122,9 +122,6 @@ func LayerFromDir(
 		if header.ChangeTime.After(clampTime) {
 			header.ChangeTime = clampTime
 		}
-		if err := tarWriter.WriteHeader(header); err != nil {
-			return err
-		}
 		if chown != nil {
 			if chown.UID >= 0 {
 				header.Uid = chown.UID
@@ -139,6 +136,9 @@ func LayerFromDir(
 				header.Gname = chown.GName
 			}
 		}
+		if err := tarWriter.WriteHeader(header); err != nil {
+			return err
+		}
 		if header.Typeflag == tar.TypeReg {
 			reader, err := os.Open(filename)
 			if err != nil {
-- 
2.43.0


From b37e86ae71a6a020b67b7947ee58a8b6d54b5722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:56 +0000
Subject: [PATCH 23/53] fix: dir: don't hang on absolute prefixes, nor repeat a
 directory

---
 pkg/dir/dir.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 01cc923..ae48875 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -4,6 +4,7 @@ package dir
 import (
 	"archive/tar"
 	"bytes"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
@@ -52,8 +53,12 @@ func LayerFromDir(
 		if prefix.Mode == 0 {
 			prefix.Mode = 0o755
 		}
+		prefixDir := path.Clean(prefix.DirName)
+		if !fs.ValidPath(prefixDir) {
+			return nil, fmt.Errorf("invalid prefix: %q", prefix.DirName)
+		}
 		var dirs []string
-		for dir := prefix.DirName; dir != "."; dir = path.Dir(dir) {
+		for dir := prefixDir; dir != "."; dir = path.Dir(dir) {
 			dirs = append(dirs, dir)
 		}
 		for i := len(dirs) - 1; i >= 0; i-- {
-- 
2.43.0


From b97f138c1e1e54d003a0d299f99d94e97e94d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:56 +0000
Subject: [PATCH 24/53] fix: dir: don't silently give an empty layer for
 something that isn't a directory

---
 pkg/dir/dir.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index ae48875..5d879fc 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"syscall"
 	"time"
 
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
@@ -49,6 +50,17 @@ func LayerFromDir(
 
 	var log []logEntry
 
+	// filepath.Walk does not follow dirname itself if it is a symlink.
+	dirname, err := filepath.EvalSymlinks(dirname)
+	if err != nil {
+		return nil, err
+	}
+	if info, err := os.Stat(dirname); err != nil {
+		return nil, err
+	} else if !info.IsDir() {
+		return nil, &fs.PathError{Op: "read directory", Path: dirname, Err: syscall.ENOTDIR}
+	}
+
 	if prefix != nil {
 		if prefix.Mode == 0 {
 			prefix.Mode = 0o755
@@ -78,7 +90,7 @@ func LayerFromDir(
 		}
 	}
 
-	err := filepath.Walk(dirname, func(filename string, info fs.FileInfo, e error) error {
+	err = filepath.Walk(dirname, func(filename string, info fs.FileInfo, e error) error {
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From aa4d0029f37a2a4919232ced126136af850911b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:56 +0000
Subject: [PATCH 25/53] fix: fsutil: ignore all timestamps in
 LayersEqualExceptTimestamps

---
 pkg/fsutil/diff.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index a58e213..ad996eb 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -35,10 +35,25 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 	return true, nil
 }
 
+func withoutTimestamps(records map[string]string) map[string]string {
+	ret := make(map[string]string, len(records))
+	for key, val := range records {
+		switch key {
+		case "mtime", "atime", "ctime":
+		default:
+			ret[key] = val
+		}
+	}
+	return ret
+}
+
 func headersEqualExceptTimestamps(a, b tar.Header) bool {
 	b.ModTime = a.ModTime
 	b.AccessTime = a.AccessTime
-	b.ModTime = a.ModTime
+	b.ChangeTime = a.ChangeTime
+	a.PAXRecords = withoutTimestamps(a.PAXRecords)
+	b.PAXRecords = withoutTimestamps(b.PAXRecords)
+	b.Format = a.Format // depends on how precise the timestamps are
 
 	return reflect.DeepEqual(a, b)
 }
-- 
2.43.0


From 00edf23f1634778b8edf950a40bc0e0d72d0ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:10 +0000
Subject: [PATCH 26/53] fix: layer gobuild: replace the output file only with a
 complete layer

---
 cmd_layer_gobuild.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/cmd_layer_gobuild.go b/cmd_layer_gobuild.go
index 62bb008..ce77863 100644
--- a/cmd_layer_gobuild.go
+++ b/cmd_layer_gobuild.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"errors"
+	"fmt"
 	"io"
 	"os"
 
@@ -60,15 +61,22 @@ func init() {
 				}
 
 				// Open the file for writing.
-				if err := os.Remove(outputFilename); err != nil && !errors.Is(err, os.ErrNotExist) {
-					return err
-				}
-				outputFile, err := os.OpenFile(outputFilename, os.O_CREATE|os.O_WRONLY, 0o666)
-				if err != nil {
-					return err
+				//
+				// Write to a temporary file, so that the old file is only ever replaced by
+				// a complete layer.
+				tmpFilename := fmt.Sprintf("%s.%d.tmp", outputFilename, os.Getpid())
+				outputFile, _err := os.OpenFile(tmpFilename, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o666)
+				if _err != nil {
+					return _err
 				}
 				defer func() {
 					maybeSetErr(outputFile.Close())
+					if err == nil {
+						maybeSetErr(os.Rename(tmpFilename, outputFilename))
+					}
+					if err != nil {
+						_ = os.Remove(tmpFilename)
+					}
 				}()
 				outputWriter = outputFile
 			}
-- 
2.43.0


From d92214df3ba0b9ca2f9ef9f842ea4ebff1e1fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:36 +0000
Subject: [PATCH 27/53] fix: dockerutil: remove the image even if the context
 got canceled

---
 pkg/dockerutil/docker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dockerutil/docker.go b/pkg/dockerutil/docker.go
index 061bb3d..61b2b15 100644
--- a/pkg/dockerutil/docker.go
+++ b/pkg/dockerutil/docker.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"time"
 
+	"github.com/datawire/dlib/dcontext"
 	"github.com/datawire/dlib/dexec"
 	"github.com/google/go-containerregistry/pkg/name"
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
@@ -34,6 +35,8 @@ func WithImage(
 		return err
 	}
 	defer func() {
+		// Even if ctx got canceled, don't leave the image behind.
+		ctx := dcontext.WithoutCancel(ctx)
 		maybeSetErr(dexec.CommandContext(ctx, "docker", "image", "rm", tag.String()).Run())
 	}()
 	cmd := dexec.CommandContext(ctx, "docker", "image", "load")
-- 
2.43.0


From 3f8cdff7b0c9733da9160a5df1030adef018b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:36 +0000
Subject: [PATCH 28/53] fix: image build: don't crash if the base image's
 config is invalid

---
 cmd_image_build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd_image_build.go b/cmd_image_build.go
index 4735172..686072b 100644
--- a/cmd_image_build.go
+++ b/cmd_image_build.go
@@ -159,7 +159,10 @@ func init() {
 			}
 
 			if !flags.config.IsZero() {
-				configFile, _ := img.ConfigFile()
+				configFile, err := img.ConfigFile()
+				if err != nil {
+					return err
+				}
 
 				flags.config.ApplyTo(&configFile.Config)
 
-- 
2.43.0


From 0e872d812fd6c7268d9c5c357b4af5c9ced8a79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:36 +0000
Subject: [PATCH 29/53] fix: layer wheel: report a missing --platform-file as a
 usage error

---
 cmd_layer_wheel.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd_layer_wheel.go b/cmd_layer_wheel.go
index 0d0dfaf..3aa876d 100644
--- a/cmd_layer_wheel.go
+++ b/cmd_layer_wheel.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"errors"
 	"fmt"
 	"os"
 	"time"
@@ -60,6 +61,13 @@ func init() {
 			"\n" +
 			"LIMITATION: While checksums are verified, signatures are not.",
 		Args: cliutil.WrapPositionalArgs(cobra.ExactArgs(1)),
+		PreRunE: func(flags *cobra.Command, _ []string) error {
+			// Cobra would report this as if it were an execution error.
+			if !flags.Flags().Changed("platform-file") {
+				return cliutil.FlagErrorFunc(flags, errors.New(`required flag "--platform-file" not set`))
+			}
+			return nil
+		},
 		RunE: func(flags *cobra.Command, args []string) error {
 			yamlBytes, err := os.ReadFile(platFile)
 			if err != nil {
-- 
2.43.0


From 411fe337fb81815d78ca7f0baf71d6a30f8c1111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:35 +0000
Subject: [PATCH 30/53] fix: pyinspect: allow uncleaned absolute paths in an
 image

---
 pkg/python/pyinspect/fs_image.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/fs_image.go b/pkg/python/pyinspect/fs_image.go
index d22343c..3c5a21b 100644
--- a/pkg/python/pyinspect/fs_image.go
+++ b/pkg/python/pyinspect/fs_image.go
@@ -100,7 +100,11 @@ func (sys *ImageFS) Stat(name string) (FileInfo, error) {
 	if err := sys.ensureInitialized(); err != nil {
 		return nil, err
 	}
-	fileinfo, err := fs.Stat(sys.imgFS, name[1:])
+	fsname := strings.TrimPrefix(path.Clean(name), "/")
+	if fsname == "" {
+		fsname = "."
+	}
+	fileinfo, err := fs.Stat(sys.imgFS, fsname)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c8a842ed523ae4dac065fbbb642841da3b544d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 31/53] fix: bdist: don't skip the checksum of files that have
 the directory attribute

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index b0d79fe..cc206b3 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -821,7 +821,8 @@ func (wh *wheel) integrityCheck() error {
 
 	todo := make(map[string]struct{})
 	for _, file := range wh.zip.File {
-		if file.FileInfo().IsDir() {
+		// Use the same definition of "directory" as when creating the file.
+		if strings.HasSuffix(file.Name, "/") {
 			continue
 		}
 		name := path.Clean(file.Name)
-- 
2.43.0


From 31be4f26573e264d8dad536cf89f75144c8b5c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 32/53] fix: bdist: reject wheels that contain a file more than
 once

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index cc206b3..2f64e64 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -820,9 +820,17 @@ func (wh *wheel) integrityCheck() error {
 	}
 
 	todo := make(map[string]struct{})
+	seen := make(map[string]bool) // map[name]isDir
 	for _, file := range wh.zip.File {
+		// If a file is there more than once, then the one that gets verified isn't the one that
+		// gets installed.
+		isDir := strings.HasSuffix(file.Name, "/")
+		if wasDir, dup := seen[path.Clean(file.Name)]; dup && !(isDir && wasDir) {
+			return fmt.Errorf("duplicate file: %q", file.Name)
+		}
+		seen[path.Clean(file.Name)] = isDir
 		// Use the same definition of "directory" as when creating the file.
-		if strings.HasSuffix(file.Name, "/") {
+		if isDir {
 			continue
 		}
 		name := path.Clean(file.Name)
-- 
2.43.0


From ec2cb9c07489053280c2217d234d12804ae7fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 33/53] fix: bdist: reject wheels that contain files outside of
 the wheel

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 2f64e64..37f610d 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -822,6 +822,9 @@ func (wh *wheel) integrityCheck() error {
 	todo := make(map[string]struct{})
 	seen := make(map[string]bool) // map[name]isDir
 	for _, file := range wh.zip.File {
+		if name := path.Clean(file.Name); name == ".." || strings.HasPrefix(name, "../") {
+			return fmt.Errorf("file is outside of the wheel: %q", file.Name)
+		}
 		// If a file is there more than once, then the one that gets verified isn't the one that
 		// gets installed.
 		isDir := strings.HasSuffix(file.Name, "/")
-- 
2.43.0


From 6728d8e5c66ff516ba268aa2700bb741cc4f779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 34/53] fix: bdist, entry_points: allow uncleaned paths in the
 scheme

---
 pkg/python/pypa/bdist/misc.go                | 2 +-
 pkg/python/pypa/entry_points/entry_points.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pypa/bdist/misc.go b/pkg/python/pypa/bdist/misc.go
index c50a4d7..6d36594 100644
--- a/pkg/python/pypa/bdist/misc.go
+++ b/pkg/python/pypa/bdist/misc.go
@@ -27,7 +27,7 @@ func sanitizePlatformForLayer(plat python.Platform) (python.Platform, error) {
 		&plat.Scheme.Data,
 	}
 	for _, pathPtr := range paths {
-		clean := strings.TrimPrefix(filepath.ToSlash(*pathPtr), "/")
+		clean := strings.TrimPrefix(path.Clean(filepath.ToSlash(*pathPtr)), "/")
 		*pathPtr = clean
 	}
 
diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index ee915cd..0c5c13f 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"fmt"
 	"path"
+	"path/filepath"
 	"regexp"
 	"strings"
 	"text/template"
@@ -102,7 +103,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				}
 				header := &tar.Header{
 					Typeflag: tar.TypeReg,
-					Name:     path.Join(plat.Scheme.Scripts[1:], key),
+					Name:     path.Join(path.Clean(filepath.ToSlash(plat.Scheme.Scripts))[1:], key),
 					Mode:     0o755,
 					Size:     int64(buf.Len()),
 					ModTime:  clampTime,
-- 
2.43.0


From 4d399df18461017ba7cb54249cead6a46416bfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 35/53] fix: entry_points: don't let a script name escape the
 scripts directory

---
 pkg/python/pypa/entry_points/entry_points.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 0c5c13f..9420e17 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -81,6 +81,10 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				continue
 			}
 			for key, val := range sectionData {
+				if key == "" || key == "." || key == ".." || strings.Contains(key, "/") {
+					return fmt.Errorf("entry_points.txt: %q: not a valid script name: %q",
+						sectionName, key)
+				}
 				m := reFuncRef.FindStringSubmatch(val)
 				if m == nil {
 					return fmt.Errorf("entry_points.txt: %q: %q: not a function reference: %q",
-- 
2.43.0


From 33ccbdbdc000ffcb850603dfd7f25b627611ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 36/53] fix: entry_points: import the right name for dotted
 callables

---
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 9420e17..5c4e29d 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -28,7 +28,7 @@ var (
 # -*- coding: utf-8 -*-
 import re
 import sys
-from {{ .Module }} import {{ .Func }}
+from {{ .Module }} import {{ .ImportName }}
 if __name__ == '__main__':
     sys.argv[0] = re.sub(r'(-script\.pyw|\.exe)?$', '', sys.argv[0])
     sys.exit({{ .Func }}())
-- 
2.43.0


From 55e33c873be016168217709f4bb31aea3e62ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 37/53] fix: entry_points: be deterministic if a name is both a
 console and a gui script

---
 pkg/python/pypa/entry_points/entry_points.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 5c4e29d..c1cc519 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -70,12 +70,13 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 			return err
 		}
 
-		interesting := map[string]string{
-			"console_scripts": plat.ConsoleShebang,
-			"gui_scripts":     plat.GraphicalShebang,
+		interesting := []struct{ sectionName, shebang string }{
+			{"console_scripts", plat.ConsoleShebang},
+			{"gui_scripts", plat.GraphicalShebang},
 		}
 
-		for sectionName, shebang := range interesting {
+		for _, section := range interesting {
+			sectionName, shebang := section.sectionName, section.shebang
 			sectionData, ok := configData[sectionName]
 			if !ok {
 				continue
-- 
2.43.0


From 69702ba5de75b8e900836c51ec2f18930a2cc979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 38/53] fix: bdist: don't let files of a wheel silently replace
 each other

---
 .../pypa/bdist/binary_distribution_format.go  | 24 +++++++++++++++----
 pkg/python/pypa/bdist/ioutil.go               |  8 +++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 37f610d..0b51e20 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -287,10 +287,20 @@ func (wh *wheel) installToVFS(
 	}
 	vfsTypes := make(map[string]string)
 	dataDir := path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data")
-	for fullName := range vfs {
-		if !strings.HasPrefix(fullName, dataDir+"/") {
-			continue
+	// Take everything out before putting anything back in, and do so in order, so that the result
+	// is deterministic.
+	dataVFS := make(map[string]fsutil.FileReference)
+	var dataNames []string
+	for fullName, file := range vfs {
+		if strings.HasPrefix(fullName, dataDir+"/") {
+			dataVFS[fullName] = file
+			dataNames = append(dataNames, fullName)
+			delete(vfs, fullName)
 		}
+	}
+	sort.Strings(dataNames)
+	for _, fullName := range dataNames {
+		isDir := dataVFS[fullName].IsDir()
 		relName := strings.TrimPrefix(fullName, dataDir+"/")
 		parts := strings.SplitN(relName, "/", 2)
 		key := parts[0]
@@ -316,8 +326,14 @@ func (wh *wheel) installToVFS(
 				key, path.Join(strings.TrimSuffix(distInfoDir, ".dist-info")+".data", relName))
 		}
 		newFullName := path.Join(dstDataDir, rest)
+		if rest == "" && !isDir {
+			return nil, "", fmt.Errorf("wheel data type %q is not a directory", key)
+		}
+		if other, exists := vfs[newFullName]; exists && !(isDir && other.IsDir()) {
+			return nil, "", fmt.Errorf("spread: multiple files for %q", newFullName)
+		}
 		vfsTypes[newFullName] = key
-		if err := rename(vfs, fullName, newFullName); err != nil {
+		if err := rename(dataVFS, vfs, fullName, newFullName); err != nil {
 			return nil, "", fmt.Errorf("spread: %w", err)
 		}
 	}
diff --git a/pkg/python/pypa/bdist/ioutil.go b/pkg/python/pypa/bdist/ioutil.go
index dd94628..62b122b 100644
--- a/pkg/python/pypa/bdist/ioutil.go
+++ b/pkg/python/pypa/bdist/ioutil.go
@@ -54,8 +54,8 @@ func (f *zipEntry) IsDir() bool                  { return f.header.FileInfo().Is
 func (f *zipEntry) Sys() interface{}             { return f.header.FileInfo().Sys() }
 func (f *zipEntry) Open() (io.ReadCloser, error) { return f.open() }
 
-func rename(vfs map[string]fsutil.FileReference, oldpath, newpath string) error {
-	ref, ok := vfs[oldpath]
+func rename(oldvfs, newvfs map[string]fsutil.FileReference, oldpath, newpath string) error {
+	ref, ok := oldvfs[oldpath]
 	if !ok {
 		return &os.LinkError{
 			Op:  "rename",
@@ -69,8 +69,8 @@ func rename(vfs map[string]fsutil.FileReference, oldpath, newpath string) error
 	if isDir {
 		ref.(*zipEntry).header.Name += "/"
 	}
-	delete(vfs, oldpath)
-	vfs[newpath] = ref
+	delete(oldvfs, oldpath)
+	newvfs[newpath] = ref
 	return nil
 }
 
-- 
2.43.0


From f7eb7f85a329ebb6b3176b51a8e6c15b9aa9ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 39/53] fix: bdist: don't generate a layer with files below a
 file

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 0b51e20..706ec8d 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -148,7 +148,12 @@ func InstallWheel(
 	// ensure that parent directories exist
 	for filename := range vfs {
 		for dir := path.Dir(filename); dir != "."; dir = path.Dir(dir) {
-			if _, exists := vfs[dir]; !exists {
+			if parent, exists := vfs[dir]; exists {
+				if !parent.IsDir() {
+					return nil, fmt.Errorf("bdist.InstallWheel: %q is below %q, which is not a directory",
+						filename, dir)
+				}
+			} else {
 				vfs[dir] = &fsutil.InMemFileReference{
 					FileInfo: (&tar.Header{
 						Typeflag: tar.TypeDir,
-- 
2.43.0


From a84ca2c798517b834a00085f8a9c6e3ce4e1a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 40/53] fix: python: don't let the host's umask and clock leak
 in to .pyc files

---
 pkg/python/py_compile.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index c70b0cf..d741509 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -1,6 +1,7 @@
 package python
 
 import (
+	"archive/tar"
 	"context"
 	"fmt"
 	"io"
@@ -174,8 +175,19 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 			if err != nil {
 				return err
 			}
+			// Don't let the host's umask or clock leak in to the output.
+			header := &tar.Header{
+				Typeflag: tar.TypeReg,
+				Name:     fullname,
+				Mode:     0o644,
+				Size:     int64(len(content)),
+				ModTime:  clampTime,
+			}
+			if clampTime.IsZero() {
+				header.ModTime = info.ModTime()
+			}
 			ret = append(ret, &fsutil.InMemFileReference{
-				FileInfo:  info,
+				FileInfo:  header.FileInfo(),
 				MFullName: fullname,
 				MContent:  content,
 			})
-- 
2.43.0


From 23385e582bd0c94beb1afe7460c697dbbc11e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 41/53] fix: python: let an empty line end the value if
 !EmptyLinesInValues

---
 pkg/python/configparser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index deb6eb5..505546c 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 )
@@ -96,7 +97,8 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 					curVal = append(curVal, value)
 				}
 			} else {
-				curIndentLevel = 0
+				// an empty line marks the end of the value
+				curIndentLevel = math.MaxInt
 			}
 			continue
 		}
-- 
2.43.0


From e1ad27b69a955880a7f9c480f0da612e84090030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:39 +0000
Subject: [PATCH 42/53] fix: bdist: reject wheels that contain files with
 absolute names

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 706ec8d..182ec4a 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -843,7 +843,7 @@ func (wh *wheel) integrityCheck() error {
 	todo := make(map[string]struct{})
 	seen := make(map[string]bool) // map[name]isDir
 	for _, file := range wh.zip.File {
-		if name := path.Clean(file.Name); name == ".." || strings.HasPrefix(name, "../") {
+		if name := path.Clean(file.Name); path.IsAbs(name) || name == ".." || strings.HasPrefix(name, "../") {
 			return fmt.Errorf("file is outside of the wheel: %q", file.Name)
 		}
 		// If a file is there more than once, then the one that gets verified isn't the one that
-- 
2.43.0


From 09fe52e55d1990d58c1ec7ed7a759569e194d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:39 +0000
Subject: [PATCH 43/53] fix: bdist: don't silently drop a file that has the
 name of the data directory

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 182ec4a..e6eb645 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -292,6 +292,9 @@ func (wh *wheel) installToVFS(
 	}
 	vfsTypes := make(map[string]string)
 	dataDir := path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data")
+	if file, exists := vfs[dataDir]; exists && !file.IsDir() {
+		return nil, "", fmt.Errorf("spread: %q is not a directory", dataDir)
+	}
 	// Take everything out before putting anything back in, and do so in order, so that the result
 	// is deterministic.
 	dataVFS := make(map[string]fsutil.FileReference)
-- 
2.43.0


From ca5141b8c2976d69746f215224cc9dca8b68f76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:39 +0000
Subject: [PATCH 44/53] fix: bdist: don't try to compile directories

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index e6eb645..336494b 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -368,7 +368,7 @@ func (wh *wheel) installToVFS(
 	//      enough to remove .pyc even if it is not mentioned in RECORD.)
 	var srcs []fsutil.FileReference //nolint:prealloc // 'continue' is quite likely
 	for _, file := range vfs {
-		if !strings.HasSuffix(file.Name(), ".py") {
+		if file.IsDir() || !strings.HasSuffix(file.Name(), ".py") {
 			continue
 		}
 		srcs = append(srcs, file)
-- 
2.43.0


From c5befdaef9e99304fbcb842dccfed57191a9a178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:39 +0000
Subject: [PATCH 45/53] fix: bdist: don't generate a layer entry for the root
 directory

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 336494b..6729b48 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -340,6 +340,10 @@ func (wh *wheel) installToVFS(
 		if other, exists := vfs[newFullName]; exists && !(isDir && other.IsDir()) {
 			return nil, "", fmt.Errorf("spread: multiple files for %q", newFullName)
 		}
+		if newFullName == "" {
+			// The root directory is always there.
+			continue
+		}
 		vfsTypes[newFullName] = key
 		if err := rename(dataVFS, vfs, fullName, newFullName); err != nil {
 			return nil, "", fmt.Errorf("spread: %w", err)
-- 
2.43.0


From 41ad4a0f4e87628d65f3f980277ef62fc21b379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:39 +0000
Subject: [PATCH 46/53] fix: python: don't panic if there is no command to
 compile with

---
 pkg/python/py_compile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index d741509..16890ff 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -38,6 +38,9 @@ type Compiler func(
 //
 //     plat.Compile = ExternalCompiler("python3", "-m", "compileall")
 func ExternalCompiler(cmdline ...string) (Compiler, error) {
+	if len(cmdline) == 0 {
+		return nil, fmt.Errorf("no command given to compile Python files with")
+	}
 	exe, err := dexec.LookPath(cmdline[0])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2665f0cdc5341b5c250818737670ac69863ced32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:00 +0000
Subject: [PATCH 47/53] fix: python: reject options without a name in config
 files

---
 pkg/python/configparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index 505546c..ce876d0 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -142,7 +142,7 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 					}
 				}
 			}
-			if sepPos == len(value) {
+			if sepPos == 0 || sepPos == len(value) {
 				return nil, fmt.Errorf("line %d: invalid line: %q", lineno, value)
 			}
 			curKey = p.OptionTransform(strings.TrimSpace(value[:sepPos]))
-- 
2.43.0


From 325e42c38ad09e5693e12e67ce9694204071f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:35 +0000
Subject: [PATCH 48/53] fix: bdist: reject a file that has the name of the root
 of the wheel

With an installation directory of "/" it was dropped without notice.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 6729b48..27e6065 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -850,21 +850,21 @@ func (wh *wheel) integrityCheck() error {
 	todo := make(map[string]struct{})
 	seen := make(map[string]bool) // map[name]isDir
 	for _, file := range wh.zip.File {
-		if name := path.Clean(file.Name); path.IsAbs(name) || name == ".." || strings.HasPrefix(name, "../") {
+		isDir := strings.HasSuffix(file.Name, "/")
+		name := path.Clean(file.Name)
+		if path.IsAbs(name) || name == ".." || strings.HasPrefix(name, "../") || (name == "." && !isDir) {
 			return fmt.Errorf("file is outside of the wheel: %q", file.Name)
 		}
 		// If a file is there more than once, then the one that gets verified isn't the one that
 		// gets installed.
-		isDir := strings.HasSuffix(file.Name, "/")
-		if wasDir, dup := seen[path.Clean(file.Name)]; dup && !(isDir && wasDir) {
+		if wasDir, dup := seen[name]; dup && !(isDir && wasDir) {
 			return fmt.Errorf("duplicate file: %q", file.Name)
 		}
-		seen[path.Clean(file.Name)] = isDir
+		seen[name] = isDir
 		// Use the same definition of "directory" as when creating the file.
 		if isDir {
 			continue
 		}
-		name := path.Clean(file.Name)
 		switch name {
 		case path.Join(distInfoDir, "RECORD.jws"):
 			// skip
-- 
2.43.0


From 6db68fa8c00f7fe03a2aed6350d0189c31402ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:50 +0000
Subject: [PATCH 49/53] fix: python: don't mix up the arguments of concurrent
 uses of a Compiler

If the slice passed to ExternalCompiler had spare capacity, concurrent
calls of the returned Compiler would append to the same backing array,
and might compile the directory of another call.
---
 pkg/python/py_compile.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index 16890ff..8af92ce 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -129,11 +129,13 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 		}
 
 		// Run the compiler
-		cmd := dexec.CommandContext(ctx, exe, append(cmdline[1:],
+		args := append([]string(nil), cmdline[1:]...) // don't share a backing array between calls
+		args = append(args,
 			"-s", tmpdir, // strip-dir for the in-.pyc filename
 			"-p", "/", // prepend-dir for the in-.pyc filename
 			tmpdir, // directory to compile
-		)...)
+		)
+		cmd := dexec.CommandContext(ctx, exe, args...)
 
 		cmd.Env = append(os.Environ(),
 			"PYTHONHASHSEED=0")
-- 
2.43.0


From 08fc71e84c83166a965fa97dcf0e6904d8d8dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:50 +0000
Subject: [PATCH 50/53] fix: python: don't generate stale .pyc files for files
 with clamped timestamps

With "--invalidation-mode=timestamp", the .pyc file recorded the
original timestamp of the .py file, rather than the clamped one that it
has in the layer.
---
 pkg/python/py_compile.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index 8af92ce..b4872bc 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -114,8 +114,13 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 			}
 			inReader = nil
 
-			// File metadata
-			if err := os.Chtimes(tmpfilename, inFile.ModTime(), inFile.ModTime()); err != nil {
+			// File metadata; the time that the file will have in the layer, since it may get
+			// recorded in the .pyc file.
+			modTime := inFile.ModTime()
+			if !clampTime.IsZero() && modTime.After(clampTime) {
+				modTime = clampTime
+			}
+			if err := os.Chtimes(tmpfilename, modTime, modTime); err != nil {
 				return err
 			}
 
-- 
2.43.0


From ab42a7727f42cf1bd493860e8d680946ffc126ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:50 +0000
Subject: [PATCH 51/53] fix: layer dir: keep the group name unless
 --chown-gname is given

All the other --chown-XXX flags default to using what the directory says,
and the help text says that an empty value does that; with the "root"
default, files got a group name that contradicts their GID.
---
 cmd_layer_dir.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd_layer_dir.go b/cmd_layer_dir.go
index b89d24a..2648711 100644
--- a/cmd_layer_dir.go
+++ b/cmd_layer_dir.go
@@ -54,7 +54,7 @@ func init() {
 		"Force symbolic user name of the read files to be `uname`; an empty value uses the user name")
 	cmd.Flags().IntVar(&flagChOwn.GID, "chown-gid", -1,
 		"Force the numeric group ID of read files to be `GID`; use a value <0 to use the actual GID")
-	cmd.Flags().StringVar(&flagChOwn.GName, "chown-gname", "root",
+	cmd.Flags().StringVar(&flagChOwn.GName, "chown-gname", "",
 		"Force symbolic group name of the read files to be `gname`; an empty value uses the actual group name")
 
 	argparserLayer.AddCommand(cmd)
-- 
2.43.0


From 389ce042b9d9b88e26169708df20565cdc91ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:40 +0000
Subject: [PATCH 52/53] fix: squash: don't write to a loaded filesystem when
 looking something up

Concurrent lookups were a data race.
---
 pkg/squash/vfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 67b54f9..1c2ad61 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -124,7 +124,7 @@ func (f *fsfile) getHops(child string, create, followLinks bool, hops *int) (*fs
 			}
 		}
 		// Look up the child
-		if f.children == nil {
+		if create && f.children == nil { // don't write when just reading, it might be concurrent
 			f.children = make(map[string]*fsfile)
 		}
 		if _, ok := f.children[child]; create && !ok {
-- 
2.43.0


From 16f74ac5fcf962dd5aaf4f03285441842d37411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:11 +0000
Subject: [PATCH 53/53] fix: pyinspect: don't write to the caller's command
 line, or panic if it is empty

---
 pkg/python/pyinspect/pyinspect.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pyinspect/pyinspect.go b/pkg/python/pyinspect/pyinspect.go
index aeb07ef..6bfbd4a 100644
--- a/pkg/python/pyinspect/pyinspect.go
+++ b/pkg/python/pyinspect/pyinspect.go
@@ -87,7 +87,11 @@ type DynamicInfo struct {
 }
 
 func Dynamic(ctx context.Context, cmdline ...string) (*DynamicInfo, error) {
-	cmd := dexec.CommandContext(ctx, cmdline[0], append(cmdline[1:], "-c", `
+	if len(cmdline) == 0 {
+		return nil, fmt.Errorf("no Python command given to inspect")
+	}
+	args := append([]string(nil), cmdline[1:]...) // don't write to the caller's backing array
+	args = append(args, "-c", `
 import json
 import sys
 from base64 import b64encode
@@ -105,7 +109,8 @@ json.dump({
   "VersionInfo": {slot: getattr(sys.version_info, slot) for slot in version_info_slots},
   "Scheme": {slot: getattr(scheme, slot) for slot in scheme.__slots__},
 }, sys.stdout)
-`)...)
+`)
+	cmd := dexec.CommandContext(ctx, cmdline[0], args...)
 	cmd.DisableLogging = true
 	bs, err := cmd.Output()
 	if err != nil {
-- 
2.43.0

