From 0304329c0111704290aff2fdecc45b3b2002fe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 01/29] fix: layer dir: apply --chown to the header before
 writing it

---
 pkg/dir/dir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index a482fee..01cc923 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -122,9 +122,6 @@ func LayerFromDir(
 		if header.ChangeTime.After(clampTime) {
 			header.ChangeTime = clampTime
 		}
-		if err := tarWriter.WriteHeader(header); err != nil {
-			return err
-		}
 		if chown != nil {
 			if chown.UID >= 0 {
 				header.Uid = chown.UID
@@ -139,6 +136,9 @@ func LayerFromDir(
 				header.Gname = chown.GName
 			}
 		}
+		if err := tarWriter.WriteHeader(header); err != nil {
+			return err
+		}
 		if header.Typeflag == tar.TypeReg {
 			reader, err := os.Open(filename)
 			if err != nil {
-- 
2.43.0


From 63f589375aedda223420bc0be9abf752f475d5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 02/29] fix: layer dir: do not loop forever on an absolute
 prefix

---
 pkg/dir/dir.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 01cc923..b3cf3f1 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -53,7 +53,7 @@ func LayerFromDir(
 			prefix.Mode = 0o755
 		}
 		var dirs []string
-		for dir := prefix.DirName; dir != "."; dir = path.Dir(dir) {
+		for dir := prefix.DirName; dir != "." && dir != "/"; dir = path.Dir(dir) {
 			dirs = append(dirs, dir)
 		}
 		for i := len(dirs) - 1; i >= 0; i-- {
-- 
2.43.0


From 40e4bc312320c446457667db94e2a7075c31bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 03/29] fix: fsutil: ignore ChangeTime too when comparing
 layers except for timestamps

---
 pkg/fsutil/diff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index a58e213..fea5a50 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -38,7 +38,7 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 func headersEqualExceptTimestamps(a, b tar.Header) bool {
 	b.ModTime = a.ModTime
 	b.AccessTime = a.AccessTime
-	b.ModTime = a.ModTime
+	b.ChangeTime = a.ChangeTime
 
 	return reflect.DeepEqual(a, b)
 }
-- 
2.43.0


From 35e99327e892d61c4fa99b758fc7b034bc73a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:08 +0000
Subject: [PATCH 04/29] fix: image build: report a failure to read the config
 of the base image

---
 cmd_image_build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd_image_build.go b/cmd_image_build.go
index 4735172..686072b 100644
--- a/cmd_image_build.go
+++ b/cmd_image_build.go
@@ -159,7 +159,10 @@ func init() {
 			}
 
 			if !flags.config.IsZero() {
-				configFile, _ := img.ConfigFile()
+				configFile, err := img.ConfigFile()
+				if err != nil {
+					return err
+				}
 
 				flags.config.ApplyTo(&configFile.Config)
 
-- 
2.43.0


From 8ee0a7780398ec3838e6bec54330047da6b0f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:08 +0000
Subject: [PATCH 05/29] fix: squash: do not modify the tree when only looking
 up a path

---
 pkg/squash/vfs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 2a0c1a5..450599d 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -104,10 +104,10 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 			}
 		}
 		// Look up the child
-		if f.children == nil {
-			f.children = make(map[string]*fsfile)
-		}
 		if _, ok := f.children[child]; create && !ok {
+			if f.children == nil {
+				f.children = make(map[string]*fsfile)
+			}
 			f.children[child] = &fsfile{ //nolint:exhaustivestruct
 				name:   path.Join(f.name, child),
 				parent: f,
-- 
2.43.0


From 824bfc01353e560c1b8a4cd84da6c9e27130def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:08 +0000
Subject: [PATCH 06/29] fix: squash: keep hiding the old content of a directory
 that was deleted and re-created

---
 pkg/squash/vfs.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 450599d..cf9f152 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -159,6 +159,13 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 	}
 
 	wasFile := f.header != nil && f.header.Typeflag != tar.TypeDir
+	if f.parent != nil {
+		// A whiteout marker for this path gets discarded below; that's just as much of a
+		// hidden directory as having been a file is.
+		if _, wasWhiteout := f.parent.children[".wh."+path.Base(f.name)]; wasWhiteout {
+			wasFile = true
+		}
+	}
 
 	f.header = hdr
 	f.body = body
-- 
2.43.0


From 1058f6685d3492938aeba68359816d01dd8bdecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:07 +0000
Subject: [PATCH 07/29] fix: squash: give up with ELOOP on symlinks that
 resolve through themselves

---
 pkg/squash/vfs.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index cf9f152..629b804 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -17,6 +17,10 @@ var (
 	ErrNotDir = syscall.ENOTDIR
 )
 
+// maxLinks is how many symlinks may be followed to resolve a single path; same as
+// path/filepath.EvalSymlinks.
+const maxLinks = 255
+
 type fsfile struct {
 	name     string // io/fs fullname
 	parent   *fsfile
@@ -28,6 +32,10 @@ type fsfile struct {
 }
 
 func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
+	return fsGetLinks(dir, pathname, create, followLinks, new(int))
+}
+
+func fsGetLinks(dir *fsfile, pathname string, create, followLinks bool, nLinks *int) (*fsfile, error) {
 	pathname = path.Clean(pathname)
 
 	done := 0 // index of the next byte in pathname to look at
@@ -47,13 +55,13 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 			break
 		}
 		var err error
-		dir, err = dir.Get(pathname[done:done+slash], create, false)
+		dir, err = dir.getLinks(pathname[done:done+slash], create, false, nLinks)
 		done += slash + 1
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.Get(pathname[done:], create, followLinks)
+	ret, err := dir.getLinks(pathname[done:], create, followLinks, nLinks)
 	if err != nil {
 		return nil, err
 	}
@@ -61,6 +69,10 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 }
 
 func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
+	return f.getLinks(child, create, followLinks, new(int))
+}
+
+func (f *fsfile) getLinks(child string, create, followLinks bool, nLinks *int) (*fsfile, error) {
 	var ret *fsfile
 
 	switch child {
@@ -70,7 +82,14 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			newF, err := fsGet(f.parent, f.header.Linkname, create, true)
+			if *nLinks++; *nLinks > maxLinks {
+				return nil, &fs.PathError{
+					Op:   "vfs.readlink(dir)",
+					Path: "/" + f.name,
+					Err:  ErrLoop,
+				}
+			}
+			newF, err := fsGetLinks(f.parent, f.header.Linkname, create, true, nLinks)
 			if err != nil {
 				return nil, &fs.PathError{
 					Op:   "vfs.readlink(dir)",
@@ -117,17 +136,15 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 	}
 
 	// Resolve symlinks
-	stack := make(map[*fsfile]struct{})
 	for followLinks && ret != nil && ret.header != nil && ret.header.Typeflag == tar.TypeSymlink {
-		if _, loop := stack[ret]; loop {
+		if *nLinks++; *nLinks > maxLinks {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
 				Path: "/" + ret.name,
 				Err:  ErrLoop,
 			}
 		}
-		stack[ret] = struct{}{}
-		target, err := fsGet(ret.parent, ret.header.Linkname, create, false)
+		target, err := fsGetLinks(ret.parent, ret.header.Linkname, create, false, nLinks)
 		if err != nil {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
-- 
2.43.0


From 14dd5505ce3677576993030d1e318a643534895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:07 +0000
Subject: [PATCH 08/29] fix: squash: do not serve a partial directory listing
 after a failed ReadDir

---
 pkg/squash/vfs_fs.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 7dd2b05..3b356d8 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -172,7 +172,7 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 		return nil, fs.ErrClosed
 	}
 	if f.dirents == nil {
-		f.dirents = make([]fs.DirEntry, 0, len(f.tgt.children))
+		dirents := make([]fs.DirEntry, 0, len(f.tgt.children))
 		for childname, lnk := range f.tgt.children {
 			if strings.HasPrefix(childname, ".wh.") {
 				continue
@@ -196,14 +196,15 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 				tgtDirEnt = missingDirEntry(childname)
 			}
 
-			f.dirents = append(f.dirents, &dirEntry{
+			dirents = append(dirents, &dirEntry{
 				lnk: lnkDirEnt,
 				tgt: tgtDirEnt,
 			})
 		}
-		sort.Slice(f.dirents, func(i, j int) bool {
-			return f.dirents[i].Name() < f.dirents[j].Name()
+		sort.Slice(dirents, func(i, j int) bool {
+			return dirents[i].Name() < dirents[j].Name()
 		})
+		f.dirents = dirents
 	}
 	if f.pos > len(f.dirents) {
 		f.pos = len(f.dirents)
-- 
2.43.0


From c464d7e6af963043cded2fe6dc7c7a6e4dce9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:56 +0000
Subject: [PATCH 09/29] fix: bdist: check every file that gets installed
 against RECORD

Whether a zip entry is installed as a directory depends on its name, but
the integrity check skipped entries whose mode bits claim that they are a
directory; so a file with those mode bits set was installed with neither
its checksum verified nor it needing to be listed in RECORD.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 4df8590..7bf29d2 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -818,7 +818,9 @@ func (wh *wheel) integrityCheck() error {
 
 	todo := make(map[string]struct{})
 	for _, file := range wh.zip.File {
-		if file.FileInfo().IsDir() {
+		// The wheel is installed by name, so decide what is a directory by name too, rather than
+		// by the mode in the zip entry.
+		if strings.HasSuffix(file.Name, "/") {
 			continue
 		}
 		name := path.Clean(file.Name)
-- 
2.43.0


From 3efdab4400a649ec65c00a799a54a446f62e564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:56 +0000
Subject: [PATCH 10/29] fix: bdist: reject wheels with multiple entries with
 the same name

The integrity check verifies the first entry with a given name, while the
installed content is that of the last one; so the installed content was
not necessarily what RECORD says.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 7bf29d2..752bb0b 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -817,7 +817,15 @@ func (wh *wheel) integrityCheck() error {
 	}
 
 	todo := make(map[string]struct{})
+	isDir := make(map[string]bool)
 	for _, file := range wh.zip.File {
+		// What gets verified below is the first entry with a given name, but what gets installed
+		// is the last one.
+		wasDir, dup := isDir[path.Clean(file.Name)]
+		isDir[path.Clean(file.Name)] = strings.HasSuffix(file.Name, "/")
+		if dup && !(wasDir && isDir[path.Clean(file.Name)]) {
+			return fmt.Errorf("multiple entries with the same name: %q", file.Name)
+		}
 		// The wheel is installed by name, so decide what is a directory by name too, rather than
 		// by the mode in the zip entry.
 		if strings.HasSuffix(file.Name, "/") {
-- 
2.43.0


From 30a325b175467fda79518431ea23d1a6e7c37789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:56 +0000
Subject: [PATCH 11/29] fix: bdist: reject wheels with filenames that escape
 the install directory

A zip entry named "../../../../etc/passwd" (or with an absolute name) was
installed outside of the install scheme, or even as a tar entry that
escapes the root of the layer.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 752bb0b..74e0dce 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -819,6 +819,9 @@ func (wh *wheel) integrityCheck() error {
 	todo := make(map[string]struct{})
 	isDir := make(map[string]bool)
 	for _, file := range wh.zip.File {
+		if !fs.ValidPath(path.Clean(file.Name)) {
+			return fmt.Errorf("invalid filename: %q", file.Name)
+		}
 		// What gets verified below is the first entry with a given name, but what gets installed
 		// is the last one.
 		wasDir, dup := isDir[path.Clean(file.Name)]
-- 
2.43.0


From c67b6faab9cb4a5860506ab35d256435c4271c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:36 +0000
Subject: [PATCH 12/29] fix: bdist: clean the paths of the install scheme

The scheme is only required to consist of absolute paths, so it may
legitimately contain things like "//usr/lib" or "/usr/lib/", which made
for tar entries with absolute names, or for a mismatch between the names
that files are stored under and the names that they are looked up with.
---
 pkg/python/pypa/bdist/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/misc.go b/pkg/python/pypa/bdist/misc.go
index c50a4d7..6d36594 100644
--- a/pkg/python/pypa/bdist/misc.go
+++ b/pkg/python/pypa/bdist/misc.go
@@ -27,7 +27,7 @@ func sanitizePlatformForLayer(plat python.Platform) (python.Platform, error) {
 		&plat.Scheme.Data,
 	}
 	for _, pathPtr := range paths {
-		clean := strings.TrimPrefix(filepath.ToSlash(*pathPtr), "/")
+		clean := strings.TrimPrefix(path.Clean(filepath.ToSlash(*pathPtr)), "/")
 		*pathPtr = clean
 	}
 
-- 
2.43.0


From 9daf25e7c6d5daee4ea797ee3010391e53df5917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:36 +0000
Subject: [PATCH 13/29] fix: bdist: spread the .data directory in a fixed order

When 2 files of the .data directory are to be installed at the same place
(say, .data/scripts/foo and .data/data/bin/foo), which one of them ended
up in the layer was up to Go's map iteration order.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 74e0dce..87403ff 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -287,10 +287,15 @@ func (wh *wheel) installToVFS(
 	}
 	vfsTypes := make(map[string]string)
 	dataDir := path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data")
+	// Go over them in a fixed order, in case several of them get moved to the same place.
+	dataNames := make([]string, 0, len(vfs))
 	for fullName := range vfs {
-		if !strings.HasPrefix(fullName, dataDir+"/") {
-			continue
+		if strings.HasPrefix(fullName, dataDir+"/") {
+			dataNames = append(dataNames, fullName)
 		}
+	}
+	sort.Strings(dataNames)
+	for _, fullName := range dataNames {
 		relName := strings.TrimPrefix(fullName, dataDir+"/")
 		parts := strings.SplitN(relName, "/", 2)
 		key := parts[0]
-- 
2.43.0


From 7ffd2a4df98400664db9c27b5763c18849c3693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:04 +0000
Subject: [PATCH 14/29] fix: entry_points: import the right name for
 "module:object.attr" entry points

The script had "from module import object.attr" in it, which is not valid
Python.
---
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index ee915cd..12740a2 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -27,7 +27,7 @@ var (
 # -*- coding: utf-8 -*-
 import re
 import sys
-from {{ .Module }} import {{ .Func }}
+from {{ .Module }} import {{ .ImportName }}
 if __name__ == '__main__':
     sys.argv[0] = re.sub(r'(-script\.pyw|\.exe)?$', '', sys.argv[0])
     sys.exit({{ .Func }}())
-- 
2.43.0


From 83f28284813108ab91fa01e88159c3f8ebdb5c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:04 +0000
Subject: [PATCH 15/29] fix: entry_points: close entry_points.txt after reading
 it

---
 pkg/python/pypa/entry_points/entry_points.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 12740a2..87e48e7 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -66,6 +66,10 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 
 		configData, err := configParser.Parse(configReader)
 		if err != nil {
+			_ = configReader.Close()
+			return err
+		}
+		if err := configReader.Close(); err != nil {
 			return err
 		}
 
-- 
2.43.0


From 53440020b1ad7fc92aad7a18fb18f0e9d3f97733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:04 +0000
Subject: [PATCH 16/29] fix: entry_points: go over the sections in a fixed
 order

If a script is listed in both console_scripts and gui_scripts, then which
of them ended up in the layer was up to Go's map iteration order.
---
 pkg/python/pypa/entry_points/entry_points.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 87e48e7..8d1d730 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -73,12 +73,13 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 			return err
 		}
 
-		interesting := map[string]string{
-			"console_scripts": plat.ConsoleShebang,
-			"gui_scripts":     plat.GraphicalShebang,
+		interesting := []struct{ sectionName, shebang string }{
+			{"console_scripts", plat.ConsoleShebang},
+			{"gui_scripts", plat.GraphicalShebang},
 		}
 
-		for sectionName, shebang := range interesting {
+		for _, section := range interesting {
+			sectionName, shebang := section.sectionName, section.shebang
 			sectionData, ok := configData[sectionName]
 			if !ok {
 				continue
-- 
2.43.0


From 98c22ee2c5e1f16e482e883a96d5a0ad78777983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:04 +0000
Subject: [PATCH 17/29] fix: entry_points: reject script names that escape the
 scripts directory

An entry point named "../../etc/profile" resulted in a file outside of the
scripts directory, silently replacing whatever was there.
---
 pkg/python/pypa/entry_points/entry_points.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 8d1d730..3df7908 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"context"
 	"fmt"
+	"io/fs"
 	"path"
 	"regexp"
 	"strings"
@@ -85,6 +86,10 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				continue
 			}
 			for key, val := range sectionData {
+				if !fs.ValidPath(key) || key == "." {
+					return fmt.Errorf("entry_points.txt: %q: not a valid script name: %q",
+						sectionName, key)
+				}
 				m := reFuncRef.FindStringSubmatch(val)
 				if m == nil {
 					return fmt.Errorf("entry_points.txt: %q: %q: not a function reference: %q",
-- 
2.43.0


From 9d7ec6c279b759cc0790367ec47324d255a91f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:04 +0000
Subject: [PATCH 18/29] fix: entry_points: clean the path of the scripts
 directory

Like bdist.InstallWheel does; otherwise the script is in the layer with an
absolute name if the platform has "//usr/bin".
---
 pkg/python/pypa/entry_points/entry_points.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 3df7908..bdd4882 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"io/fs"
 	"path"
+	"path/filepath"
 	"regexp"
 	"strings"
 	"text/template"
@@ -79,6 +80,9 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 			{"gui_scripts", plat.GraphicalShebang},
 		}
 
+		// transform it from a `path/filepath` path to an `io/fs` path
+		scriptsDir := strings.TrimPrefix(path.Clean(filepath.ToSlash(plat.Scheme.Scripts)), "/")
+
 		for _, section := range interesting {
 			sectionName, shebang := section.sectionName, section.shebang
 			sectionData, ok := configData[sectionName]
@@ -112,7 +116,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				}
 				header := &tar.Header{
 					Typeflag: tar.TypeReg,
-					Name:     path.Join(plat.Scheme.Scripts[1:], key),
+					Name:     path.Join(scriptsDir, key),
 					Mode:     0o755,
 					Size:     int64(buf.Len()),
 					ModTime:  clampTime,
-- 
2.43.0


From b287b87afce4b61cd08e7585c5f28c1c06d2e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:04 +0000
Subject: [PATCH 19/29] fix: python: do not write outside of the temporary
 directory when compiling

A file reference with a name like "../../etc/foo.py" was written to the
host's filesystem.
---
 pkg/python/py_compile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index c70b0cf..f4f826c 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -73,6 +73,9 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 				}
 			}
 
+			if !fs.ValidPath(inFile.FullName()) {
+				return fmt.Errorf("invalid filename: %q", inFile.FullName())
+			}
 			tmpfilename := filepath.Join(tmpdir, filepath.FromSlash(inFile.FullName()))
 
 			if err := os.MkdirAll(filepath.Dir(tmpfilename), 0o777); err != nil {
-- 
2.43.0


From 7b8d2a9109db99bfc88fec1f87ad45203e0987fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 20/29] fix: pep440: parse "<" and ">" clauses that don't have
 a space

The operators are 1 character, but 2 characters were removed; so "<10" was
taken as "<0", "<4" was an error, and "<" was a panic.
---
 pkg/python/pep440/02_version_specifiers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index a8da602..abc84ae 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -172,10 +172,10 @@ func parseSpecifierClause(str string) (SpecifierClause, error) {
 		str = str[2:]
 	case strings.HasPrefix(str, "<"):
 		ret.CmpOp = CmpOpLT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, ">"):
 		ret.CmpOp = CmpOpGT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, "==="):
 		return ret, fmt.Errorf("specifiers with === are not supported; versions must be PEP 440 compliant")
 	default:
-- 
2.43.0


From ea528affa7da07db5b4fbe9d329bea01b86ada3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 21/29] fix: pep440: keep the ".*" of prefix-matching clauses
 when stringifying them

---
 pkg/python/pep440/02_version_specifiers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index abc84ae..5b45605 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -214,7 +214,11 @@ func (spec SpecifierClause) String() string {
 	if !ok {
 		panic(fmt.Errorf("invalid CmpOp: %d", spec.CmpOp))
 	}
-	return opStr + spec.Version.String()
+	str := opStr + spec.Version.String()
+	if spec.CmpOp == CmpOpPrefixMatch || spec.CmpOp == CmpOpPrefixExclude {
+		str += ".*"
+	}
+	return str
 }
 
 func (spec SpecifierClause) Match(ver Version) bool {
-- 
2.43.0


From 13a8127e5cd9226906aecb011ab7081902bd3de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 22/29] fix: pep440: select versions that are allowed, rather
 than excluded ones

Specifier.Select preferred the versions that the ExclusionBehavior does
*not* allow; which went unnoticed because ExcludeYanked had the opposite
mistake; but it meant that pre-releases were selected.
---
 pkg/python/pep440/02_version_specifiers.go | 2 +-
 pkg/python/pep592/yank.go                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 5b45605..9f7b43a 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -630,7 +630,7 @@ func (spec Specifier) Select(choices []Version, exclusionBehavior ExclusionBehav
 	var bestExcluded *Version
 	for _, choice := range choices {
 		if spec.Match(choice) {
-			if exclusionBehavior == nil || !exclusionBehavior.Allow(choice) {
+			if exclusionBehavior == nil || exclusionBehavior.Allow(choice) {
 				if best == nil || best.Cmp(choice) < 0 {
 					val := choice
 					best = &val
diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 98e6eab..86784c1 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -36,5 +36,5 @@ func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
 	_, yanked := e.yankedVersions[v.String()]
-	return yanked
+	return !yanked
 }
-- 
2.43.0


From 199aeb7e8b87bd51c43f1735a3701b16f1c29ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 23/29] fix: pep440: don't silently truncate numbers in the
 local part of versions

"1.0+4294967297" was parsed as being the same as "1.0+1".
---
 pkg/python/pep440/03_tail.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/03_tail.go b/pkg/python/pep440/03_tail.go
index 7c2afd0..7f4fec9 100644
--- a/pkg/python/pep440/03_tail.go
+++ b/pkg/python/pep440/03_tail.go
@@ -715,7 +715,16 @@ func parseVersion(str string) (*Version, error) {
 		return strings.ContainsRune("-_.", r)
 	})
 	for _, part := range localParts {
-		ver.Local = append(ver.Local, intstr.Parse(strings.ToLower(part)))
+		seg := intstr.FromString(strings.ToLower(part))
+		if strings.Trim(part, "0123456789") == "" {
+			// Don't use intstr.Parse, it silently truncates to 32 bits.
+			segInt, err := strconv.ParseInt(part, 10, 32)
+			if err != nil {
+				return nil, fmt.Errorf("local: %w", err)
+			}
+			seg = intstr.FromInt(int(segInt))
+		}
+		ver.Local = append(ver.Local, seg)
 	}
 
 	return &ver, nil
-- 
2.43.0


From b135493f9c3f52d95a378b9725c929aece8e859a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 24/29] fix: pep503: have GetSignature get the signature,
 rather than the signed file

---
 pkg/python/pep503/simple_repo_api.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index fba7170..96c6f0d 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -288,14 +288,18 @@ func (l FileLink) Get(ctx context.Context) ([]byte, error) {
 var ErrNoSignature = errors.New("no signature")
 
 func (l FileLink) GetSignature(ctx context.Context) ([]byte, error) {
+	// "If there is a GPG signature for a particular distribution file it MUST live alongside
+	// that file with the same name with a `.asc` appended to it."  The fragment is the checksum
+	// of the distribution file, it is not the checksum of the signature.
+	sigURL := strings.SplitN(l.HRef, "#", 2)[0] + ".asc"
 	switch l.DataAttrs["data-gpg-sig"] {
 	case "false":
 		return nil, ErrNoSignature
 	case "true":
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL)
 		return content, err
 	default:
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL)
 		var httpErr *HTTPError
 		if err != nil && errors.As(err, &httpErr) && httpErr.StatusCode == http.StatusNotFound {
 			err = ErrNoSignature
-- 
2.43.0


From f79d49408c8b7b54dd71a054654060706c930181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 25/29] fix: pep503: don't silently skip the checksum if it
 cannot be parsed

---
 pkg/python/pep503/simple_repo_api.go | 31 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index 96c6f0d..50ccb9f 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -89,21 +89,22 @@ func (c Client) get(ctx context.Context, requestURL string) (_ *url.URL, _ []byt
 		return nil, nil, &HTTPError{Status: resp.Status, StatusCode: resp.StatusCode}
 	}
 	if u, err := url.Parse(requestURL); err == nil && u.Fragment != "" {
-		if keyvals, err := url.ParseQuery(u.Fragment); err == nil {
-			for key, vals := range keyvals {
-				for _, val := range vals {
-					newHasher := python.HashlibAlgorithmsGuaranteed[key]
-					if newHasher == nil {
-						continue
-					}
-					hasher := newHasher()
-					hasher.Write(content)
-					sum := hex.EncodeToString(hasher.Sum(nil))
-					if sum != val {
-						//nolint:lll // error string
-						return nil, nil, fmt.Errorf("checksum mismatch: %s: expected=%s actual=%s",
-							key, val, sum)
-					}
+		keyvals, err := url.ParseQuery(u.Fragment)
+		if err != nil {
+			return nil, nil, fmt.Errorf("invalid checksum: %q: %w", u.Fragment, err)
+		}
+		for key, vals := range keyvals {
+			for _, val := range vals {
+				newHasher := python.HashlibAlgorithmsGuaranteed[key]
+				if newHasher == nil {
+					continue
+				}
+				hasher := newHasher()
+				hasher.Write(content)
+				sum := hex.EncodeToString(hasher.Sum(nil))
+				if sum != val {
+					return nil, nil, fmt.Errorf("checksum mismatch: %s: expected=%s actual=%s",
+						key, val, sum)
 				}
 			}
 		}
-- 
2.43.0


From 90fa22587a10b942c59f9fe54eceb3cdc89f27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 26/29] fix: python: include the serial number in the version
 of Python pre-releases

3.11.0rc2 was turned in to 3.11.0rc0; which doesn't satisfy ">=3.11.0rc1".
---
 pkg/python/platform.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/python/platform.go b/pkg/python/platform.go
index ffb6860..32f31d2 100644
--- a/pkg/python/platform.go
+++ b/pkg/python/platform.go
@@ -43,11 +43,11 @@ func (vi VersionInfo) PEP440() (*pep440.Version, error) {
 	}
 	switch vi.ReleaseLevel {
 	case "alpha":
-		ret.Pre = &pep440.PreRelease{L: "a", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "a", N: vi.Serial}
 	case "beta":
-		ret.Pre = &pep440.PreRelease{L: "b", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "b", N: vi.Serial}
 	case "candidate":
-		ret.Pre = &pep440.PreRelease{L: "rc", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "rc", N: vi.Serial}
 	case "final":
 		ret.Pre = nil
 	default:
-- 
2.43.0


From b53b2113a2c9d1dba02c710ba4b522f55fa54a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 27/29] fix: python: correct the values of the FileAttribute
 constants

iota is already 8 there; and there are 3 unused bits before
FILE_ATTRIBUTE_RECALL_ON_DATA_ACCESS (0x400000), not 1.
---
 pkg/python/stat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/stat.go b/pkg/python/stat.go
index fa75b76..66a2841 100644
--- a/pkg/python/stat.go
+++ b/pkg/python/stat.go
@@ -197,7 +197,7 @@ const (
 	FileAttributeNormal    StatFileAttribute = StatFileAttribute(_DOSUnused7)
 
 	// 1<<8 through 1<<15
-	FileAttributeTemporary StatFileAttribute = 1 << (8 + iota)
+	FileAttributeTemporary StatFileAttribute = 1 << iota
 	FileAttributeSparseFile
 	FileAttributeReparsePoint
 	FileAttributeCompressed
@@ -211,6 +211,8 @@ const (
 	FileAttributeNoScrubData
 	FileAttributeRecallOnOpen // not in Python 3.9.1 stat.py
 	_FileattributeUnused19
+	_FileattributeUnused20
+	_FileattributeUnused21
 	FileAttributeRecallOnDataAccess // not in Python 3.9.1 stat.py
 )
 
-- 
2.43.0


From 3296bc37ffe11d09f8c5bd76d6770761843d6047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 28/29] fix: bdist: reject wheel filenames with a build number
 that is out of range

Rather than silently taking it to be the highest build number that there
is.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 87403ff..c110d91 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -539,7 +539,10 @@ func ParseFilename(filename string) (*FileNameData, error) {
 	ret.Version = *ver
 
 	if buildN := match[reFilename.SubexpIndex("build_n")]; buildN != "" {
-		n, _ := strconv.Atoi(buildN)
+		n, err := strconv.Atoi(buildN)
+		if err != nil {
+			return nil, fmt.Errorf("invalid wheel filename: %q: %w", filename, err)
+		}
 		ret.BuildTag = &BuildTag{
 			Int: n,
 			Str: match[reFilename.SubexpIndex("build_l")],
-- 
2.43.0


From f95a505752ca12412bdd40e63b14d85e8008b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:14 +0000
Subject: [PATCH 29/29] fix: pyinspect: accept unclean absolute paths when
 inspecting an image

Stat("/") and Stat("/usr//bin/") work when inspecting the host, but were
"invalid argument" when inspecting an image.
---
 pkg/python/pyinspect/fs_image.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/fs_image.go b/pkg/python/pyinspect/fs_image.go
index d22343c..b2b622d 100644
--- a/pkg/python/pyinspect/fs_image.go
+++ b/pkg/python/pyinspect/fs_image.go
@@ -100,7 +100,11 @@ func (sys *ImageFS) Stat(name string) (FileInfo, error) {
 	if err := sys.ensureInitialized(); err != nil {
 		return nil, err
 	}
-	fileinfo, err := fs.Stat(sys.imgFS, name[1:])
+	fsName := strings.TrimPrefix(path.Clean(name), "/")
+	if fsName == "" {
+		fsName = "."
+	}
+	fileinfo, err := fs.Stat(sys.imgFS, fsName)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0

