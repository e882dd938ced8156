From 513bfb66de3092f906c1a4b7a85aca6d8ccd941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 01/27] fix: do not write the output wheel when processing it
 failed

---
 src/auditwheel/wheeltools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 0ac4c3a..7328f44 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -137,7 +137,8 @@ class InWheel(InTemporaryDirectory):
         value: BaseException | None,
         tb: TracebackType | None,
     ) -> None:
-        if self.out_wheel is not None:
+        # a wheel that could not be processed completely shall not be written
+        if exc is None and self.out_wheel is not None:
             rewrite_record(self.name)
             date_time = None
             timestamp = os.environ.get("SOURCE_DATE_EPOCH")
-- 
2.43.0


From c33b202c73ad167f9c6e75da380760c99bdf68e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 02/27] fix: write the output wheel atomically

---
 src/auditwheel/wheeltools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 7328f44..7d5a934 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -15,6 +15,7 @@ from base64 import urlsafe_b64encode
 from datetime import datetime, timezone
 from itertools import product
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import TYPE_CHECKING
 
 from packaging.utils import parse_wheel_filename
@@ -144,7 +145,11 @@ class InWheel(InTemporaryDirectory):
             timestamp = os.environ.get("SOURCE_DATE_EPOCH")
             if timestamp:
                 date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-            dir2zip(self.name, self.out_wheel, self.zip_compression_level, date_time)
+            # never leave a partial archive under the final name
+            with TemporaryDirectory(prefix=".auditwheel-", dir=self.out_wheel.parent) as tmp:
+                tmp_wheel = Path(tmp) / self.out_wheel.name
+                dir2zip(self.name, tmp_wheel, self.zip_compression_level, date_time)
+                tmp_wheel.replace(self.out_wheel)
         return super().__exit__(exc, value, tb)
 
 
-- 
2.43.0


From c814902301138f63a293ed424491941f89ecf364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 03/27] fix: restore the current directory when writing the
 output wheel fails

---
 src/auditwheel/wheeltools.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index 7d5a934..f4a6b09 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -138,19 +138,21 @@ class InWheel(InTemporaryDirectory):
         value: BaseException | None,
         tb: TracebackType | None,
     ) -> None:
-        # a wheel that could not be processed completely shall not be written
-        if exc is None and self.out_wheel is not None:
-            rewrite_record(self.name)
-            date_time = None
-            timestamp = os.environ.get("SOURCE_DATE_EPOCH")
-            if timestamp:
-                date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
-            # never leave a partial archive under the final name
-            with TemporaryDirectory(prefix=".auditwheel-", dir=self.out_wheel.parent) as tmp:
-                tmp_wheel = Path(tmp) / self.out_wheel.name
-                dir2zip(self.name, tmp_wheel, self.zip_compression_level, date_time)
-                tmp_wheel.replace(self.out_wheel)
-        return super().__exit__(exc, value, tb)
+        try:
+            # a wheel that could not be processed completely shall not be written
+            if exc is None and self.out_wheel is not None:
+                rewrite_record(self.name)
+                date_time = None
+                timestamp = os.environ.get("SOURCE_DATE_EPOCH")
+                if timestamp:
+                    date_time = datetime.fromtimestamp(int(timestamp), tz=timezone.utc)
+                # never leave a partial archive under the final name
+                with TemporaryDirectory(prefix=".auditwheel-", dir=self.out_wheel.parent) as tmp:
+                    tmp_wheel = Path(tmp) / self.out_wheel.name
+                    dir2zip(self.name, tmp_wheel, self.zip_compression_level, date_time)
+                    tmp_wheel.replace(self.out_wheel)
+        finally:
+            super().__exit__(exc, value, tb)
 
 
 class InWheelCtx(InWheel):
-- 
2.43.0


From 3d42040f557530422fde4565fb68ce48c3ff2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 04/27] fix: copy a pure wheel to the wheel directory
 atomically

---
 src/auditwheel/main_repair.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 937d4ae..6527ac8 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -5,6 +5,7 @@ import logging
 import shutil
 import zlib
 from pathlib import Path
+from tempfile import TemporaryDirectory
 from typing import Any
 
 from auditwheel import options
@@ -213,7 +214,11 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
             if is_pure_python and args.ALLOW_PURE_PY_WHEEL:
                 dest_fname = wheel_dir / wheel_file.name
                 if not dest_fname.is_file() or not dest_fname.samefile(wheel_file):
-                    shutil.copy2(wheel_file, dest_fname)
+                    # never leave a partial copy under the final name
+                    with TemporaryDirectory(prefix=".auditwheel-", dir=wheel_dir) as tmp_dir:
+                        tmp_fname = Path(tmp_dir) / wheel_file.name
+                        shutil.copy2(wheel_file, tmp_fname)
+                        tmp_fname.replace(dest_fname)
                 # process next wheel
                 continue
             return 1
-- 
2.43.0


From ce193e863b026b8fa1f9f2dd8ec748945df4b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 05/27] fix: tolerate a wheel directory created concurrently

---
 src/auditwheel/main_repair.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index 6527ac8..d9b9bff 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -195,8 +195,8 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
 
         logger.info("Repairing %s", wheel_filename)
 
-        if not wheel_dir.exists():
-            wheel_dir.mkdir(parents=True)
+        # another process may create it at the same time
+        wheel_dir.mkdir(parents=True, exist_ok=True)
 
         try:
             wheel_abi = analyze_wheel_abi(
-- 
2.43.0


From 758cb197486f63435a6b1d42b673b14ed3289e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 06/27] fix: do not drop files of the wheel when a directory
 cannot be listed

---
 src/auditwheel/tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 639a065..7cacf73 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -57,8 +57,13 @@ def walk(topdir: Path) -> Generator[tuple[Path, list[str], list[str]]]:
         List of non-directory file names in `dirpath`
 
     """
+
+    def onerror(error: OSError) -> None:
+        # os.walk skips directories it cannot list by default
+        raise error
+
     topdir = topdir.resolve(strict=True)
-    for dirpath_, dirnames, filenames in os.walk(topdir):
+    for dirpath_, dirnames, filenames in os.walk(topdir, onerror=onerror):
         dirpath = Path(dirpath_)
         # sort list of dirnames in-place such that `os.walk`
         # will recurse into subdirectories in reproducible order
-- 
2.43.0


From 16bd088b2c9d7eafd46ac625f9eb139cb3f32a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 07/27] fix: do not hang on a symbolic link loop in the library
 search path

---
 src/auditwheel/lddtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index af46a8e..8121cfa 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -206,7 +206,10 @@ def readlink(path: str, root: str, *, prefixed: bool = False) -> str:
     if prefixed:
         path = path[len(root) :]
 
-    while os.path.islink(root + path):
+    # same limit as the Linux kernel: a loop never resolves to an existing file
+    for _ in range(40):
+        if not os.path.islink(root + path):
+            break
         path = os.path.join(os.path.dirname(path), os.readlink(root + path))
 
     return normpath((root + path) if prefixed else path)
-- 
2.43.0


From 5457617ff62d1407d509c516a6622dd9624c09fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 08/27] fix: read ld.so.conf includes in a defined order

---
 src/auditwheel/lddtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 8121cfa..0061dd3 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -299,7 +299,7 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                     else:
                         line = os.path.dirname(ldso_conf) + "/" + line
                     log.debug("%s  glob: %s", dbg_pfx, line)
-                    for path in glob.glob(line):
+                    for path in sorted(glob.glob(line)):
                         paths += parse_ld_so_conf(path, root=root, _first=False)
                 else:
                     paths += [normpath(root + line)]
-- 
2.43.0


From 9420ff4763995082f11421dda75ef2cefc6036ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 09/27] fix: make the order of grafted libraries and SBOM
 components reproducible

---
 src/auditwheel/policy/__init__.py | 2 +-
 src/auditwheel/sboms.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/policy/__init__.py b/src/auditwheel/policy/__init__.py
index b55fc59..fb9b4bc 100644
--- a/src/auditwheel/policy/__init__.py
+++ b/src/auditwheel/policy/__init__.py
@@ -282,7 +282,7 @@ class WheelPolicies:
                 )
 
             pol_ext_deps: dict[str, Path | None] = {}
-            for lib in needed_external_libs:
+            for lib in sorted(needed_external_libs):
                 if is_subdir(lddtree.libraries[lib].realpath, wheel_path):
                     # we didn't filter libs that resolved via RPATH out
                     # earlier because we wanted to make sure to pick up
diff --git a/src/auditwheel/sboms.py b/src/auditwheel/sboms.py
index 5d0c049..4b5ee95 100644
--- a/src/auditwheel/sboms.py
+++ b/src/auditwheel/sboms.py
@@ -67,7 +67,7 @@ def create_sbom_for_wheel(
         "dependencies": sbom_dependencies,
     }
 
-    for filepath, provided_by in sbom_packages.items():
+    for filepath, provided_by in sorted(sbom_packages.items()):
         bom_ref = (
             provided_by.purl + f"#{hashlib.sha256(filepath.encode(errors='ignore')).hexdigest()}"
         )
-- 
2.43.0


From 4e1815f6b7bda38e437437740b2dbf92239b8f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 10/27] fix: do not crash when the interpreter of an executable
 is not installed

---
 src/auditwheel/wheel_abi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index b377e3a..9d77c87 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -78,8 +78,8 @@ def _fixup_elf_trees(
         for candidate in resolved_executables:
             for library in candidate.libraries.values():
                 assert library.realpath is not None  # noqa: S101
-                assert library.realpath.is_file()  # noqa: S101
-                if path_to_elf.samefile(library.realpath):
+                # the interpreter of an executable may not be installed on this machine
+                if library.realpath.is_file() and path_to_elf.samefile(library.realpath):
                     return candidate
         return None
 
-- 
2.43.0


From 8ff28801c597a49d9e721a6c8d1715f793362164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 11/27] fix: patch every grafted library when a soname has
 several providers

---
 src/auditwheel/repair.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index b9ca254..1e0f456 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -45,7 +45,10 @@ def repair_wheel(
     if not external_refs_by_fn:
         return None
 
-    soname_map: dict[str, tuple[str, Path]] = {}
+    # the libraries grafted in the wheel, with the new sonames of the libraries
+    # found along with each of them: a soname can be resolved to different
+    # libraries for different files in the wheel
+    grafted: dict[Path, dict[str, str]] = {}
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -74,6 +77,7 @@ def repair_wheel(
         for fn, v in external_refs_by_fn.items():
             ext_libs = v[abis[0]].libs
             replacements: list[tuple[str, str]] = []
+            new_sonames: dict[str, str] = {}
             for soname, src_path in ext_libs.items():
                 # Handle libpython dependencies by removing them
                 if LIBPYTHON_RE.match(soname):
@@ -97,7 +101,8 @@ def repair_wheel(
                     dest_dir.mkdir()
                 sbom_filepaths.append(src_path)
                 new_soname, new_path = copylib(src_path, dest_dir, patcher)
-                soname_map[soname] = (new_soname, new_path)
+                new_sonames[soname] = new_soname
+                grafted.setdefault(new_path, new_sonames)
                 replacements.append((soname, new_soname))
             if replacements:
                 patcher.replace_needed(fn, *replacements)
@@ -116,12 +121,12 @@ def repair_wheel(
         # we need to update those records so each now knows about the new
         # name of the other.
         # we also clear or set RPATH depending on the presence of internal dependencies
-        for _, path in soname_map.values():
+        for path, new_sonames in grafted.items():
             needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
             replacements = []
             for n in needed:
-                if n in soname_map:
-                    replacements.append((n, soname_map[n][0]))
+                if n in new_sonames:
+                    replacements.append((n, new_sonames[n]))
             if replacements:
                 patcher.set_rpath(path, "$ORIGIN")
                 patcher.replace_needed(path, *replacements)
@@ -131,9 +136,8 @@ def repair_wheel(
         # strip before applying ELF patches to reduce chances of an invalid ELF being produced
         # as seen in https://github.com/pypa/auditwheel/issues/716
         if strip:
-            libs_to_strip = [path for (_, path) in soname_map.values()]
             extensions = [script_shims.get(path, path) for path in external_refs_by_fn]
-            strip_symbols(itertools.chain(libs_to_strip, extensions))
+            strip_symbols(itertools.chain(grafted, extensions))
 
         patcher.apply_updates()
 
-- 
2.43.0


From acbd413aa3f718e8f1e0b28be95d47a2576c9632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 12/27] fix: remove the libpython dependency from grafted
 libraries too

---
 src/auditwheel/repair.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 1e0f456..9a59372 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -49,6 +49,7 @@ def repair_wheel(
     # found along with each of them: a soname can be resolved to different
     # libraries for different files in the wheel
     grafted: dict[Path, dict[str, str]] = {}
+    removed_sonames: set[str] = set()
 
     out_dir = out_dir.resolve(strict=True)
     wheel_fname = wheel_path.name
@@ -88,6 +89,7 @@ def repair_wheel(
                         str(fn),
                     )
                     patcher.remove_needed(fn, soname)
+                    removed_sonames.add(soname)
                     continue
 
                 if src_path is None:
@@ -125,7 +127,9 @@ def repair_wheel(
             needed = elf_read_dt_needed(path)  # TODO perf, we already read those at some point
             replacements = []
             for n in needed:
-                if n in new_sonames:
+                if n in removed_sonames:
+                    patcher.remove_needed(path, n)
+                elif n in new_sonames:
                     replacements.append((n, new_sonames[n]))
             if replacements:
                 patcher.set_rpath(path, "$ORIGIN")
-- 
2.43.0


From afe683b29cd119a5a542b205e3d29491c7db0978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 13/27] fix: do not reuse loader paths relative to another
 directory

---
 src/auditwheel/lddtree.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 0061dd3..be51059 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -320,6 +320,7 @@ def load_ld_paths(
     libc: Libc | None,
     root: str = "/",
     prefix: str = "",
+    cwd: str | None = None,  # noqa: ARG001
 ) -> dict[str, list[str]]:
     """Load linker paths from common locations
 
@@ -331,6 +332,9 @@ def load_ld_paths(
         The root tree to prepend to paths
     prefix
         The path under ``root`` to search
+    cwd
+        The current directory, used to resolve the empty and relative paths of
+        the environment: results are not shared between different directories
 
     Returns
     -------
@@ -521,7 +525,7 @@ def ldd(
                 # if we have an interpreter and it's not MUSL, assume GLIBC
                 libc = Libc.MUSL if soname.startswith("ld-musl-") else Libc.GLIBC
                 if ldpaths is None:
-                    ldpaths = load_ld_paths(libc).copy()
+                    ldpaths = load_ld_paths(libc, cwd=os.getcwd()).copy()
                 # TODO: Should read it and scan for /lib paths.
                 ldpaths["interp"] = [
                     normpath(root + os.path.dirname(interp)),
@@ -580,7 +584,7 @@ def ldd(
                     libc = Libc.GLIBC
 
         if ldpaths is None:
-            ldpaths = load_ld_paths(libc).copy()
+            ldpaths = load_ld_paths(libc, cwd=os.getcwd()).copy()
         # Propagate the rpaths used by the main ELF since those will be
         # used at runtime to locate things.
         ldpaths["rpath"] = rpaths
-- 
2.43.0


From c3b3aa82e5eff17958bb8288776f5b1445674970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:18 +0000
Subject: [PATCH 14/27] fix: do not fail when the clock is before 1980

---
 src/auditwheel/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 7cacf73..104b41d 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -165,13 +165,13 @@ def dir2zip(
         for dname, _, files in walk(in_dir):
             if dname != in_dir:
                 out_dname = f"{dname.relative_to(in_dir)}/"
-                zinfo = zipfile.ZipInfo.from_file(dname, out_dname)
+                zinfo = zipfile.ZipInfo.from_file(dname, out_dname, strict_timestamps=False)
                 zinfo.date_time = date_time_args
                 z.writestr(zinfo, b"")
             for file in files:
                 fname = dname / file
                 out_fname = fname.relative_to(in_dir)
-                zinfo = zipfile.ZipInfo.from_file(fname, out_fname)
+                zinfo = zipfile.ZipInfo.from_file(fname, out_fname, strict_timestamps=False)
                 zinfo.date_time = date_time_args
                 zinfo.compress_type = compression
                 with fname.open("rb") as fp:
-- 
2.43.0


From 69a3b53d7a5782b7624fbecc2a37243f1133a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 15/27] fix: do not cut the name of an Alpine package at its
 first dash

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index fa3e3fe..41f19d1 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -18,7 +18,7 @@ __all__ = ["ProvidedBy", "whichprovides"]
 __version__ = "0.4.0"
 
 _OS_RELEASE_LINES_RE = re.compile(r"^([A-Z_]+)=(?:\"([^\"]*)\"|(.*))$", re.MULTILINE)
-_APK_WHO_OWNS_RE = re.compile(r" is owned by ([^\s\-]+)-([^\s]+)$", re.MULTILINE)
+_APK_WHO_OWNS_RE = re.compile(r" is owned by ([^\s]+?)-(\d[^\s\-]*(?:-r\d+)?)$", re.MULTILINE)
 _DPKG_SEARCH_RE = re.compile(r"^([^:]+):")
 _DPKG_VERSION_RE = re.compile(r"^Version: ([^\s]+)", re.MULTILINE)
 _APT_FILE_SEARCH_RE = re.compile(r"^([^:]+): (.+)$", re.MULTILINE)
-- 
2.43.0


From 2a05a48f40848526135b8c71ea2d71f6fe8ce802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 16/27] fix: ignore the files apt-file lists besides the
 grafted ones

---
 src/auditwheel/_vendor/whichprovides/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/auditwheel/_vendor/whichprovides/__init__.py b/src/auditwheel/_vendor/whichprovides/__init__.py
index 41f19d1..6998c3b 100644
--- a/src/auditwheel/_vendor/whichprovides/__init__.py
+++ b/src/auditwheel/_vendor/whichprovides/__init__.py
@@ -273,6 +273,9 @@ class AptFilePackageProvider(PackageProvider):
                 ),
             ).decode()
             for package_name, filepath in _APT_FILE_SEARCH_RE.findall(stdout):
+                # apt-file also lists the files whose path contains the pattern
+                if filepath not in filepaths:
+                    continue
                 stdout = subprocess.check_output(
                     [apt_bin, "show", package_name],
                     stderr=subprocess.DEVNULL,
-- 
2.43.0


From 35cba5e626090ccfafbbfc76a34fce89cda5fa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:27 +0000
Subject: [PATCH 17/27] fix: do not reuse the analysis of a wheel file that was
 replaced

---
 src/auditwheel/wheel_abi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index 9d77c87..bfcd2b2 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -124,6 +124,7 @@ def get_wheel_elfdata(
     wheel_fn: Path,
     exclude: frozenset[str],
     args_ldpaths: str | None,
+    wheel_id: tuple[int, ...] | None = None,  # noqa: ARG001
 ) -> WheelElfData:
     full_elftree: dict[Path, DynamicExecutable] = {}
     nonpy_elftree: dict[Path, DynamicExecutable] = {}
@@ -444,7 +445,10 @@ def analyze_wheel_abi(
     requested_policy_base_name: str | None = None,
     args_ldpaths: str | None = None,
 ) -> WheelAbIInfo:
-    data = get_wheel_elfdata(libc, architecture, wheel_fn, exclude, args_ldpaths)
+    # the file at this path might have been replaced since a previous analysis
+    st = wheel_fn.stat()
+    wheel_id = (st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns)
+    data = get_wheel_elfdata(libc, architecture, wheel_fn, exclude, args_ldpaths, wheel_id)
     policies = data.policies
     elftree_by_fn = data.full_elftree
     external_refs_by_fn = data.full_external_refs
-- 
2.43.0


From 2f3063ea7dad1715d425203edd9c0ffd88c95c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 18/27] fix: read file names with line separator characters
 from RECORD

str.splitlines() also splits at characters such as U+2028, which the csv
module neither quotes nor considers to be the end of a row.
---
 src/auditwheel/wheeltools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auditwheel/wheeltools.py b/src/auditwheel/wheeltools.py
index f4a6b09..2ba6b77 100644
--- a/src/auditwheel/wheeltools.py
+++ b/src/auditwheel/wheeltools.py
@@ -194,9 +194,10 @@ class InWheelCtx(InWheel):
             msg = "This function should be called from context manager"
             raise ValueError(msg)
         record_name = _dist_info_dir(self.path) / "RECORD"
-        record = record_name.read_text()
-        reader = csv.reader(r for r in record.splitlines())
-        for row in reader:
+        # same format as written by rewrite_record: file names may contain any character
+        with record_name.open(newline="", encoding="utf-8") as record_file:
+            rows = list(csv.reader(record_file))
+        for row in rows:
             filename = row[0]
             yield Path(filename)
 
-- 
2.43.0


From 7aee2390e48c33b8a4087206c942979256606c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:49 +0000
Subject: [PATCH 19/27] fix: write directories with the same permissions
 whatever the umask

zip2dir documents that dir2zip always rebuilds directories as 755, but those
that are created on the way (no entry of their own in the archive, or for the
grafted libraries) had the permissions left by the umask, and repairing the
wheel again then changed them.
---
 src/auditwheel/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/auditwheel/tools.py b/src/auditwheel/tools.py
index 104b41d..8b30905 100644
--- a/src/auditwheel/tools.py
+++ b/src/auditwheel/tools.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import argparse
 import logging
 import os
+import stat
 import subprocess
 import time
 import zipfile
@@ -166,6 +167,9 @@ def dir2zip(
             if dname != in_dir:
                 out_dname = f"{dname.relative_to(in_dir)}/"
                 zinfo = zipfile.ZipInfo.from_file(dname, out_dname, strict_timestamps=False)
+                # whatever the umask when the directory was created
+                zinfo.external_attr = (stat.S_IFDIR | 0o755) << 16
+                zinfo.external_attr |= 0x10  # MS-DOS directory flag
                 zinfo.date_time = date_time_args
                 z.writestr(zinfo, b"")
             for file in files:
-- 
2.43.0


From 4ef141e1f4c710845d87afc5ea5d595167687a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 20/27] fix: do not strip files that have no symbols

---
 src/auditwheel/elfutils.py | 9 +++++++++
 src/auditwheel/repair.py   | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/elfutils.py b/src/auditwheel/elfutils.py
index 7f1b131..e8177e6 100644
--- a/src/auditwheel/elfutils.py
+++ b/src/auditwheel/elfutils.py
@@ -39,6 +39,15 @@ def elf_read_dt_needed(fn: Path) -> list[str]:
     return needed
 
 
+def elf_has_symbol_table(fn: Path) -> bool:
+    """Does the file have symbols or debug information that ``strip`` removes?"""
+    with fn.open("rb") as f:
+        return any(
+            section["sh_type"] == "SHT_SYMTAB" or section.name.startswith((".debug", ".zdebug"))
+            for section in ELFFile(f).iter_sections()
+        )
+
+
 def elf_file_filter(paths: Iterable[Path]) -> Iterator[tuple[Path, ELFFile]]:
     """Filter through an iterator of filenames and load up only ELF
     files
diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index 9a59372..fcf71a2 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -11,7 +11,7 @@ from pathlib import Path
 from subprocess import check_call
 from typing import TYPE_CHECKING
 
-from auditwheel.elfutils import elf_read_dt_needed
+from auditwheel.elfutils import elf_has_symbol_table, elf_read_dt_needed
 from auditwheel.hashfile import hashfile
 from auditwheel.lddtree import LIBPYTHON_RE
 from auditwheel.policy import get_replace_platforms
@@ -165,6 +165,10 @@ def repair_wheel(
 
 def strip_symbols(libraries: Iterable[Path]) -> None:
     for lib in libraries:
+        # strip can damage an ELF file that was laid out by patchelf, do not run it
+        # needlessly on the libraries of a wheel that has already been repaired
+        if not elf_has_symbol_table(lib):
+            continue
         logger.info("Stripping symbols from %s", lib)
         check_call(["strip", "-s", lib])
 
-- 
2.43.0


From c8e8b9360c0042b7a642f125c809a7ef6dfd8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 21/27] fix: count the symbol versions of every library with
 the same soname

---
 src/auditwheel/wheel_abi.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index bfcd2b2..c62d777 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -306,14 +306,14 @@ def get_versioned_symbols(libs: dict[Path, str]) -> dict[str, dict[str, set[str]
     :return: {soname: {depname: set([symbol_version])}} e.g.
     {'external_ref.so.1': {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}}
     """
-    result = {}
+    result: dict[str, dict[str, set[str]]] = {}
     for path, elf in elf_file_filter(libs.keys()):
         # {depname: set(symbol_version)}, e.g. {'libc.so.6', set(['GLIBC_2.5','GLIBC_2.12'])}
-        elf_versioned_symbols: dict[str, set[str]] = defaultdict(set)
+        # several libraries can have the same soname
+        elf_versioned_symbols = result.setdefault(libs[path], defaultdict(set))
         for key, value in elf_find_versioned_symbols(elf):
             log.debug("path %s, key %s, value %s", path, key, value)
             elf_versioned_symbols[key].add(value)
-        result[libs[path]] = elf_versioned_symbols
     return result
 
 
@@ -464,7 +464,10 @@ def analyze_wheel_abi(
     log.debug("external reference info")
     log.debug(json.dumps(external_refs))
 
-    external_libs = get_external_libs(external_refs)
+    # a soname can be resolved to different libraries for different files in the wheel
+    external_libs: dict[Path, str] = {}
+    for refs in external_refs_by_fn.values():
+        external_libs.update(get_external_libs(refs))
     external_versioned_symbols = get_versioned_symbols(external_libs)
     symbol_policies = get_symbol_policies(
         policies,
-- 
2.43.0


From 39031231f6832dba43276bc0bf4837ab58ed699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 22/27] fix: read every pattern of an include line in
 ld.so.conf

---
 src/auditwheel/lddtree.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index be51059..16fd3d7 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -292,15 +292,16 @@ def parse_ld_so_conf(ldso_conf: str, *, root: str = "/", _first: bool = True) ->
                 line = input_line.split("#", 1)[0].strip()
                 if not line:
                     continue
-                if line.startswith("include "):
-                    line = line[8:]
-                    if line[0] == "/":
-                        line = root + line.lstrip("/")
-                    else:
-                        line = os.path.dirname(ldso_conf) + "/" + line
-                    log.debug("%s  glob: %s", dbg_pfx, line)
-                    for path in sorted(glob.glob(line)):
-                        paths += parse_ld_so_conf(path, root=root, _first=False)
+                if line.startswith(("include ", "include\t")):
+                    # there can be several patterns
+                    for pattern in line[8:].split():
+                        if pattern[0] == "/":
+                            pattern = root + pattern.lstrip("/")
+                        else:
+                            pattern = os.path.dirname(ldso_conf) + "/" + pattern
+                        log.debug("%s  glob: %s", dbg_pfx, pattern)
+                        for path in sorted(glob.glob(pattern)):
+                            paths += parse_ld_so_conf(path, root=root, _first=False)
                 else:
                     paths += [normpath(root + line)]
     except OSError as e:
-- 
2.43.0


From e05de48898247c890bf83608021804b33a38f96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 23/27] fix: split the musl library path file at newlines too

---
 src/auditwheel/lddtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 16fd3d7..5cfb37a 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -375,7 +375,8 @@ def load_ld_paths(
             ]
         else:
             ldpaths["conf"] = []
-            for ldpath in ld_musl[0].read_text().split(":"):
+            # colons and newlines are separators
+            for ldpath in re.split("[:\n]", ld_musl[0].read_text()):
                 ldpath_stripped = ldpath.strip()
                 if ldpath_stripped == "":
                     continue
-- 
2.43.0


From 2e4f714b809ecbee7ad7ef660bb8dc1172569671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:01 +0000
Subject: [PATCH 24/27] fix: ignore the rpath of a file whose runpath names no
 existing directory

---
 src/auditwheel/lddtree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/lddtree.py b/src/auditwheel/lddtree.py
index 5cfb37a..eb7eaa8 100644
--- a/src/auditwheel/lddtree.py
+++ b/src/auditwheel/lddtree.py
@@ -502,6 +502,7 @@ def ldd(
     needed: list[str] = []
     rpaths: list[str] = []
     runpaths: list[str] = []
+    has_runpath = False
 
     with open(path, "rb") as f:
         elf = ELFFile(f)
@@ -546,10 +547,11 @@ def ldd(
                 if t.entry.d_tag == "DT_RPATH":
                     rpaths = parse_ld_paths(t.rpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_RUNPATH":
+                    has_runpath = True
                     runpaths = parse_ld_paths(t.runpath, path=str(path), root=root)  # type: ignore[attr-defined]
                 elif t.entry.d_tag == "DT_NEEDED":
                     needed.append(t.needed)  # type: ignore[attr-defined]
-            if runpaths:
+            if has_runpath:
                 # If both RPATH and RUNPATH are set, only the latter is used.
                 rpaths = []
 
-- 
2.43.0


From 09719136eb4444eaaf96e772397272857782ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:31 +0000
Subject: [PATCH 25/27] fix: keep the components of the SBOM of an earlier
 repair

---
 src/auditwheel/repair.py |  7 +++++--
 src/auditwheel/sboms.py  | 23 +++++++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/auditwheel/repair.py b/src/auditwheel/repair.py
index fcf71a2..5d5d784 100644
--- a/src/auditwheel/repair.py
+++ b/src/auditwheel/repair.py
@@ -15,7 +15,7 @@ from auditwheel.elfutils import elf_has_symbol_table, elf_read_dt_needed
 from auditwheel.hashfile import hashfile
 from auditwheel.lddtree import LIBPYTHON_RE
 from auditwheel.policy import get_replace_platforms
-from auditwheel.sboms import create_sbom_for_wheel
+from auditwheel.sboms import create_sbom_for_wheel, keep_sbom_components
 from auditwheel.tools import is_subdir, unique_by_index
 from auditwheel.wheeltools import WHEEL_INFO_RE, InWheelCtx, add_platforms
 
@@ -158,7 +158,10 @@ def repair_wheel(
         if sbom_data:
             sbom_dir = Path(dist_info_dirs[0], "sboms")
             sbom_dir.mkdir(exist_ok=True)
-            (sbom_dir / "auditwheel.cdx.json").write_text(json.dumps(sbom_data))
+            sbom_path = sbom_dir / "auditwheel.cdx.json"
+            if sbom_path.is_file():
+                keep_sbom_components(sbom_data, sbom_path.read_bytes())
+            sbom_path.write_text(json.dumps(sbom_data))
 
     return output_wheel
 
diff --git a/src/auditwheel/sboms.py b/src/auditwheel/sboms.py
index 4b5ee95..4861ff1 100644
--- a/src/auditwheel/sboms.py
+++ b/src/auditwheel/sboms.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
 
 import hashlib
+import json
+import logging
 import typing
 from importlib import metadata
 from typing import TYPE_CHECKING
@@ -12,6 +14,8 @@ from auditwheel.wheeltools import WHEEL_INFO_RE
 if TYPE_CHECKING:
     from pathlib import Path
 
+logger = logging.getLogger(__name__)
+
 
 def create_sbom_for_wheel(
     wheel_fname: str,
@@ -84,3 +88,22 @@ def create_sbom_for_wheel(
         sbom_dependencies.append({"ref": bom_ref})
 
     return sbom_data
+
+
+def keep_sbom_components(sbom_data: dict[str, typing.Any], previous: bytes) -> None:
+    """Add the components of the SBOM written by a previous repair of the wheel."""
+    try:
+        components = json.loads(previous)["components"]
+        # the first component is the wheel itself
+        kept = [(component["bom-ref"], component) for component in components[1:]]
+    except (ValueError, KeyError, TypeError):
+        logger.warning("Could not read the components of the existing SBOM")
+        return
+    known = {component["bom-ref"] for component in sbom_data["components"]}
+    for bom_ref, component in kept:
+        if bom_ref in known:
+            continue
+        known.add(bom_ref)
+        sbom_data["components"].append(component)
+        sbom_data["dependencies"][0]["dependsOn"].append(bom_ref)
+        sbom_data["dependencies"].append({"ref": bom_ref})
-- 
2.43.0


From b42e1609d8659715cd117bae5bd3dc180d5b8a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 26/27] fix: do not give a wheel that uses fpectl a platform
 tag it does not meet

---
 src/auditwheel/main_repair.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/auditwheel/main_repair.py b/src/auditwheel/main_repair.py
index d9b9bff..d926a2d 100644
--- a/src/auditwheel/main_repair.py
+++ b/src/auditwheel/main_repair.py
@@ -250,6 +250,14 @@ def execute(args: argparse.Namespace, parser: argparse.ArgumentParser) -> int:
             )
             parser.error(msg)
 
+        if requested_policy > wheel_abi.pyfpe_policy:
+            msg = (
+                f'cannot repair "{wheel_file}" to "{plat}" ABI because it uses the '
+                "PyFPE_jbuf function. You'll need to compile the wheel against a "
+                "build of Python without fpectl."
+            )
+            parser.error(msg)
+
         if requested_policy > wheel_abi.blacklist_policy:
             msg = (
                 f'cannot repair "{wheel_file}" to "{plat}" ABI because it '
-- 
2.43.0


From faf1a90c1a77a895f95a4db2794b66d9fe6fdcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:14 +0000
Subject: [PATCH 27/27] fix: give the higher priority tag also when the
 platform is asked for by its legacy name

The requested policy was looked for by its name only, so that with --plat
manylinux2014_x86_64 a wheel with grafted libraries was not found eligible
for a higher priority tag, while the same request as manylinux_2_17_x86_64,
or repairing the repaired wheel once more, gives one.
---
 src/auditwheel/wheel_abi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/auditwheel/wheel_abi.py b/src/auditwheel/wheel_abi.py
index c62d777..d81109b 100644
--- a/src/auditwheel/wheel_abi.py
+++ b/src/auditwheel/wheel_abi.py
@@ -507,7 +507,10 @@ def analyze_wheel_abi(
             (
                 len(e.libs)
                 for e in external_refs.values()
-                if e.policy.name.startswith(f"{requested_policy_base_name}_")
+                if any(
+                    name.startswith(f"{requested_policy_base_name}_")
+                    for name in (e.policy.name, *e.policy.aliases)
+                )
             ),
             default=0,
         )
-- 
2.43.0

