From e74fa16532f759fdd1823943e026bad10c595852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 01/44] fix: keep != constraints when simplifying requirements

---
 ipkg/requirements.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 5c871b7..31386f8 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -294,4 +294,10 @@ def remove_useless_version_selectors(version_selectors):
     if l_selector:
         result.append(l_selector)
 
+    for ne_ver in sorted(selectors[operator.ne]):
+        if eq_ver is not None and ne_ver == eq_ver:
+            # == 1, != 1
+            raise ExclusiveVersionRequirements(operator.ne, eq_ver)
+        result.append((operator.ne, ne_ver))
+
     return result
-- 
2.43.0


From 2cf7e8b37b76055e78d7ae1854660671152fc627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 02/44] fix: define the exceptions raised for malformed version
 requirements

---
 ipkg/files/backends/__init__.py |  2 +-
 ipkg/requirements.py            | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/ipkg/files/backends/__init__.py b/ipkg/files/backends/__init__.py
index 62e6a17..c66ce43 100644
--- a/ipkg/files/backends/__init__.py
+++ b/ipkg/files/backends/__init__.py
@@ -58,4 +58,4 @@ class BaseFile(object):
         return 0
 
     def read(self, *args):
-        raise NotImplentedError
+        raise NotImplementedError
diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 31386f8..e3ba9f1 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -29,6 +29,16 @@ class InvalidRequirement(IpkgException):
     MESSAGE = 'Invalid requirement: %s'
 
 
+class InvalidRequirementVersion(InvalidRequirement):
+
+    MESSAGE = 'Invalid version requirement: %s'
+
+
+class InvalidRequirementVersionOperator(InvalidRequirement):
+
+    MESSAGE = 'Invalid version requirement operator: %s'
+
+
 class ExclusiveVersionRequirements(InvalidRequirement):
 
     MESSAGE = 'Exclusive version requirements for operator %s: %s'
-- 
2.43.0


From 2f867ff690cee26d37ffd2c6e0423ff54c0e2fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:18 +0000
Subject: [PATCH 03/44] fix: make requirement comparison total and consistent
 with hashing

---
 ipkg/requirements.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index e3ba9f1..ac5a84d 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -57,23 +57,29 @@ class Requirement(object):
         self.platform = platform
         self.name, self.extras, self.versions = parse(package)
 
+    def __key(self):
+        return (str(self.platform), self.name,
+                tuple(self.extras), tuple(self.versions))
+
     def __hash__(self):
-        return hash(str(self.platform)) ^ hash(self.name) ^ \
-            hash(tuple(self.extras)) ^ hash(tuple(self.versions))
+        return hash(self.__key())
 
     def __eq__(self, other):
         if isinstance(other, Requirement):
-            return str(self) == str(other)
+            return self.__key() == other.__key()
         elif isinstance(other, basestring):
             try:
                 requirement = Requirement(other)
-            except InvalidRequirement:
+            except (InvalidRequirement, InvalidPlatform):
                 return False
             else:
-                return str(self) == str(requirement)
+                return self.__key() == requirement.__key()
         else:
             return False
 
+    def __ne__(self, other):
+        return not (self == other)
+
     def __make_extras_str(self, extras):
         return '[' + ','.join(extras) + ']' if extras else ''
 
-- 
2.43.0


From 4005410320f12a13ffdd971aae782462e2e1aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 04/44] fix: merge requirements without going through a lossy
 string

---
 ipkg/requirements.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index ac5a84d..faeb9e3 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -117,11 +117,13 @@ class Requirement(object):
             raise InvalidRequirement(other)
         if self.platform != other.platform:
             raise InvalidPlatform(other.platform)
-        extras_str = self.__make_extras_str(set(self.extras + other.extras))
-        versions_str = self.__make_versions_str(
-            set(self.versions + other.versions))
-        return Requirement('%s:%s%s%s' % (self.platform, self.name,
-                                          extras_str, versions_str))
+        merged = Requirement(self.name)
+        merged.platform = self.platform
+        merged.extras = self.extras + [extra for extra in other.extras
+                                       if extra not in self.extras]
+        merged.versions = remove_useless_version_selectors(
+            self.versions + other.versions)
+        return merged
 
     def satisfied_by_version(self, version):
         if isinstance(version, basestring):
-- 
2.43.0


From b67e2de4e7e2ef9aee680326195604cb9aa020eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 05/44] fix: let objects without a platform satisfy
 requirements

---
 ipkg/platforms.py    | 3 +++
 ipkg/requirements.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/ipkg/platforms.py b/ipkg/platforms.py
index 0794983..061ef0c 100644
--- a/ipkg/platforms.py
+++ b/ipkg/platforms.py
@@ -31,6 +31,9 @@ class Platform(object):
             except InvalidPlatform:
                 return False
 
+        elif not isinstance(platform, Platform):
+            return False
+
         return (('any' in (self.os_name, platform.os_name) or
                  self.os_name == platform.os_name) and
                 ('any' in (self.os_release, platform.os_release) or
diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index faeb9e3..0ec1b82 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -141,6 +141,7 @@ class Requirement(object):
                 self.satisfied_by_version(obj.get('version'))
         else:
             return (not hasattr(obj, 'platform') or
+                    obj.platform is None or
                     obj.platform == self.platform) and \
                 hasattr(obj, 'name') and \
                 obj.name == self.name and \
-- 
2.43.0


From f1da5f866fbc25eb88d6298fc18d8c3f36cc52e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 06/44] fix: use the given parser to select the most recent
 version

---
 ipkg/versions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/versions.py b/ipkg/versions.py
index 9b352fa..64a4d9f 100644
--- a/ipkg/versions.py
+++ b/ipkg/versions.py
@@ -44,4 +44,4 @@ def most_recent(versions, parser=parse):
     * ``versions`` must be an iterable of versions.
     * ``parser`` defaults to ``parse`` which parses version strings.
     """
-    return sorted(versions, reverse=True)[0]
+    return sorted(versions, parser, reverse=True)[0]
-- 
2.43.0


From c64abd86704ec9d42b8cab7549f64f8a9ef41e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 07/44] fix: uninstall the replaced version of a package by
 name

---
 ipkg/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index d72abc8..eaab527 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -353,7 +353,7 @@ class Environment(object):
                     # Different version/revision, uninstall it
                     LOGGER.debug('Another version of %r is installed, '
                                  'uninstalling it first' % package)
-                    self.uninstall(package)
+                    self.uninstall(package.name)
                 break
 
         # Install dependencies
-- 
2.43.0


From c4db0464682a40bdd293cd3bf364db784a3e8201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 08/44] fix: save metadata files atomically

---
 ipkg/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index c1ab436..8e2f256 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -81,8 +81,12 @@ class DictFile(dict):
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
         # This will break if trying to call save() on a remote DictFile
-        with open(self.__file_path, 'w') as f:
+        # Write to a temporary file first: the previous content remains until
+        # the new one is complete
+        tmp_path = self.__file_path + '.tmp'
+        with open(tmp_path, 'w') as f:
             json.dump(self, f, indent=4)
+        os.rename(tmp_path, self.__file_path)
 
 
 def execute(command,
-- 
2.43.0


From 017dd2ad2a47cdd773451397207cf7e90ed9a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 09/44] fix: clear dictionaries whose file does not exist

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 8e2f256..483483d 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -76,7 +76,7 @@ class DictFile(dict):
         """
         if os.path.isfile(self.__file_path):
             os.unlink(self.__file_path)
-            super(DictFile, self).clear()
+        super(DictFile, self).clear()
 
     def save(self):
         LOGGER.debug('Writing %s', self.__file_path)
-- 
2.43.0


From 0e92eafc1bd93bccf4fe8090a926f07747ec7aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 10/44] fix: refuse archives and packages with members outside
 the target

---
 ipkg/packages.py |  5 +++++
 ipkg/utils.py    | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index d7923ba..adfc9c3 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -6,6 +6,7 @@ import logging
 from .files import vopen
 from .exceptions import IpkgException
 from .mixins import NameVersionRevisionComparable
+from .utils import check_relative_path, check_tar_members
 
 
 LOGGER = logging.getLogger(__name__)
@@ -71,6 +72,10 @@ class PackageFile(MetaPackage):
         """
         LOGGER.debug('Extracting %s in %s', self, path)
         files = [m for m in self._tarfile.getmembers() if m.path != META_FILE]
+        check_tar_members(files)
+        # These files are later rewritten and removed
+        for name in self.meta['files']:
+            check_relative_path(name)
         self._tarfile.extractall(path, files)
 
 
diff --git a/ipkg/utils.py b/ipkg/utils.py
index 483483d..3aca5e0 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -195,6 +195,34 @@ def which(command):
             return path
 
 
+def check_relative_path(path):
+    """Raise an exception if ``path`` is not a path below the directory it is
+       relative to.
+    """
+    if os.path.isabs(path) or '..' in path.split('/'):
+        raise IpkgException('Unsafe path: %s' % path)
+
+
+def check_tar_members(members):
+    """Raise an exception if extracting the tar archive ``members`` could
+       touch files outside the target directory.
+    """
+    links = set()
+    for member in members:
+        check_relative_path(member.name)
+        name = os.path.normpath(member.name)
+        parent = os.path.dirname(name)
+        while parent:
+            # Extracting it would follow a link found in the archive
+            if parent in links:
+                raise IpkgException('Unsafe path: %s' % member.name)
+            parent = os.path.dirname(parent)
+        if member.islnk():
+            check_relative_path(member.linkname)
+        if member.issym() or member.islnk():
+            links.add(name)
+
+
 def unarchive(fileobj, target):
     """Extract an archive, detecting its format.
 
@@ -216,10 +244,13 @@ def unarchive(fileobj, target):
     tar_extensions = (['tar', 'bz2'], ['tar', 'gz'], ['tar', 'xz'])
     if filename.split('.')[-2:] in tar_extensions:
         archive = tarfile.open(fileobj=fileobj)
+        check_tar_members(archive.getmembers())
         root_items = set(i.path.split('/')[0] for i in archive)
 
     elif filename.endswith('.zip'):
         archive = zipfile.ZipFile(fileobj)
+        for info in archive.filelist:
+            check_relative_path(info.filename)
         root_items = set(i.filename.split('/')[0] for i in
                          archive.filelist)
 
-- 
2.43.0


From 01165de34781e6c8f17eb61ca352b48cc108136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 11/44] fix: keep text files without the line to rewrite

---
 ipkg/prefix_rewriters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index cd1960b..221d9bc 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -43,7 +43,7 @@ def rewrite_text_first_match(file_path, line_start, build_prefix,
         lines = f.readlines()
 
     with open(file_path, 'w') as f:
-        while True:
+        while lines:
             line = lines.pop(0)
 
             if line.startswith(line_start):
-- 
2.43.0


From 21dec321b5d09ea6092f79c67284c30047a5d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 12/44] fix: accept any text as the value of an environment
 variable

---
 ipkg/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index eaab527..31e679d 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -232,7 +232,7 @@ class EnvironmentVariables(dict):
         for var_name, var_value in variables.items():
             try:
                 var_value = var_value % self.__directories
-            except KeyError:
+            except (KeyError, TypeError, ValueError):
                 # invalid format string ?
                 pass
 
-- 
2.43.0


From e8dab5f3aae9f22b32417fde7266be470ca82540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 13/44] fix: list files relative to the base directory however
 it is spelled

---
 ipkg/build.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 9fa1a90..1a8cb53 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -41,10 +41,12 @@ def find_files(base):
     """Create a list of files in prefix ``base``.
     """
     result = []
-    for parent, _, files in os.walk(base):
-        rel_dir = parent.split(base)[1][1:]
-        for filename in files:
-            result.append(os.path.join(rel_dir, filename))
+    for parent, directories, files in os.walk(base):
+        links = [name for name in directories
+                 if os.path.islink(os.path.join(parent, name))]
+        for filename in files + links:
+            result.append(os.path.relpath(os.path.join(parent, filename),
+                                          base))
     return result
 
 
-- 
2.43.0


From d25adbf40b0c51aa4461be1e4117a5c7998401dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 14/44] fix: uninstall only the packages installed for the
 build

---
 ipkg/build.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 1a8cb53..ed3170a 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -18,6 +18,7 @@ from .mixins import NameVersionRevisionComparable
 from .utils import unarchive, mkdir
 from .compat import basestring, StringIO
 from .platforms import Platform
+from .requirements import Requirement
 
 
 LOGGER = logging.getLogger(__name__)
@@ -163,10 +164,14 @@ class Formula(NameVersionRevisionComparable):
         if self.dependencies:
             LOGGER.info('Build dependencies: %s',
                         ', '.join(self.dependencies))
+            installed_before = [p.name for p in self.environment.packages]
             for dependency in self.dependencies:
-                if dependency not in self.environment.packages:
+                requirement = Requirement(dependency)
+                if not any(requirement.satisfied_by(package)
+                           for package in self.environment.packages):
                     self.environment.install(dependency, repository)
-                    installed_dependencies.append(dependency)
+            installed_dependencies = [p.name for p in self.environment.packages
+                                      if p.name not in installed_before]
 
         # Create the sources root directory
         self.src_root = src_root = os.path.join(build_dir, 'sources')
@@ -202,9 +207,9 @@ class Formula(NameVersionRevisionComparable):
             package_file_path = os.path.join(env_prefix, package_file)
             os.unlink(package_file_path)
 
-        if self.dependencies:
+        if installed_dependencies:
             LOGGER.debug('Uninstalling dependencies from build environment')
-            for dependency in self.dependencies:
+            for dependency in installed_dependencies:
                 self.environment.uninstall(dependency)
 
         if remove_build_dir:
-- 
2.43.0


From d54cdb0a8afd7e4c03b63df274adad3ef7e07136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 15/44] fix: always end when building all formulas

---
 ipkg/repositories.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index a0c3017..15b0eb2 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -151,15 +151,28 @@ class LocalPackageRepository(PackageRepository):
                 formulas.append(formula_cls(environment, verbose))
         LOGGER.debug('Formulas: %r', formulas)
 
+        # formulas delayed since the last build attempt
+        delayed = 0
+
+        def satisfied(dependency, packages):
+            try:
+                requirement = Requirement(dependency)
+            except IpkgException:
+                # Reported when building the formula
+                return False
+            return any(requirement.satisfied_by(p) for p in packages)
+
         while formulas:
             build_later = False
             formula = formulas.pop(0)
 
             for dependency in formula.dependencies:
 
-                if dependency in formulas:
+                if delayed <= len(formulas) and \
+                   satisfied(dependency, formulas):
                     formulas.append(formula)
                     build_later = True
+                    delayed += 1
                     LOGGER.debug('Delaying build of %s because it requires '
                                  '%s which will be built later' %
                                  (formula, dependency))
@@ -168,9 +181,8 @@ class LocalPackageRepository(PackageRepository):
                 # If the dependency is installed in the environment or present
                 # in this repository, it is satisfied.
                 if ((environment is not None and
-                     dependency in environment.packages)
-                        or dependency in repo_packages
-                        or dependency in built_packages):
+                     satisfied(dependency, environment.packages))
+                        or satisfied(dependency, self)):
                     continue
 
                 else:
@@ -179,6 +191,7 @@ class LocalPackageRepository(PackageRepository):
                     break
 
             if not build_later:
+                delayed = 0
 
                 try:
                     package_file = self.build_formula(formula)
-- 
2.43.0


From f5cee7e61b754ccc22741584c4b516baf4b94e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 16/44] fix: replace the index entry of a package added again

---
 ipkg/repositories.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipkg/repositories.py b/ipkg/repositories.py
index 15b0eb2..bd0eaf6 100644
--- a/ipkg/repositories.py
+++ b/ipkg/repositories.py
@@ -235,6 +235,10 @@ class LocalPackageRepository(PackageRepository):
             LOGGER.debug('sha256: %s', checksum)
             package_meta['checksum'] = checksum
 
+        # Replace the entry of the same package, if any
+        filename = make_filename(**package_meta)
+        meta[package.name] = [m for m in meta[package.name]
+                              if make_filename(**m) != filename]
         meta[package.name].append(package_meta)
 
         LOGGER.info('Package %s added to repository', package)
-- 
2.43.0


From 7473d4999d477ea92bbe354bf42d347ff18f5242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 17/44] fix: report HTTP error statuses

---
 ipkg/files/backends/http.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 3297041..1c7945f 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -25,6 +25,7 @@ class HttpFile(BaseFile):
         LOGGER.info('Downloading: %s', self.name)
         try:
             response = requests.get(self.name, stream=True)
+            response.raise_for_status()
 
         except requests.RequestException as exc:
             raise HttpFileException(str(exc))
-- 
2.43.0


From e32fc0ab0f8e8c2c752125e057fad11a3bba0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 18/44] fix: store only complete files in the cache

---
 ipkg/files/cache.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipkg/files/cache.py b/ipkg/files/cache.py
index 4015710..2db760a 100644
--- a/ipkg/files/cache.py
+++ b/ipkg/files/cache.py
@@ -1,5 +1,5 @@
 from logging import getLogger
-from os import path, environ
+from os import path, environ, getpid, rename
 from hashlib import sha256
 
 from .exceptions import FilesException
@@ -47,8 +47,11 @@ def has(name):
 
 def set(name, content):
     try:
-        with open(get_cache_filepath(name), 'wb') as f:
+        filepath = get_cache_filepath(name)
+        tmp_path = '%s.%d' % (filepath, getpid())
+        with open(tmp_path, 'wb') as f:
             f.write(content)
+        rename(tmp_path, filepath)
     except Exception as exc:
         LOGGER.exception('Failed to add %s to cache', name)
     else:
-- 
2.43.0


From 571c0f388caec03abd703e698c490dac96a1d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 19/44] fix: report failures of the command line as errors

---
 ipkg/cli.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipkg/cli.py b/ipkg/cli.py
index e1c71a7..e116f94 100644
--- a/ipkg/cli.py
+++ b/ipkg/cli.py
@@ -30,7 +30,11 @@ class Ipkg(object):
     def __call__(self):
         """Run ipkg.
         """
-        args = self.parser.parse_args().__dict__
+        try:
+            args = self.parser.parse_args().__dict__
+        except IpkgException as exception:
+            # raised when converting arguments
+            self.parser.error(str(exception))
         func = args.pop('func')
         debug = args.pop('debug')
 
@@ -270,6 +274,8 @@ def build(build_file, environment, verbose, repository, package_dir,
     formula = Formula.from_file(build_file)(environment, verbose)
 
     if update_repository:
+        if repository is None:
+            raise IpkgException('A repository is needed to update it')
         repository = repositories.LocalPackageRepository(repository.base)
         repository.build_formula(formula, remove_build_dir)
     else:
-- 
2.43.0


From 28fc8a71e0ee143b456cb9e8c93698f3af950bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 20/44] fix: restore binary permissions when rewriting fails

---
 ipkg/prefix_rewriters.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 221d9bc..9d2cb0b 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -110,16 +110,19 @@ def rewrite_osx_bin(file_path, build_prefix, install_prefix):
     if not file_writable:
         os.chmod(file_path, file_stat.st_mode | stat.S_IWRITE)
 
-    name_tool_cmd = ['install_name_tool', '-id', file_path]
+    try:
+        name_tool_cmd = ['install_name_tool', '-id', file_path]
 
-    for lib in get_osx_bin_libs(file_path):
-        if lib.startswith(build_prefix):
-            name_tool_cmd.extend(['-change', lib,
-                                  lib.replace(build_prefix, install_prefix)])
+        for lib in get_osx_bin_libs(file_path):
+            if lib.startswith(build_prefix):
+                name_tool_cmd.extend(['-change', lib,
+                                      lib.replace(build_prefix,
+                                                  install_prefix)])
 
-    name_tool_cmd.append(file_path)
+        name_tool_cmd.append(file_path)
 
-    execute(name_tool_cmd)
+        execute(name_tool_cmd)
 
-    if not file_writable:
-        os.chmod(file_path, file_stat.st_mode)
+    finally:
+        if not file_writable:
+            os.chmod(file_path, file_stat.st_mode)
-- 
2.43.0


From 4649fa5b0a0e0a2bf31cc4435e63cccd1d6f9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 21/44] fix: verify the checksum recorded in the repository

---
 ipkg/packages.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index adfc9c3..53e93b0 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -1,5 +1,6 @@
 import os
 import json
+import hashlib
 import tarfile
 import logging
 
@@ -64,7 +65,11 @@ class PackageFile(MetaPackage):
     @property
     def _tarfile(self):
         if self.__tarfile is None:
-            self.__tarfile = tarfile.open(fileobj=vopen(self.path))
+            checksum = self.__meta.get('checksum') if self.__meta else None
+            fileobj = vopen(self.path, expected_hash=checksum,
+                            hash_class=hashlib.sha256)
+            fileobj.verify_checksum()
+            self.__tarfile = tarfile.open(fileobj=fileobj)
         return self.__tarfile
 
     def extract(self, path):
-- 
2.43.0


From 8f8d5518958b04117dade0084668783d8d7966c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 22/44] fix: give empty list variables no entry

---
 ipkg/environments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 31e679d..0de4f4c 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -89,7 +89,7 @@ class ListVariable(Variable):
     LIST_SEPARATOR = None
 
     def set(self, value):
-        if value is None:
+        if value is None or value == '':
             self.__list = []
         elif isinstance(value, basestring):
             self.__list = value.split(self.LIST_SEPARATOR)
-- 
2.43.0


From 90d0f05da191f6879f7bfd1f62f46115379b8a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 23/44] fix: quote exported environment variables

---
 ipkg/environments.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 0de4f4c..3ac0703 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -1,5 +1,6 @@
 import sys
 import os
+import pipes
 import logging
 import shutil
 import tempfile
@@ -215,8 +216,12 @@ class EnvironmentVariables(dict):
         return result
 
     def as_string(self, export=False):
-        return '\n'.join('%s%s=%s' % ('export ' if export else '', n, v)
-                         for n, v in self.items()) + '\n'
+        if export:
+            lines = ['export %s=%s' % (n, pipes.quote(str(v)))
+                     for n, v in self.items()]
+        else:
+            lines = ['%s=%s' % (n, v) for n, v in self.items()]
+        return '\n'.join(lines) + '\n'
 
     def __str__(self):
         return self.as_string()
-- 
2.43.0


From 385d01be903b55136b8b01ded58523e2eb79ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 24/44] fix: ignore the requirements of installed packages in
 the solver

---
 ipkg/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/dependencies.py b/ipkg/dependencies.py
index b0b5039..2e72e87 100644
--- a/ipkg/dependencies.py
+++ b/ipkg/dependencies.py
@@ -237,7 +237,7 @@ class Solver(object):
                     if requirement.satisfied_by(package):
                         LOGGER.debug('Satisfied by environment package %s',
                                      package)
-                        solver.add(package)
+                        solver.add(package, skip_dependencies=True)
                         found = True
                         break
                 if found is True:
-- 
2.43.0


From d29d88397b9ddad328c6cb6d47c84c279a10fd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 25/44] fix: report dependency cycles among packages

---
 ipkg/environments.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 3ac0703..10ba8ad 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -323,8 +323,11 @@ class Environment(object):
 
         LOGGER.info('Package %s uninstalled', package)
 
-    def install(self, package, repository=None):
+    def install(self, package, repository=None, dependents=()):
         """Install a package.
+
+        ``dependents`` are the names of the packages being installed, which
+        need this one.
         """
         LOGGER.info('Installing %s', package)
 
@@ -344,6 +347,10 @@ class Environment(object):
         if not isinstance(package, MetaPackage):
             raise IpkgException('Invalid package: %r' % package)
 
+        if package.name in dependents:
+            raise IpkgException('Dependency loop detected: %s' %
+                                ', '.join(dependents + (package.name,)))
+
         # Check if the package is already installed
         for installed_package in self.meta['packages'].values():
             if installed_package['name'] == package.name:
@@ -366,7 +373,8 @@ class Environment(object):
             for dependency in package.dependencies:
                 if dependency not in self.meta['packages']:
                     LOGGER.info('Installing dependency: %s', dependency)
-                    self.install(dependency, repository)
+                    self.install(dependency, repository,
+                                 dependents + (package.name,))
 
         package.extract(self.prefix)
 
-- 
2.43.0


From ead3b99be5d6f4b1a3a018e343be29243010ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:22 +0000
Subject: [PATCH 26/44] fix: refuse links which later archive members would be
 written through

A member written over a symlink of the archive, or a hard link to a file
below one, still touched files outside of the target directory.
---
 ipkg/utils.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 3aca5e0..3790a4f 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -209,18 +209,19 @@ def check_tar_members(members):
     """
     links = set()
     for member in members:
-        check_relative_path(member.name)
-        name = os.path.normpath(member.name)
-        parent = os.path.dirname(name)
-        while parent:
-            # Extracting it would follow a link found in the archive
-            if parent in links:
-                raise IpkgException('Unsafe path: %s' % member.name)
-            parent = os.path.dirname(parent)
+        names = [member.name]
         if member.islnk():
-            check_relative_path(member.linkname)
-        if member.issym() or member.islnk():
-            links.add(name)
+            names.append(member.linkname)
+        for name in names:
+            check_relative_path(name)
+            path = os.path.normpath(name)
+            while path:
+                # Extracting it would follow a link found in the archive
+                if path in links:
+                    raise IpkgException('Unsafe path: %s' % name)
+                path = os.path.dirname(path)
+        if member.issym():
+            links.add(os.path.normpath(member.name))
 
 
 def unarchive(fileobj, target):
-- 
2.43.0


From ba488568a76794975ed11856548817d6f5173165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:23 +0000
Subject: [PATCH 27/44] fix: fail when a network error interrupts the body of
 an HTTP response

---
 ipkg/files/backends/http.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/ipkg/files/backends/http.py b/ipkg/files/backends/http.py
index 1c7945f..efcdb06 100644
--- a/ipkg/files/backends/http.py
+++ b/ipkg/files/backends/http.py
@@ -1,6 +1,7 @@
 import logging
 
 import requests
+from requests.packages.urllib3.exceptions import HTTPError
 
 from . import BaseFile, BackendException
 from .. import cache
@@ -33,12 +34,21 @@ class HttpFile(BaseFile):
         else:
             content = StringIO()
 
-            while True:
-                data = response.raw.read(1024 * 1024)
-                if data:
-                    content.write(data)
-                else:
-                    break
+            try:
+                while True:
+                    data = response.raw.read(1024 * 1024)
+                    if data:
+                        content.write(data)
+                    else:
+                        break
+
+            except (HTTPError, EnvironmentError) as exc:
+                raise HttpFileException(str(exc))
+
+            # The body also ends when the connection is closed too early
+            length = response.headers.get('content-length', '')
+            if length.isdigit() and content.tell() != int(length):
+                raise HttpFileException('Incomplete response: %s' % self.name)
 
             content.seek(0)
 
-- 
2.43.0


From f5831cbbdc13c85f6fd6d120ac1649ac1f05de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 28/44] fix: compare requirements on platforms with non-ASCII
 names

---
 ipkg/requirements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index 0ec1b82..a2c8316 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -58,8 +58,9 @@ class Requirement(object):
         self.name, self.extras, self.versions = parse(package)
 
     def __key(self):
-        return (str(self.platform), self.name,
-                tuple(self.extras), tuple(self.versions))
+        platform = self.platform
+        return ((platform.os_name, platform.os_release, platform.architecture),
+                self.name, tuple(self.extras), tuple(self.versions))
 
     def __hash__(self):
         return hash(self.__key())
-- 
2.43.0


From 0ed2302a152bd8def3532998383e680b389b4976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 29/44] fix: environment variables with non-ASCII values

The variables of installed packages are unicode text, which str() cannot
convert: no command could be run in such an environment.
---
 ipkg/environments.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index 10ba8ad..c30e712 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -76,7 +76,10 @@ class Variable(object):
             raise InvalidVariableValue(self.name, value)
 
     def __str__(self):
-        return str(self.value)
+        if isinstance(self.value, str):
+            return self.value
+        # text of the meta data of a package
+        return self.value.encode('UTF-8')
 
     def __repr__(self):
         return '%s(%r)' % (self.__class__.__name__, str(self))
@@ -217,10 +220,10 @@ class EnvironmentVariables(dict):
 
     def as_string(self, export=False):
         if export:
-            lines = ['export %s=%s' % (n, pipes.quote(str(v)))
+            lines = ['export %s=%s' % (str(n), pipes.quote(str(v)))
                      for n, v in self.items()]
         else:
-            lines = ['%s=%s' % (n, v) for n, v in self.items()]
+            lines = ['%s=%s' % (str(n), v) for n, v in self.items()]
         return '\n'.join(lines) + '\n'
 
     def __str__(self):
-- 
2.43.0


From 1e86caabb817d97132cfd0456d9ad2bd6161e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 30/44] fix: commands run with an empty environment inherited
 the environment of ipkg

---
 ipkg/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 3790a4f..2bc9ebe 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -100,7 +100,7 @@ def execute(command,
 
     kw = {'cwd': cwd}
 
-    if env:
+    if env is not None:
         kw['env'] = env
 
     if stdout:
-- 
2.43.0


From 3ed05f24f455223165cadb34300c2be3d10871e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 31/44] fix: empty and malformed command texts raised internal
 errors

---
 ipkg/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 2bc9ebe..1959d1b 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -118,10 +118,16 @@ def execute(command,
 
     # If command is a string, split it to get a format that Popen understands
     if isinstance(command, basestring):
-        command_ = shlex.split(command)
+        try:
+            command_ = shlex.split(command)
+        except ValueError as exception:
+            raise ExecutionFailed([command], exception)
     else:
         command_ = command
 
+    if not command_:
+        raise ExecutionFailed(command_, 'Empty command')
+
     try:
         process = subprocess.Popen(command_, **kw)
 
-- 
2.43.0


From 90ed84f07577affa55a594c012d0d3b493284a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 32/44] fix: report a command which does not read its input as
 failed

---
 ipkg/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 1959d1b..dcfeae1 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -138,7 +138,11 @@ def execute(command,
             error = exception.strerror
         raise ExecutionFailed(command_, error)
 
-    stdout_str, stderr_str = process.communicate(data)
+    try:
+        stdout_str, stderr_str = process.communicate(data)
+    except EnvironmentError as exception:
+        # It stopped reading before the end of the data
+        raise ExecutionFailed(command_, exception)
 
     if process.returncode != 0:
         raise ExecutionFailed(command_,
-- 
2.43.0


From decf014e5bc52e53164e04f95edccf6a6ce5e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 33/44] fix: metadata files whose content is not an object
 raised internal errors

---
 ipkg/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index dcfeae1..520ab76 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -68,8 +68,9 @@ class DictFile(dict):
                     data = json.loads(raw)
                 except ValueError:
                     raise InvalidDictFileContent(self.__file_path)
-                else:
-                    self.update(data)
+                if not isinstance(data, dict):
+                    raise InvalidDictFileContent(self.__file_path)
+                self.update(data)
 
     def clear(self):
         """Force the dictionary to be empty.
-- 
2.43.0


From 371fc5c907d2ea4246b344310fb5008f1dc680cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 34/44] fix: malformed package files raised internal errors

---
 ipkg/packages.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index 53e93b0..f0d747c 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -5,7 +5,7 @@ import tarfile
 import logging
 
 from .files import vopen
-from .exceptions import IpkgException
+from .exceptions import IpkgException, InvalidPackage
 from .mixins import NameVersionRevisionComparable
 from .utils import check_relative_path, check_tar_members
 
@@ -59,7 +59,13 @@ class PackageFile(MetaPackage):
     @property
     def meta(self):
         if not self.__meta:
-            self.__meta = json.load(self._tarfile.extractfile(META_FILE))
+            try:
+                meta = json.load(self._tarfile.extractfile(META_FILE))
+            except (KeyError, ValueError):
+                raise InvalidPackage(self.path)
+            if not isinstance(meta, dict):
+                raise InvalidPackage(self.path)
+            self.__meta = meta
         return self.__meta
 
     @property
@@ -69,7 +75,10 @@ class PackageFile(MetaPackage):
             fileobj = vopen(self.path, expected_hash=checksum,
                             hash_class=hashlib.sha256)
             fileobj.verify_checksum()
-            self.__tarfile = tarfile.open(fileobj=fileobj)
+            try:
+                self.__tarfile = tarfile.open(fileobj=fileobj)
+            except tarfile.TarError:
+                raise InvalidPackage(self.path)
         return self.__tarfile
 
     def extract(self, path):
-- 
2.43.0


From 00e9fd6086c6946aeec75323992044deac6b79f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 35/44] fix: formula files with syntax errors raised internal
 errors

---
 ipkg/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index ed3170a..71b9a0a 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -297,7 +297,7 @@ class Formula(NameVersionRevisionComparable):
 
         try:
             module = imp.load_source(module_name, filepath)
-        except ImportError as err:
+        except (ImportError, SyntaxError) as err:
             raise IpkgException('Error when importing formula %s: %s' %
                                 (filepath, err))
 
-- 
2.43.0


From de2555f93d69d3f67b21ae7261f32e7c9639c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 36/44] fix: malformed archives of sources raised internal
 errors

---
 ipkg/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipkg/utils.py b/ipkg/utils.py
index 520ab76..b472c19 100644
--- a/ipkg/utils.py
+++ b/ipkg/utils.py
@@ -255,12 +255,20 @@ def unarchive(fileobj, target):
 
     tar_extensions = (['tar', 'bz2'], ['tar', 'gz'], ['tar', 'xz'])
     if filename.split('.')[-2:] in tar_extensions:
-        archive = tarfile.open(fileobj=fileobj)
+        try:
+            archive = tarfile.open(fileobj=fileobj)
+        except tarfile.TarError as exception:
+            raise IpkgException('Invalid archive %s: %s' %
+                                (filename, exception))
         check_tar_members(archive.getmembers())
         root_items = set(i.path.split('/')[0] for i in archive)
 
     elif filename.endswith('.zip'):
-        archive = zipfile.ZipFile(fileobj)
+        try:
+            archive = zipfile.ZipFile(fileobj)
+        except zipfile.BadZipfile as exception:
+            raise IpkgException('Invalid archive %s: %s' %
+                                (filename, exception))
         for info in archive.filelist:
             check_relative_path(info.filename)
         root_items = set(i.filename.split('/')[0] for i in
-- 
2.43.0


From 8364644eb4aeed5a565b64b746d4bf6897c5d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 37/44] fix: refusing a malformed requirement took exponential
 time

---
 ipkg/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index a2c8316..f7647dd 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -161,7 +161,7 @@ RE_REQUIREMENT = re.compile("""
     \]
 )?
 \s*
-(?P<versions>[A-Za-z0-9_\-,!=\>\<\. ]+)*
+(?P<versions>[A-Za-z0-9_\-,!=\>\<\. ]+)?
 \s*
 $
 """, re.X)
-- 
2.43.0


From 2585fed1dad811cab40f04e4b03031b236b15ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 38/44] fix: commands of formulas kept the arguments of earlier
 calls

---
 ipkg/build.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index 71b9a0a..cbd1a7e 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -127,10 +127,9 @@ class Formula(NameVersionRevisionComparable):
 
     def __getattr__(self, attr):
         if attr.startswith('run_'):
-            command = [attr.split('_', 1)[1]]
-
             def func(args=None, **kw):
                 """Wrap calls to ``run_command``."""
+                command = [attr.split('_', 1)[1]]
                 if args:
                     if isinstance(args, basestring):
                         args = args.split()
-- 
2.43.0


From 4ffd22c7e304c9ea51da35294db061ab3ea27d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 39/44] fix: merging requirements lost the platform of the
 second one

any:foo merged with linux-7-x86:foo gave any:foo, which packages for other
platforms satisfy.
---
 ipkg/platforms.py    | 11 +++++++++++
 ipkg/requirements.py |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ipkg/platforms.py b/ipkg/platforms.py
index 061ef0c..70a3562 100644
--- a/ipkg/platforms.py
+++ b/ipkg/platforms.py
@@ -44,6 +44,17 @@ class Platform(object):
     def __ne__(self, platform):
         return not (self == platform)
 
+    def restrict(self, platform):
+        """Returns the platform described by this one and ``platform``, which
+        match: what one leaves open is taken from the other.
+        """
+        def pick(mine, other):
+            return other if mine == 'any' else mine
+
+        return Platform(pick(self.os_name, platform.os_name),
+                        pick(self.os_release, platform.os_release),
+                        pick(self.architecture, platform.architecture))
+
     @classmethod
     def parse(cls, platform):
         platform = platform.strip().lower()
diff --git a/ipkg/requirements.py b/ipkg/requirements.py
index f7647dd..b699000 100644
--- a/ipkg/requirements.py
+++ b/ipkg/requirements.py
@@ -119,7 +119,7 @@ class Requirement(object):
         if self.platform != other.platform:
             raise InvalidPlatform(other.platform)
         merged = Requirement(self.name)
-        merged.platform = self.platform
+        merged.platform = self.platform.restrict(other.platform)
         merged.extras = self.extras + [extra for extra in other.extras
                                        if extra not in self.extras]
         merged.versions = remove_useless_version_selectors(
-- 
2.43.0


From 2314063634c5433f738dd286b81e9a35e5c8c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 40/44] fix: an environment named by a relative path depended
 on the working directory

Its variables, and the build prefix of packages, were relative: commands run
in another directory (all those of formulas) did not find it.
---
 ipkg/environments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipkg/environments.py b/ipkg/environments.py
index c30e712..96e2d82 100644
--- a/ipkg/environments.py
+++ b/ipkg/environments.py
@@ -253,7 +253,8 @@ class Environment(object):
     """
 
     def __init__(self, prefix, directories=None, variables=None):
-        self.prefix = prefix
+        # Commands may run in any directory
+        self.prefix = prefix = os.path.abspath(prefix)
         self.directories = directories or EnvironmentDirectories(prefix)
         self.variables = variables or EnvironmentVariables(self.directories)
 
-- 
2.43.0


From 99dd518938037967dbbc4e685d57f95972edd3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:17 +0000
Subject: [PATCH 41/44] fix: a formula file was loaded into a module of the
 same name

The second of two files of the same name was refused (Too many Formula
classes), and modules in use, like json, were overwritten.
---
 ipkg/build.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ipkg/build.py b/ipkg/build.py
index cbd1a7e..beb02c7 100644
--- a/ipkg/build.py
+++ b/ipkg/build.py
@@ -8,6 +8,7 @@ import time
 import tarfile
 import json
 import imp
+import uuid
 from socket import gethostname
 
 from .environments import Environment
@@ -292,7 +293,9 @@ class Formula(NameVersionRevisionComparable):
 
         filepath = os.path.abspath(filepath)
         filename = os.path.basename(filepath)
-        module_name = filename.split('.py')[0].replace('.', '_')
+        # Loading it with the name of another module would mix their contents
+        module_name = '%s_%s' % (filename.split('.py')[0].replace('.', '_'),
+                                 uuid.uuid4().hex)
 
         try:
             module = imp.load_source(module_name, filepath)
-- 
2.43.0


From d1b06267356f5e70ddb093832300658552f8833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 42/44] fix: libraries outside the build prefix were changed in
 Mach-O binaries

---
 ipkg/prefix_rewriters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ipkg/prefix_rewriters.py b/ipkg/prefix_rewriters.py
index 9d2cb0b..2af5a91 100644
--- a/ipkg/prefix_rewriters.py
+++ b/ipkg/prefix_rewriters.py
@@ -114,10 +114,10 @@ def rewrite_osx_bin(file_path, build_prefix, install_prefix):
         name_tool_cmd = ['install_name_tool', '-id', file_path]
 
         for lib in get_osx_bin_libs(file_path):
-            if lib.startswith(build_prefix):
-                name_tool_cmd.extend(['-change', lib,
-                                      lib.replace(build_prefix,
-                                                  install_prefix)])
+            if lib.startswith(os.path.join(build_prefix, '')):
+                new_lib = os.path.join(install_prefix,
+                                       os.path.relpath(lib, build_prefix))
+                name_tool_cmd.extend(['-change', lib, new_lib])
 
         name_tool_cmd.append(file_path)
 
-- 
2.43.0


From 38055fd83609c6f8ca07a6ad7984cc040df499e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 43/44] fix: keep dashes and upper case out of the parts of the
 current platform

The text of a platform with such a part is not read back as that platform.
---
 ipkg/platforms.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipkg/platforms.py b/ipkg/platforms.py
index 70a3562..f1a2671 100644
--- a/ipkg/platforms.py
+++ b/ipkg/platforms.py
@@ -84,4 +84,8 @@ class Platform(object):
 
         architecture = platform.machine()
 
-        return cls(name, release, architecture)
+        # Parts are lower case and separated by dashes
+        def part(text):
+            return text.lower().replace('-', '_')
+
+        return cls(part(name), part(release), part(architecture))
-- 
2.43.0


From e4a815272cee2f17fc43ac8b6b634b391dc4f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:07 +0000
Subject: [PATCH 44/44] fix: keep slashes out of the names of package files

On a system with the release trixie/sid, building a formula which does not
set a platform ended in an IOError.
---
 ipkg/packages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipkg/packages.py b/ipkg/packages.py
index f0d747c..a1b664b 100644
--- a/ipkg/packages.py
+++ b/ipkg/packages.py
@@ -94,4 +94,6 @@ class PackageFile(MetaPackage):
 
 
 def make_filename(**meta):
-    return '%(name)s-%(version)s-%(revision)s-%(platform)s.ipkg' % meta
+    filename = '%(name)s-%(version)s-%(revision)s-%(platform)s.ipkg' % meta
+    # The release of a system may hold slashes, such as trixie/sid
+    return filename.replace('/', '_')
-- 
2.43.0

