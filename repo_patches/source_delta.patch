From 170eaa25f10304b35885a8897d2ffb4cdba4793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:11 +0000
Subject: [PATCH 01/46] fix: keep earlier list values when a constant-list
 option is given

ExtendConstAction replaced whatever the option line had collected so far
with the constant, so 'firewall --ssh --http' silently lost port 22.
---
 pykickstart/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/options.py b/pykickstart/options.py
index c3981e5..cf30c2b 100644
--- a/pykickstart/options.py
+++ b/pykickstart/options.py
@@ -112,7 +112,7 @@ class ExtendAction(Action):
 class ExtendConstAction(Action):
     def __call__(self, parser, namespace, values, option_string=None):
         if getattr(namespace, self.dest, None) is not None:
-            setattr(namespace, self.dest, self.const + values)
+            setattr(namespace, self.dest, getattr(namespace, self.dest) + self.const)
         else:
             setattr(namespace, self.dest, self.const)
 
-- 
2.43.0


From d60f37311001ab543a72850e6c9c7de943349fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:40 +0000
Subject: [PATCH 02/46] fix: accept every documented version name in
 returnClassForVersion

Names that stringToVersion understands but that are not a handler module
name (DEVEL, 'Fedora 32', 'Red Hat Enterprise Linux 7.2') were rejected as
unsupported, although ksvalidator --listversions offers DEVEL.
---
 pykickstart/version.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pykickstart/version.py b/pykickstart/version.py
index d966637..a498858 100644
--- a/pykickstart/version.py
+++ b/pykickstart/version.py
@@ -194,12 +194,10 @@ def returnClassForVersion(version=DEVEL):
     """
     try:
         version = int(version)
-        module = "%s" % versionToString(version, skipDevel=True)
     except ValueError:
-        module = "%s" % version
         version = stringToVersion(version)
 
-    module = module.lower()
+    module = versionToString(version, skipDevel=True).lower()
 
     try:
         _path = os.path.join(os.path.dirname(__file__), "handlers/")
-- 
2.43.0


From ad464c028b707b012d2a8528a4d9a3f2f0ab3035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:33 +0000
Subject: [PATCH 03/46] fix: report a line starting with an empty quoted word
 as unknown command

Such a line (for example '""') made the parser raise IndexError instead of
a kickstart parse error.
---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index afabb11..7c7bd39 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -756,7 +756,7 @@ class KickstartParser(object):
                 if args[0] == "%ksappend":
                     # This is handled by the preprocess* functions, so continue.
                     continue
-                elif args[0][0] == '%':
+                elif args[0].startswith('%'):
                     # This is the beginning of a new section.  Handle its header
                     # here.
                     newSection = args[0]
-- 
2.43.0


From 9827c043347bd61237d19764c8045f055c2ad6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:33 +0000
Subject: [PATCH 04/46] fix: raise a parse error for a lone '-' in %packages

The exclusion marker without a name raised IndexError.
---
 pykickstart/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 7c7bd39..5413c98 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -481,6 +481,8 @@ class Packages(KickstartObject):
                 self.environment = stripped[2:]
             elif stripped[0] == "@":
                 self._processGroup(stripped[1:])
+            elif stripped == "-":
+                raise KickstartParseError(_("Missing package name after '-'"))
             elif stripped[0] == "-":
                 if stripped[1:3] == "@^" and self.environment == stripped[3:]:
                     self.environment = None
-- 
2.43.0


From 8fd25d89c645edb3b1618a85a565248eabd5eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:33 +0000
Subject: [PATCH 05/46] fix: raise a parse error for a 'method' line

'method' is only a proxy object, but the name is dispatched to, so a
kickstart file using it raised TypeError from the abstract parse().
---
 pykickstart/commands/method.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykickstart/commands/method.py b/pykickstart/commands/method.py
index a863d6f..913c518 100644
--- a/pykickstart/commands/method.py
+++ b/pykickstart/commands/method.py
@@ -19,8 +19,11 @@
 #
 from pykickstart.version import FC3, F34, versionToLongString
 from pykickstart.base import KickstartCommand, DeprecatedCommand
+from pykickstart.errors import KickstartParseError
 from pykickstart.options import KSOptionParser
 
+from pykickstart.i18n import _
+
 class FC3_Method(KickstartCommand):
     removedKeywords = KickstartCommand.removedKeywords
     removedAttrs = KickstartCommand.removedAttrs
@@ -108,6 +111,10 @@ class FC3_Method(KickstartCommand):
 
         return KSOptionParser(prog="method", description=description, version=FC3)
 
+    def parse(self, args):
+        """The proxy can't be used in a kickstart file."""
+        raise KickstartParseError(_("Unknown command: %s") % self.currentCmd, lineno=self.lineno)
+
 
 # These are all just for compat.  Calling into the appropriate version-specific
 # method command will deal with making sure the right options are used.
-- 
2.43.0


From 26925717085bfe545db98eba94856b2560a29d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:47 +0000
Subject: [PATCH 06/46] fix: do not leak the body of an empty script section
 into the next one

The blank lines of a skipped section stayed in the section object and were
prepended to the next script of the same type.
---
 pykickstart/sections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 12cd900..e20857b 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -188,6 +188,7 @@ class ScriptSection(Section):
 
     def finalize(self):
         if " ".join(self._script["body"]).strip() == "":
+            self._resetScript()
             return
 
         kwargs = {"interp": self._script["interp"],
-- 
2.43.0


From b0ca7b0e9d714728ec1089f00a76aa11f6ff6850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:47 +0000
Subject: [PATCH 07/46] fix: write unhandled sections back the way they were
 read

Lines already end in a newline, so joining them with another one doubled
every line break each time the file was written.  The missing newline after
%end merged the next section into the previous one, and header arguments
containing spaces lost their quoting.
---
 pykickstart/sections.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index e20857b..63a72ee 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -30,6 +30,7 @@ is necessary is to create a new subclass of Section and call
 parser.registerSection with an instance of your new class.
 """
 import warnings
+from six.moves import shlex_quote
 from pykickstart.constants import KS_SCRIPT_PRE, KS_SCRIPT_POST, KS_SCRIPT_TRACEBACK, \
                                   KS_SCRIPT_PREINSTALL, KS_SCRIPT_ONERROR, \
                                   KS_MISSING_IGNORE, KS_MISSING_PROMPT, \
@@ -133,11 +134,8 @@ class NullSection(Section):
         self._body.append(line)
 
     def finalize(self):
-        body = "\n".join(self._body)
-        if body:
-            s = "%s\n%s\n%%end" % (" ".join(self._args), body)
-        else:
-            s = "%s\n%%end" % " ".join(self._args)
+        header = " ".join(shlex_quote(arg) for arg in self._args)
+        s = "%s\n%s%%end\n" % (header, "".join(self._body))
 
         self.handler._null_section_strings.append(s)
 
-- 
2.43.0


From a31afb3dd615b08b19927d9013fcf81804a6876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:18 +0000
Subject: [PATCH 08/46] fix: write scripts and packages in the syntax of their
 own handler

Whether sections are closed with %end was decided by the version of the
most recently created parser in the process, so output of one handler
changed when a parser for another version was created.
---
 pykickstart/base.py     | 1 +
 pykickstart/sections.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index c9fdd3a..4303658 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -483,6 +483,7 @@ class BaseHandler(KickstartHandler):
         # everything else I can think of.
         self.scripts = []
         self.packages = Packages()
+        self.packages._ver = self.version
         self.platform = ""
 
         # Any sections that we do not understand but want to prevent causing errors
diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 63a72ee..182ebc1 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -198,6 +198,7 @@ class ScriptSection(Section):
 
         if self.dataObj is not None:
             s = self.dataObj(self._script["body"], **kwargs)
+            s._ver = self.version
             self._resetScript()
             self.handler.scripts.append(s)
 
-- 
2.43.0


From da69f2743dc02c025fd962dd88df379c8124d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:03 +0000
Subject: [PATCH 09/46] fix: give nvdimm parse errors their line number

---
 pykickstart/commands/nvdimm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/nvdimm.py b/pykickstart/commands/nvdimm.py
index a01652f..d90eba9 100644
--- a/pykickstart/commands/nvdimm.py
+++ b/pykickstart/commands/nvdimm.py
@@ -139,7 +139,8 @@ class F28_Nvdimm(KickstartCommand):
         nvdimm_data.action = action
 
         if nvdimm_data.namespace and nvdimm_data.blockdevs:
-            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"))
+            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"),
+                                      lineno=self.lineno)
 
         # Check for duplicates in the data list.
         if nvdimm_data in self.dataList():
@@ -153,14 +154,14 @@ class F28_Nvdimm(KickstartCommand):
         if action == NVDIMM_ACTION_RECONFIGURE:
             if not nvdimm_data.namespace:
                 raise KickstartParseError(_("Action %(action)s requires --namespace argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
             if nvdimm_data.mode == NVDIMM_MODE_SECTOR and not nvdimm_data.sectorsize:
                 raise KickstartParseError(_("Action %(action)s with mode %(mode)s requires --sectorsize argument to be set")
-                                          % {"action": action, "mode": nvdimm_data.mode})
+                                          % {"action": action, "mode": nvdimm_data.mode}, lineno=self.lineno)
         elif action == NVDIMM_ACTION_USE:
             if not nvdimm_data.namespace and not nvdimm_data.blockdevs:
                 raise KickstartParseError(_("Action %(action)s requires --namespace or --blockdevs argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
 
         return nvdimm_data
 
-- 
2.43.0


From 39dcea35c78ce7b644d32fe983d303704b1caeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:19 +0000
Subject: [PATCH 10/46] fix: write user and group ids of zero

---
 pykickstart/commands/group.py | 2 +-
 pykickstart/commands/user.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/group.py b/pykickstart/commands/group.py
index fab5e74..d2ec9d8 100644
--- a/pykickstart/commands/group.py
+++ b/pykickstart/commands/group.py
@@ -49,7 +49,7 @@ class F12_GroupData(BaseData):
 
         if self.name:
             retval += " --name=%s" % self.name
-        if self.gid:
+        if self.gid or self.gid == 0:
             retval += " --gid=%s" % self.gid
 
         return retval + "\n"
diff --git a/pykickstart/commands/user.py b/pykickstart/commands/user.py
index e675e85..f0721a9 100644
--- a/pykickstart/commands/user.py
+++ b/pykickstart/commands/user.py
@@ -78,7 +78,7 @@ class FC6_UserData(BaseData):
             retval += " --iscrypted"
         if self.shell:
             retval += " --shell=%s" % self.shell
-        if self.uid:
+        if self.uid or self.uid == 0:
             retval += " --uid=%s" % self.uid
 
         return retval
@@ -126,7 +126,7 @@ class F19_UserData(F12_UserData):
     def _getArgsAsStr(self):
         retval = F12_UserData._getArgsAsStr(self)
 
-        if self.gid:
+        if self.gid or self.gid == 0:
             retval += " --gid=%d" % (self.gid,)
 
         return retval
-- 
2.43.0


From 8d5f3bc45f80bdf8c1de183f3dea251e0a09b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:47 +0000
Subject: [PATCH 11/46] fix: write a repo cost of zero

---
 pykickstart/commands/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/repo.py b/pykickstart/commands/repo.py
index f050985..e299ab9 100644
--- a/pykickstart/commands/repo.py
+++ b/pykickstart/commands/repo.py
@@ -74,7 +74,7 @@ class F8_RepoData(FC6_RepoData):
     def _getArgsAsStr(self):
         retval = FC6_RepoData._getArgsAsStr(self)
 
-        if self.cost:
+        if self.cost or self.cost == 0:
             retval += " --cost=%s" % self.cost
         if self.includepkgs:
             retval += " --includepkgs=\"%s\"" % ",".join(self.includepkgs)
-- 
2.43.0


From 77821a44a732423bab2f4ae52df4514c56b1833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:18 +0000
Subject: [PATCH 12/46] fix: write the parent of a btrfs volume

---
 pykickstart/commands/btrfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykickstart/commands/btrfs.py b/pykickstart/commands/btrfs.py
index 084f25b..afbbd7f 100644
--- a/pykickstart/commands/btrfs.py
+++ b/pykickstart/commands/btrfs.py
@@ -68,6 +68,8 @@ class F17_BTRFSData(BaseData):
             retval += " --metadata=%s" % self.metaDataLevel.lower()
         if self.subvol:
             retval += " --subvol --name=%s" % self.name
+        if self.parent:
+            retval += " --parent=%s" % self.parent
 
         return retval
 
-- 
2.43.0


From 3655e978bc2f4cac62227ae910f949f164148096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:40 +0000
Subject: [PATCH 13/46] fix: write timezone options given without a timezone on
 RHEL7

---
 pykickstart/commands/timezone.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 6f6d412..1bf9b6f 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -216,6 +216,33 @@ class RHEL7_Timezone(F18_Timezone):
         F18_Timezone.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
 
+    def __str__(self):
+        retval = KickstartCommand.__str__(self)
+        args = self._getArgsAsStr()
+
+        if args:
+            retval += "# System timezone\n"
+            retval += "timezone" + args + "\n"
+
+        return retval
+
+    def _getArgsAsStr(self):
+        retval = ""
+
+        if self.timezone:
+            retval += " " + self.timezone
+
+        if self.isUtc:
+            retval += " --isUtc"
+
+        if self.nontp:
+            retval += " --nontp"
+
+        if self.ntpservers:
+            retval += " --ntpservers=" + ",".join(self.ntpservers)
+
+        return retval
+
     def _getParser(self):
         op = KSOptionParser(prog="timezone", description="""
                             This required command sets the system time zone to
-- 
2.43.0


From de2245a8ad95a1cde7106f2069d67ce875d84434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:48 +0000
Subject: [PATCH 14/46] fix: write --eject of a halt command

---
 pykickstart/commands/reboot.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pykickstart/commands/reboot.py b/pykickstart/commands/reboot.py
index 75a6d91..a894e58 100644
--- a/pykickstart/commands/reboot.py
+++ b/pykickstart/commands/reboot.py
@@ -88,6 +88,16 @@ class FC6_Reboot(FC3_Reboot):
 
         self.eject = kwargs.get("eject", False)
 
+    def __str__(self):
+        retval = FC3_Reboot.__str__(self)
+
+        # Halting is the default, so it has no action of its own.
+        if self.action is None and self.eject:
+            retval += "# Halt after installation\nhalt"
+            retval += self._getArgsAsStr() + "\n"
+
+        return retval
+
     def _getArgsAsStr(self):
         retval = FC3_Reboot._getArgsAsStr(self)
 
-- 
2.43.0


From 9cfe8f17595f9f9c05c89e5f2cad0f6ab48a5db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 15/46] fix: volgroup keeps every member and rejects unknown
 options

Positional words left over by argparse replaced the ones already collected,
so a member was lost when an option stood between members, and an unknown
option was taken for a member.
---
 pykickstart/commands/volgroup.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pykickstart/commands/volgroup.py b/pykickstart/commands/volgroup.py
index bcda6e6..0ab3faa 100644
--- a/pykickstart/commands/volgroup.py
+++ b/pykickstart/commands/volgroup.py
@@ -148,13 +148,13 @@ class FC3_VolGroup(KickstartCommand):
         (ns, extra) = self.op.parse_known_args(args=args, lineno=self.lineno)
         # because positional arguments with variable number of values
         # don't parse very well
-        if not ns.partitions:
-            if extra:
-                ns.partitions = extra
-                extra = []
-            elif ns.name:
-                ns.partitions = ns.name[1:]
-                ns.name = [ns.name[0]]
+        unknown = [arg for arg in extra if arg.startswith("-")]
+        if unknown:
+            raise KickstartParseError(_("unrecognized arguments: %s") % " ".join(unknown), lineno=self.lineno)
+
+        words = ns.name + ns.partitions + extra
+        ns.name = words[:1]
+        ns.partitions = words[1:]
 
         if not ns.format:
             ns.preexist = True
-- 
2.43.0


From 8777f7229644a59ab96237d28f19f0885c8e5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 16/46] fix: raid keeps members that follow an option standing
 between members

---
 pykickstart/commands/raid.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pykickstart/commands/raid.py b/pykickstart/commands/raid.py
index 90844e5..b48d691 100644
--- a/pykickstart/commands/raid.py
+++ b/pykickstart/commands/raid.py
@@ -426,9 +426,7 @@ class FC3_Raid(KickstartCommand):
 
         # because positional argumnets with variable number of values
         # don't parse very well
-        if not ns.partitions and extra:
-            ns.partitions = extra
-            extra = []
+        ns.partitions = (ns.partitions or []) + extra
 
         if not ns.format:
             ns.preexist = True
-- 
2.43.0


From 5aea5e5a89e19884fdc0fd8170fcfcf3ca4d16f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 17/46] fix: multipath data remembers its line

---
 pykickstart/commands/multipath.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykickstart/commands/multipath.py b/pykickstart/commands/multipath.py
index acb58bb..89f5600 100644
--- a/pykickstart/commands/multipath.py
+++ b/pykickstart/commands/multipath.py
@@ -101,6 +101,7 @@ class FC6_MultiPath(KickstartCommand):
 
         if not parent:
             mpath = self.dataClass(name=dd.name)    # pylint: disable=not-callable
+            mpath.lineno = self.lineno
             mpath.paths.append(dd)
             return mpath
         else:
-- 
2.43.0


From 71d717c03f7096023fe7acd9b5ec52cd661978ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:52 +0000
Subject: [PATCH 18/46] fix: add further multipath paths to their device only

The first device was never found again, and paths of the other ones were
also put into the list of devices and written as lines of their own.
---
 pykickstart/commands/multipath.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/multipath.py b/pykickstart/commands/multipath.py
index 89f5600..5f1922a 100644
--- a/pykickstart/commands/multipath.py
+++ b/pykickstart/commands/multipath.py
@@ -99,7 +99,7 @@ class FC6_MultiPath(KickstartCommand):
             if mpath.name == dd.mpdev:
                 parent = x
 
-        if not parent:
+        if parent is None:
             mpath = self.dataClass(name=dd.name)    # pylint: disable=not-callable
             mpath.lineno = self.lineno
             mpath.paths.append(dd)
@@ -107,7 +107,10 @@ class FC6_MultiPath(KickstartCommand):
         else:
             mpath = self.mpaths[parent]
             mpath.paths.append(dd)
-            return dd
+
+            # The path belongs to an existing device, so there is nothing to
+            # be added to the data list.
+            return self
 
     def dataList(self):
         return self.mpaths
-- 
2.43.0


From 750ed88f7cf2785e45c3599542fefff19b482345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:03 +0000
Subject: [PATCH 19/46] fix: let a later inclusion of a group or environment
 cancel its exclusion in %packages

---
 pykickstart/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 5413c98..18dd321 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -453,6 +453,9 @@ class Packages(KickstartObject):
         # now.
         grp = " ".join(extra)
 
+        # the later of an exclusion and an inclusion wins, like for packages
+        self.excludedGroupList = [g for g in self.excludedGroupList if g.name != grp]
+
         if grp in [g.name for g in self.groupList]:
             return
 
@@ -479,6 +482,7 @@ class Packages(KickstartObject):
 
             if stripped[0:2] == "@^":
                 self.environment = stripped[2:]
+                self.excludedGroupList = [g for g in self.excludedGroupList if g.name != stripped[1:]]
             elif stripped[0] == "@":
                 self._processGroup(stripped[1:])
             elif stripped == "-":
-- 
2.43.0


From f6d261c05dce913bad0ab89623fb429e1bd1390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:41 +0000
Subject: [PATCH 20/46] fix: treat included text as if it stood at the place of
 the %include line

A section left open by an included file was silently dropped together with
the rest of the including file, a section ended by an included file went on in
the including file, and comments or quotes at the start of a file included in
a script were dropped or misparsed.
---
 pykickstart/parser.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 18dd321..e58f961 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -173,7 +173,7 @@ class PutBackIterator(Iterator):
         self._buf = s
 
     def next(self):
-        if self._buf:
+        if self._buf is not None:
             retval = self._buf
             self._buf = None
             return retval
@@ -667,6 +667,11 @@ class KickstartParser(object):
                         raise KickstartParseError(lineno=lineno)
 
                     self._handleInclude(args[1])
+
+                    if self._state != obj.sectionOpen:
+                        # The included file ended this section.
+                        break
+
                     continue
                 elif args and args[0] == "%ksappend":
                     continue
@@ -735,11 +740,20 @@ class KickstartParser(object):
             # Get the next line out of the file, quitting if this is the last line.
             try:
                 self._line = next(lineIter)
-                if self._line == "":
-                    break
             except StopIteration:
                 break
 
+            if self._state in self._sections and (self._includeDepth == 0 or self._line.strip() != ""):
+                # We are in a section that was started in another file, either
+                # in the one that includes this file or in one included here.
+                # Blank lines at the start of an included file do not count.
+                lineIter.put(self._line)
+                lineno = self._readSection(lineIter, lineno)
+                continue
+
+            if self._line == "":
+                break
+
             lineno += 1
 
             # Eliminate blank lines, whitespace-only lines, and comments.
@@ -790,10 +804,6 @@ class KickstartParser(object):
                     self._tryFunc(lambda: self.handleCommand(lineno, args))
             elif self._state == STATE_END:
                 break
-            elif self._includeDepth > 0:
-                lineIter.put(self._line)
-                lineno -= 1
-                lineno = self._readSection(lineIter, lineno)
 
     def readKickstartFromString(self, s, reset=True):
         """Process a kickstart file, provided as the string str."""
-- 
2.43.0


From 5b30ea53dd87b84ee772271d037c2592fa28f7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:38 +0000
Subject: [PATCH 21/46] fix: report errors in the contents of an included file
 even if missing includes are tolerated

---
 pykickstart/parser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index e58f961..87ebefe 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -723,14 +723,15 @@ class KickstartParser(object):
 
         try:
             self.readKickstart(f, reset=False)
-        except KickstartError:
+        except KickstartError as e:
             # Handle the include file being provided over the
             # network in a %pre script.  This case comes up in the
-            # early parsing in anaconda.
-            if self.missingIncludeIsFatal:
+            # early parsing in anaconda.  Errors in the contents of
+            # the file are a different matter.
+            if self.missingIncludeIsFatal or isinstance(e, KickstartParseError):
                 raise
-
-        self._includeDepth -= 1
+        finally:
+            self._includeDepth -= 1
 
     def _stateMachine(self, lineIter):
         # For error reporting.
-- 
2.43.0


From 571d9e724569bc004d1c467d9744e7f7884e7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:09 +0000
Subject: [PATCH 22/46] fix: ksvalidator must not exit with status 0 for 256
 errors

---
 tools/ksvalidator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index 8fe1d9f..f9f812b 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -121,4 +121,5 @@ if __name__ == "__main__":
     retval, messages = main(sys.argv[1:])
     for msg in messages:
         print(msg)
-    sys.exit(retval)
+    # an exit status has only 8 bits, 256 errors must not look like success
+    sys.exit(min(retval, 255))
-- 
2.43.0


From bd1229ed2085e9b6bf6859cf5aba274c57b0d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:44 +0000
Subject: [PATCH 23/46] fix: drop blank lines only at the very start of a file
 included in a section

---
 pykickstart/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 87ebefe..e0b1b92 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -737,6 +737,9 @@ class KickstartParser(object):
         # For error reporting.
         lineno = 0
 
+        # Have we seen anything but blank lines yet?
+        started = False
+
         while True:
             # Get the next line out of the file, quitting if this is the last line.
             try:
@@ -744,7 +747,10 @@ class KickstartParser(object):
             except StopIteration:
                 break
 
-            if self._state in self._sections and (self._includeDepth == 0 or self._line.strip() != ""):
+            if self._line.strip() != "":
+                started = True
+
+            if self._state in self._sections and (started and self._line != "" or self._includeDepth == 0):
                 # We are in a section that was started in another file, either
                 # in the one that includes this file or in one included here.
                 # Blank lines at the start of an included file do not count.
-- 
2.43.0


From c63c66bef55c8aed20ab88fb521ac057a1eb4f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:10 +0000
Subject: [PATCH 24/46] fix: resetCommand must replace the command under all of
 its names

---
 pykickstart/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index 4303658..adf9157 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -388,11 +388,16 @@ class KickstartHandler(KickstartObject):
         if cmdName not in self.commands:
             raise KeyError
 
-        cmdObj = self.commands[cmdName].__class__()
+        oldObj = self.commands[cmdName]
+        cmdObj = oldObj.__class__()
 
         self._setCommand(cmdObj)
-        self.commands[cmdName] = cmdObj
-        self.commands[cmdName].handler = self
+        cmdObj.handler = self
+
+        # Several strings can map to the same object, so replace all of them.
+        for (key, val) in list(self.commands.items()):
+            if val is oldObj:
+                self.commands[key] = cmdObj
 
     def dispatcher(self, args, lineno):
         """Call the appropriate KickstartCommand handler for the current line
-- 
2.43.0


From 2c1772e2641d4b56afa6c1eea94b18a1cb841fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:10 +0000
Subject: [PATCH 25/46] fix: an unused lilo command must not write a bootloader
 line

---
 pykickstart/commands/bootloader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pykickstart/commands/bootloader.py b/pykickstart/commands/bootloader.py
index efe8ca7..505c91f 100644
--- a/pykickstart/commands/bootloader.py
+++ b/pykickstart/commands/bootloader.py
@@ -157,6 +157,12 @@ class FC3_Lilo(FC3_Bootloader):
         This is for backwards compatibility and docs generation.
         Used only in FC3, RHEL3 and RHEL4.
     """
+    def __init__(self, writePriority=10, *args, **kwargs):
+        # Both commands are written as "bootloader", and the last one written
+        # wins when that is read, so write nothing unless lilo was used.
+        kwargs.setdefault("location", "")
+        FC3_Bootloader.__init__(self, writePriority, *args, **kwargs)
+
     def _getParser(self):
         op = super(FC3_Lilo, self)._getParser()
         op.prog = "lilo"
-- 
2.43.0


From 55cce3198d94ac266acf906b3a2aee473bd17a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:10 +0000
Subject: [PATCH 26/46] fix: the deprecated xconfig --depth must stay a number
 so it can be written

---
 pykickstart/commands/xconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index 528d4fc..a68acbd 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -169,7 +169,7 @@ class F10_XConfig(F9_XConfig):
     def _getParser(self):
         op = F9_XConfig._getParser(self)
         op.add_argument("--driver", deprecated=F10)
-        op.add_argument("--depth", deprecated=F10)
+        op.add_argument("--depth", type=int, deprecated=F10)
         op.add_argument("--resolution", deprecated=F10)
         op.add_argument("--videoram", deprecated=F10)
         return op
-- 
2.43.0


From 8d0d260ed6ffc0877d7b3a5f334f1920cda61770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:32 +0000
Subject: [PATCH 27/46] fix: write the disks of ignoredisk where --interactive
 is deprecated

---
 pykickstart/commands/ignoredisk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykickstart/commands/ignoredisk.py b/pykickstart/commands/ignoredisk.py
index a44549d..0590064 100644
--- a/pykickstart/commands/ignoredisk.py
+++ b/pykickstart/commands/ignoredisk.py
@@ -150,6 +150,9 @@ class F29_IgnoreDisk(F14_IgnoreDisk):
     removedKeywords = F14_IgnoreDisk.removedKeywords
     removedAttrs = F14_IgnoreDisk.removedAttrs
 
+    def __str__(self):
+        return F8_IgnoreDisk.__str__(self)
+
     def parse(self, args):
         return F8_IgnoreDisk.parse(self, args)
 
-- 
2.43.0


From 8da82e3926c3fd8b2dd3fb2882dd954e96a34554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:04 +0000
Subject: [PATCH 28/46] fix: write firewall ports named after a service as
 ports from F10 on

---
 pykickstart/commands/firewall.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pykickstart/commands/firewall.py b/pykickstart/commands/firewall.py
index 727ad21..d5ad65c 100644
--- a/pykickstart/commands/firewall.py
+++ b/pykickstart/commands/firewall.py
@@ -25,6 +25,10 @@ class FC3_Firewall(KickstartCommand):
     removedKeywords = KickstartCommand.removedKeywords
     removedAttrs = KickstartCommand.removedAttrs
 
+    # Ports which are written as an option of their own.
+    _portOptions = {"ssh:tcp": "--ssh", "telnet:tcp": "--telnet", "smtp:tcp": "--smtp",
+                    "http:tcp": "--http", "ftp:tcp": "--ftp"}
+
     def __init__(self, writePriority=0, *args, **kwargs):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
@@ -47,16 +51,8 @@ class FC3_Firewall(KickstartCommand):
             # port:proto (s-c-kickstart may do this).  So, filter those
             # out into their own list leaving what we expect.
             for port in self.ports:
-                if port == "ssh:tcp":
-                    extra.append(" --ssh")
-                elif port == "telnet:tcp":
-                    extra.append(" --telnet")
-                elif port == "smtp:tcp":
-                    extra.append(" --smtp")
-                elif port == "http:tcp":
-                    extra.append(" --http")
-                elif port == "ftp:tcp":
-                    extra.append(" --ftp")
+                if port in self._portOptions:
+                    extra.append(" " + self._portOptions[port])
                 else:
                     filteredPorts.append(port)
 
@@ -159,6 +155,9 @@ class F10_Firewall(F9_Firewall):
     removedKeywords = F9_Firewall.removedKeywords
     removedAttrs = F9_Firewall.removedAttrs
 
+    # The options stand for services now, not for ports.
+    _portOptions = {}
+
     def __init__(self, writePriority=0, *args, **kwargs):
         F9_Firewall.__init__(self, writePriority, *args, **kwargs)
         self.services = kwargs.get("services", [])
-- 
2.43.0


From 74e13f97c7f59cb23f0703e5ce0837868b058029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:35 +0000
Subject: [PATCH 29/46] fix: deprecated firewall --telnet and xconfig --noprobe
 are still flags

---
 pykickstart/commands/firewall.py | 2 +-
 pykickstart/commands/xconfig.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/firewall.py b/pykickstart/commands/firewall.py
index d5ad65c..d2f3092 100644
--- a/pykickstart/commands/firewall.py
+++ b/pykickstart/commands/firewall.py
@@ -205,7 +205,7 @@ class F10_Firewall(F9_Firewall):
                         const="smtp", version=F10, help="Open the smtp service port")
         op.add_argument("--ssh", dest="services", action="append_const",
                         const="ssh", version=F10, help="Open the ssh service port")
-        op.add_argument("--telnet", deprecated=F10)
+        op.add_argument("--telnet", action="store_true", deprecated=F10)
         return op
 
 class F14_Firewall(F10_Firewall):
diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index a68acbd..8a7c1cf 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -140,7 +140,7 @@ class FC6_XConfig(FC3_XConfig):
         op.add_argument("--driver", version=FC6, help="REMOVED")
         op.add_argument("--hsync", deprecated=FC6)
         op.add_argument("--monitor", deprecated=FC6)
-        op.add_argument("--noprobe", deprecated=FC6)
+        op.add_argument("--noprobe", action="store_true", deprecated=FC6)
         op.add_argument("--vsync", deprecated=FC6)
         op.remove_argument("--server", version=FC6, help="")
         return op
-- 
2.43.0


From dcaa73bf658ccf4466326c6b077ffb596b9867a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:03 +0000
Subject: [PATCH 30/46] fix: an empty kickstart file preprocesses to an empty
 file

---
 pykickstart/parser.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index e0b1b92..c52ad34 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -134,15 +134,13 @@ def preprocessFromString(s):
        run.  Returns the location of the complete kickstart file.
     """
     s = preprocessFromStringToString(s)
-    if s:
-        import tempfile
-        (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
 
-        os.write(outF, s)
-        os.close(outF)
-        return outName
+    import tempfile
+    (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
 
-    return None
+    os.write(outF, s)
+    os.close(outF)
+    return outName
 
 def preprocessKickstart(f):
     """Preprocess the kickstart file, given by the filename f.  This
@@ -151,15 +149,13 @@ def preprocessKickstart(f):
        run.  Returns the location of the complete kickstart file.
     """
     s = preprocessKickstartToString(f)
-    if s:
-        import tempfile
-        (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
 
-        os.write(outF, s)
-        os.close(outF)
-        return outName
+    import tempfile
+    (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
 
-    return None
+    os.write(outF, s)
+    os.close(outF)
+    return outName
 
 class PutBackIterator(Iterator):
     def __init__(self, iterable):
-- 
2.43.0


From 6f52ab609f0234eae85e526e29cc07c4d4330e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:47 +0000
Subject: [PATCH 31/46] fix: find the address of a %ksappend line after any
 blanks, and leave look-alike lines alone

---
 pykickstart/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index c52ad34..15c660c 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -80,7 +80,8 @@ def _preprocessStateMachine(lineIter):
         ksurl = None
 
         ll = l.strip()
-        if not ll.startswith("%ksappend"):
+        words = ll.split()
+        if not words or words[0] != "%ksappend":
             if six.PY3:
                 l = l.encode(sys.getdefaultencoding())
             retval += l
@@ -88,8 +89,8 @@ def _preprocessStateMachine(lineIter):
 
         # Try to pull down the remote file.
         try:
-            ksurl = ll.split(' ')[1]
-        except:
+            ksurl = words[1]
+        except IndexError:
             raise KickstartParseError(_("Illegal url for %%ksappend: %s") % ll, lineno=lineno)
 
         try:
-- 
2.43.0


From 9fba46ecb1641c70097e0d4270b3ffad0f5ee3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:11 +0000
Subject: [PATCH 32/46] fix: a file that is not UTF-8 text is a kickstart error

---
 pykickstart/load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index fb935f2..ce66605 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -95,7 +95,7 @@ def _load_file(filename):
         else:
             with open(filename, 'r') as fh:
                 contents = fh.read()
-    except IOError as e:
+    except (IOError, ValueError) as e:
         raise KickstartError(_('Error opening file: %s') % str(e))
 
     return contents
@@ -105,5 +105,5 @@ def _copy_file(filename, destination):
 
     try:
         shutil.copyfile(filename, destination)
-    except (OSError, IOError) as e:
+    except (OSError, IOError, ValueError) as e:
         raise KickstartError(_('Error copying file: %s') % str(e))
-- 
2.43.0


From a620f7b46741961b852a2b44f99a28ebebc188f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:59 +0000
Subject: [PATCH 33/46] fix: keep the start of an indented auth or authselect
 line

---
 pykickstart/commands/authconfig.py | 2 +-
 pykickstart/commands/authselect.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/authconfig.py b/pykickstart/commands/authconfig.py
index e0895a6..0400f93 100644
--- a/pykickstart/commands/authconfig.py
+++ b/pykickstart/commands/authconfig.py
@@ -43,7 +43,7 @@ class FC3_Authconfig(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authconfig = self.currentLine[len(self.currentCmd):].strip()
+        self.authconfig = self.currentLine.strip()[len(self.currentCmd):].strip()
         return self
 
     def _getParser(self):
diff --git a/pykickstart/commands/authselect.py b/pykickstart/commands/authselect.py
index a1caa52..372294b 100644
--- a/pykickstart/commands/authselect.py
+++ b/pykickstart/commands/authselect.py
@@ -39,7 +39,7 @@ class F28_Authselect(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authselect = self.currentLine[len(self.currentCmd):].strip()
+        self.authselect = self.currentLine.strip()[len(self.currentCmd):].strip()
         return self
 
     def _getParser(self):
-- 
2.43.0


From d3e79e13eb609f1bd530fcc0ff2a14a6a1b0512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:27 +0000
Subject: [PATCH 34/46] fix: read the arguments of realm, not the raw line
 (indented lines, comments, escapes)

---
 pykickstart/commands/realm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 53b52f6..776191d 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -24,7 +24,6 @@ from pykickstart.errors import KickstartParseError
 
 import getopt
 import pipes
-import shlex
 
 from pykickstart.i18n import _
 
@@ -38,15 +37,14 @@ class F19_Realm(KickstartCommand):
         self.join_args = []
         self.discover_options = []
 
-    def _parseArguments(self, string):
+    def _parseArguments(self, args):
         if self.join_realm:
             raise KickstartParseError(_("The realm command 'join' should only be specified once"), lineno=self.lineno)
-        args = shlex.split(string)
         if not args:
             raise KickstartParseError(_("Missing realm command arguments"), lineno=self.lineno)
-        command = args.pop(0)
+        command = args[0]
         if command == "join":
-            self._parseJoin(args)
+            self._parseJoin(args[1:])
         else:
             raise KickstartParseError(_("Unsupported realm '%s' command") % command, lineno=self.lineno)
 
@@ -97,7 +95,7 @@ class F19_Realm(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self._parseArguments(self.currentLine[len(self.currentCmd):].strip())
+        self._parseArguments(args)
         return self
 
     def _getParser(self):
-- 
2.43.0


From 3f069fd201bf2db41873b01e4460477e0bac1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:16 +0000
Subject: [PATCH 35/46] fix: a file that includes itself is a parse error

---
 pykickstart/parser.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 15c660c..d79f937 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -58,6 +58,9 @@ from pykickstart.i18n import _
 STATE_END = "end"
 STATE_COMMANDS = "commands"
 
+# How deep %include lines may nest.  A file that includes itself never ends.
+MAX_INCLUDE_DEPTH = 100
+
 def _preprocessStateMachine(lineIter):
     l = None
     lineno = 0
@@ -660,9 +663,7 @@ class KickstartParser(object):
                     self._finalize(obj)
                     break
                 elif args and args[0] == "%include":
-                    if len(args) == 1 or not args[1]:
-                        raise KickstartParseError(lineno=lineno)
-
+                    self._checkInclude(args, lineno)
                     self._handleInclude(args[1])
 
                     if self._state != obj.sectionOpen:
@@ -711,6 +712,14 @@ class KickstartParser(object):
     def _isBlankOrComment(self, line):
         return line.isspace() or line == "" or line.lstrip()[0] == '#'
 
+    def _checkInclude(self, args, lineno):
+        """Raise an exception if the split %include line cannot be followed."""
+        if len(args) == 1 or not args[1]:
+            raise KickstartParseError(lineno=lineno)
+
+        if self._includeDepth >= MAX_INCLUDE_DEPTH:
+            raise KickstartParseError(_("Too many nested %%include lines: %s") % args[1], lineno=lineno)
+
     def _handleInclude(self, f):
         # This case comes up primarily in ksvalidator.
         if not self.followIncludes:
@@ -769,9 +778,7 @@ class KickstartParser(object):
             args = shlex.split(self._line, comments=True)
 
             if args[0] == "%include":
-                if len(args) == 1 or not args[1]:
-                    raise KickstartParseError(lineno=lineno)
-
+                self._checkInclude(args, lineno)
                 self._handleInclude(args[1])
                 continue
 
-- 
2.43.0


From 28c0306a1afae40daabc248ff6b5bc9acf534500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 36/46] fix: report the options of a command that had none
 before in ksverdiff

---
 tools/ksverdiff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/ksverdiff.py b/tools/ksverdiff.py
index 5f59a71..d7fdb13 100755
--- a/tools/ksverdiff.py
+++ b/tools/ksverdiff.py
@@ -92,11 +92,13 @@ def main(argv=None):
         fromCmd = fromHandler.commands[cmd]
         toCmd = toHandler.commands[cmd]
 
-        if not hasattr(fromCmd, "op") or not hasattr(toCmd, "op"):
+        # The options of a command that has no effect do not matter.
+        if any(isinstance(obj, (DeprecatedCommand, RemovedCommand)) for obj in (fromCmd, toCmd)):
             continue
 
-        fromOpt = fromCmd.op._actions
-        toOpt = toCmd.op._actions
+        # Commands without any options do not need to have a parser.
+        fromOpt = fromCmd.op._actions if hasattr(fromCmd, "op") else []
+        toOpt = toCmd.op._actions if hasattr(toCmd, "op") else []
 
         newOptList = getOptSet(toOpt) - getOptSet(fromOpt)
         removedOptList = getOptSet(fromOpt) - getOptSet(toOpt)
-- 
2.43.0


From c2471178993fa5ddeccf38825f14786d798eaba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 37/46] fix: sections read after .clear in ksshell belong to
 the new data

---
 tools/ksshell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index 324180e..ce5e009 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -61,6 +61,8 @@ class ClearCommand(InternalCommand):
     def execute(self, parser):
         version = parser.version
         parser.handler = makeVersion(version)
+        # The sections keep a reference to the handler.
+        parser.setupSections()
 
 class QuitCommand(InternalCommand):
     def execute(self, parser):
-- 
2.43.0


From 75a61607d3bccad1785c29be8762738db0eade0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 38/46] fix: unbalanced quotes do not end ksshell, and it
 removes its temporary file

---
 tools/ksshell.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index ce5e009..f41b747 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -174,9 +174,11 @@ def main(argv=None):
     if opts.input:
         try:
             processedFile = preprocessKickstart(opts.input)
-            ksparser.readKickstart(processedFile)
-            os.remove(processedFile)
-        except KickstartError as e:
+            try:
+                ksparser.readKickstart(processedFile)
+            finally:
+                os.remove(processedFile)
+        except (KickstartError, ValueError) as e:
             # Errors should just dump you to the prompt anyway.
             print(_("Warning:  The following error occurred when processing the input file:\n%s\n") % e)
 
@@ -231,7 +233,7 @@ def main(argv=None):
         # extremely short one.
         try:
             ksparser.readKickstartFromString(line)
-        except KickstartError as e:
+        except (KickstartError, ValueError) as e:
             print(e)
 
     # And finally, print the output kickstart file.
-- 
2.43.0


From 289f7f2d6b6e40045b85386f2be68ad9e423dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 39/46] fix: keep script lines whose first word only looks like
 a section tag

---
 pykickstart/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index d79f937..9d9a0fc 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -684,6 +684,10 @@ class KickstartParser(object):
                     lineno -= 1
                     self._finalize(obj)
                     break
+                else:
+                    # The word only looks like one of the above, for instance
+                    # because an unusual kind of space follows it.
+                    obj.handleLine(line)
             else:
                 # This is just a line within a section.  Pass it off to whatever
                 # section handles it.
-- 
2.43.0


From bd84a4fed2f49249524af5c54b7018d5c8ed7920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 40/46] fix: lines of an unterminated section do not end up in
 a later file's section

---
 pykickstart/sections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 182ebc1..9cbe277 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -129,6 +129,8 @@ class NullSection(Section):
 
     def handleHeader(self, lineno, args):
         self._args = args
+        # Lines of an unterminated section of another file do not belong here.
+        self._body = []
 
     def handleLine(self, line):
         self._body.append(line)
@@ -208,6 +210,8 @@ class ScriptSection(Section):
            This method may be overridden in a subclass if necessary.
         """
         Section.handleHeader(self, lineno, args)
+        # Lines of an unterminated section of another file do not belong here.
+        self._resetScript()
         op = self._getParser()
 
         ns = op.parse_args(args=args[1:], lineno=lineno)
-- 
2.43.0


From 79849310a68b316f058cae14d7f422de58f829f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:59 +0000
Subject: [PATCH 41/46] fix: keep the displayMode keyword of F26_DisplayMode

---
 pykickstart/commands/displaymode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/displaymode.py b/pykickstart/commands/displaymode.py
index d02aaca..5e8ed4a 100644
--- a/pykickstart/commands/displaymode.py
+++ b/pykickstart/commands/displaymode.py
@@ -79,7 +79,7 @@ class F26_DisplayMode(FC3_DisplayMode):
     removedAttrs = KickstartCommand.removedAttrs
 
     def __init__(self, writePriority=0, *args, **kwargs):
-        FC3_DisplayMode.__init__(self, writePriority, args, kwargs)
+        FC3_DisplayMode.__init__(self, writePriority, *args, **kwargs)
         self.nonInteractive = kwargs.get("nonInteractive", False)
 
     def __str__(self):
-- 
2.43.0


From 65167799f20a2930fc1bf8286672c40a52188ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:59 +0000
Subject: [PATCH 42/46] fix: F10_Rescue takes the rescue keyword

---
 pykickstart/commands/rescue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/rescue.py b/pykickstart/commands/rescue.py
index b3ffaa1..493c753 100644
--- a/pykickstart/commands/rescue.py
+++ b/pykickstart/commands/rescue.py
@@ -32,7 +32,7 @@ class F10_Rescue(KickstartCommand):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
 
-        self.rescue = False
+        self.rescue = kwargs.get("rescue", False)
         self.nomount = kwargs.get("nomount", False)
         self.romount = kwargs.get("romount", False)
 
-- 
2.43.0


From 4b3bf57856d7dccbf56ad973fcb8aad19be7ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:59 +0000
Subject: [PATCH 43/46] fix: F19_Realm takes its attributes as keywords

---
 pykickstart/commands/realm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 776191d..d596234 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -33,9 +33,9 @@ class F19_Realm(KickstartCommand):
 
     def __init__(self, writePriority=0, *args, **kwargs):
         KickstartCommand.__init__(self, writePriority, *args, **kwargs)
-        self.join_realm = None
-        self.join_args = []
-        self.discover_options = []
+        self.join_realm = kwargs.get("join_realm", None)
+        self.join_args = kwargs.get("join_args", [])
+        self.discover_options = kwargs.get("discover_options", [])
 
     def _parseArguments(self, args):
         if self.join_realm:
-- 
2.43.0


From 3130398a75b5f3fb99eaaa9f3cdf9d962438b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:59 +0000
Subject: [PATCH 44/46] fix: write logging settings that were set by a program

---
 pykickstart/commands/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/logging.py b/pykickstart/commands/logging.py
index 22e2e75..6819506 100644
--- a/pykickstart/commands/logging.py
+++ b/pykickstart/commands/logging.py
@@ -43,7 +43,7 @@ class FC6_Logging(KickstartCommand):
     def __str__(self):
         retval = KickstartCommand.__str__(self)
 
-        if self.level and self._level_provided:
+        if self.level and (self._level_provided or self.seen or self.host or self.level != "info"):
             retval += "# Installation logging level\nlogging --level=%s" % self.level
 
             if self.host:
-- 
2.43.0


From 08d5ced1283a7bc15678e278960c186cea51ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:54 +0000
Subject: [PATCH 45/46] fix: remove an option under all of its names

---
 pykickstart/options.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykickstart/options.py b/pykickstart/options.py
index cf30c2b..77ba735 100644
--- a/pykickstart/options.py
+++ b/pykickstart/options.py
@@ -255,7 +255,8 @@ class KSOptionParser(ArgumentParser):
                 candidate.help = ""
             candidate.help += "\n\n    .. versionremoved:: %s" % versionToLongString(kwargs.pop("version"))
             self._remove_action(candidate)
-            self._option_string_actions.pop(arg)
+            for option_string in candidate.option_strings:
+                self._option_string_actions.pop(option_string, None)
 
     def error(self, message):
         # Overridden to turn errors into KickstartParseErrors.
-- 
2.43.0


From 765b22f6a0e1a2c498c13ea1e93ee334be0c9bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:25 +0000
Subject: [PATCH 46/46] fix: write none for a mount without mount point

---
 pykickstart/commands/mount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/mount.py b/pykickstart/commands/mount.py
index b5c9d8b..f96bccf 100644
--- a/pykickstart/commands/mount.py
+++ b/pykickstart/commands/mount.py
@@ -50,7 +50,7 @@ class F27_MountData(BaseData):
     def _getArgsAsStr(self):
         retval = "%s" % self.device
 
-        retval += " %s" % self.mount_point or "none"
+        retval += " %s" % (self.mount_point or "none")
 
         if self.reformat:
             retval += " --reformat"
-- 
2.43.0

