From 4f72c3e2842bd43a2a164c8f9c773c2eb47126cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 01/53] fix: do not close a redirect source that another
 redirect still needs

Redirect.move() closed its source fd at once; with two redirects sharing one
source fd (e.g. 2>&1) the second dup2 failed. Sources left behind are closed
by close_other_fds().
---
 pieshell/redir.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 2aedc8a..4d90511 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -113,8 +113,6 @@ class Redirect(object):
         if isinstance(self.source, int):
             log.log("move dup2(%s, %s)" % (self.source, fd), "fd")
             os.dup2(self.source, fd)
-            log.log("move close(%s)" % (self.source), "fd")
-            os.close(self.source)
             self.source = fd
         return self
     def make_pipe(self):
-- 
2.43.0


From b389e0a772995d025ad0a24ef9b9b5c9fb823fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 02/53] fix: a redirect whose file opens directly on the target
 fd is already in place

---
 pieshell/redir.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 4d90511..9c7fab2 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -103,7 +103,9 @@ class Redirect(object):
             os.close(self.source)
     def perform(self):
         source = self.open()
-        assert source != self.fd
+        if source == self.fd:
+            os.set_inheritable(source, True)
+            return
         log.log("perform dup2(%s, %s)" % (source, self.fd), "fd")
         os.dup2(source, self.fd)
         log.log("perform close(%s)" % (source), "fd")
-- 
2.43.0


From f8ac3f332c79444ac071eaf2c76769730959ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 03/53] fix: do not run a command whose redirects could not be
 set up

---
 pieshell/redir.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 9c7fab2..6679d39 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -211,6 +211,7 @@ class Redirects(object):
             import traceback
             log.log(e, "fd")
             log.log(traceback.format_exc(), "fd")
+            raise
     def close_other_fds(self):
         # FIXME: Use os.closerange if available
         for i in range(0, MAXFD):
-- 
2.43.0


From bce0647fa977a92ea0df625563b873b3df3b405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 04/53] fix: a continued child is not a core dump

WCOREDUMP() is true for the status of a continued child.
---
 pieshell/signalio/signalutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/signalio/signalutils.py b/pieshell/signalio/signalutils.py
index e134f1e..f8ae059 100644
--- a/pieshell/signalio/signalutils.py
+++ b/pieshell/signalio/signalutils.py
@@ -68,7 +68,7 @@ def get_sigchlds():
             if os.WIFEXITED(status):
                 res["ssi_code"] = CLD_EXITED
                 res["ssi_status"] = os.WEXITSTATUS(status)
-            elif os.WCOREDUMP(status):
+            elif os.WIFSIGNALED(status) and os.WCOREDUMP(status):
                 res["ssi_code"] = CLD_DUMPED
                 res["ssi_status"] = os.WTERMSIG(status)
             elif os.WIFCONTINUED(status):
-- 
2.43.0


From 7745cecd015aee94e88e51da82d599a1d1ecf33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 05/53] fix: a process terminated by a signal has terminated

---
 pieshell/signalio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/signalio/__init__.py b/pieshell/signalio/__init__.py
index 3755118..507ff18 100644
--- a/pieshell/signalio/__init__.py
+++ b/pieshell/signalio/__init__.py
@@ -52,7 +52,7 @@ class ProcessSignalHandler(SignalHandler):
     def handle_event(self, event):
         log.log("Process event %s" % self.pid, "signal")
         self.last_event = event
-        if event["ssi_code"] == CLD_EXITED:
+        if event["ssi_code"] in (CLD_EXITED, CLD_KILLED, CLD_DUMPED):
             log.log("EXIT %s" % self.pid, "signal")
             #if exception is not None:
             #    self.done_future.set_exception(exception)
-- 
2.43.0


From faae9e4748b9e36c80361049e25c3e0d57675895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 06/53] fix: default redirects of an environment: no unicode
 type in python 3

---
 pieshell/environ.py | 2 +-
 pieshell/redir.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 605fb63..a9909b8 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -139,7 +139,7 @@ class Environment(object):
     def _coerce(self, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes)):
             thing = redir.Redirect(direction, thing)
         if isinstance(thing, redir.Redirect):
             thing = redir.Redirects(thing, defaults=False)
diff --git a/pieshell/redir.py b/pieshell/redir.py
index 6679d39..aefbd28 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -237,7 +237,7 @@ class Redirects(object):
     def _coerce(cls, thing, direction):
         if thing is None:
             thing = "/dev/null"
-        if isinstance(thing, (str, unicode)):
+        if isinstance(thing, (str, bytes)):
             thing = Redirect(direction, thing)
         if isinstance(thing, Redirect):
             thing = Redirects(thing)
-- 
2.43.0


From e8967a6af0b404b65233ffccb21a827236a10169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 07/53] fix: an empty exports dictionary is not the same as no
 exports dictionary

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index a9909b8..44a38c2 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -61,7 +61,7 @@ class Environment(object):
         self.running_pipelines = utils.LineList()
     @property
     def _exports(self):
-        return self._exports_value or os.environ
+        return self._exports_value if self._exports_value is not None else os.environ
     @_exports.setter
     def _exports(self, exports):
         self._exports_value = exports
-- 
2.43.0


From c530e5a6ce0f5ab452ef6ba291c1ac78ad7790a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 08/53] fix: derived environments get their own copy of the
 default redirects

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 44a38c2..9b9a542 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -119,7 +119,7 @@ class Environment(object):
         if interactive is None:
             interactive = self._interactive
         if redirects is None:
-            redirects = self._redirects
+            redirects = redir.Redirects(self._redirects)
         res = type(self)(cwd = self._cwd, exports = exports, interactive = interactive, redirects = redirects)
         if cwd is not None:
             res._cd(cwd)
-- 
2.43.0


From cf2e06ff7211516f740f4a140b94ab4b8bf0d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 09/53] fix: jsonutils.filter raised NameError

---
 pieshell/utils/jsonutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/utils/jsonutils.py b/pieshell/utils/jsonutils.py
index caf82e7..c29a6dc 100644
--- a/pieshell/utils/jsonutils.py
+++ b/pieshell/utils/jsonutils.py
@@ -17,7 +17,7 @@ def filter(func):
                 yield None
             elif func(item):
                 yield item
-    apply_map.__name__ = "filter(%s)" % (func.__name__,)
+    apply_filter.__name__ = "filter(%s)" % (func.__name__,)
     return apply_filter
 
 from_json = map(json.loads)
-- 
2.43.0


From 7b792506cfe7604627a42e2dff5c6e24797b13c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 10/53] fix: a subshell must not continue running its parent's
 code

sys.exit() in the forked child raised SystemExit out of Command._run() and
into whatever code had started the subshell. Also, a failed pipeline whose
last command succeeded gave a successful subshell.
---
 pieshell/pipeline/builtins.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 9dacdda..10f03fb 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -188,10 +188,11 @@ class SubShell(command.Command, builtin.Builtin):
             self._arg[1].run_interactive()
         except Exception as e:
             sys.stderr.write(str(e))
+            sys.stderr.flush()
             if isinstance(e, running.PipelineError):
-                sys.exit(e.pipeline.exit_code)
-            sys.exit(1)
-        sys.exit(0)
+                os._exit(getattr(e.pipeline.processes[-1], "exit_code", 1) or 1)
+            os._exit(1)
+        os._exit(0)
 
 class Remote(builtin.Builtin):
     name = "remote"
-- 
2.43.0


From 6fbf9f27f8159ab014221a4a14bec5070674370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 11/53] fix: finished pipelines are not running pipelines

A pipeline without processes (cd, bg) is finished before it was added to
running_pipelines and so was never removed.
---
 pieshell/pipeline/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index c32aea3..9e5e847 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -150,7 +150,8 @@ class Pipeline(DescribableObject):
             processes = self._run(redirects, sess)
         pipeline = running.RunningPipeline(processes, self)
         self._env.last_pipeline = pipeline
-        self._env.running_pipelines.append(pipeline)
+        if not pipeline.finished:
+            self._env.running_pipelines.append(pipeline)
         return pipeline
     
     async def async_run_interactive(self):
-- 
2.43.0


From ee47fde16d10decf31235d47f4e8e19d236bcfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 12/53] fix: redirected pipelines: pass the session on, close
 overridden sources

CmdRedirect passed the indentation as session, and a source fd overridden
by the redirect (a pipe from the previous command) was never closed.
---
 pieshell/pipeline/redirect.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/redirect.py b/pieshell/pipeline/redirect.py
index c85aab5..cd70605 100644
--- a/pieshell/pipeline/redirect.py
+++ b/pieshell/pipeline/redirect.py
@@ -38,6 +38,11 @@ class CmdRedirect(base.Pipeline):
 
         log.log(indentation + "Running [%s] with %s" % (repr(self), repr(redirects)), "cmd")
 
-        res = self.pipeline._run(redirects.merge(self.cmd_redirects), indentation + "  ")
+        child_redirects = redir.Redirects(redirects)
+        child_redirects.borrow()
+        res = self.pipeline._run(child_redirects.merge(self.cmd_redirects), sess, indentation + "  ")
         self._redirects = self.pipeline._redirects
+
+        redirects.close_source_fds()
+
         return res
-- 
2.43.0


From 68edb8565920a5564596b38978a1f0cab4a957ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 13/53] fix: several waiters on one pipeline are all woken up

---
 pieshell/pipeline/running.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 2bbe1b4..5cf9cf2 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -91,8 +91,9 @@ class RunningPipeline(object):
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
-                    future = self.finish_future = asyncio.get_event_loop().create_future()
-                    await future
+                    if self.finish_future is None:
+                        self.finish_future = asyncio.get_event_loop().create_future()
+                    await asyncio.shield(self.finish_future)
             except KeyboardInterrupt as e:
                 raise PipelineInterrupted(self)
             if self.pipeline_suspended:
-- 
2.43.0


From 6649129e7f5527b7b745c5c6a7d0232e6b754cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 14/53] fix: a pipeline finishes even if its last function or
 wrapped pipeline fails

---
 pieshell/pipeline/builtins.py | 6 ++++--
 pieshell/pipeline/running.py  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 10f03fb..0a94e38 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -65,8 +65,10 @@ class RunnningFg(running.BaseRunningItem):
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
     async def await_finish(self):
-        await self.wrapped_pipeline.wait()
-        self.running_pipeline.handle_finish()
+        try:
+            await self.wrapped_pipeline.wait()
+        finally:
+            self.running_pipeline.handle_finish()
     
 class FgBuiltin(builtin.Builtin):
     """Continue running the last pipeline in the background.
diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 5cf9cf2..08ee12a 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -195,8 +195,10 @@ class RunningItem(BaseRunningItem):
         self.output_content = {}
         asyncio.get_event_loop().create_task(self.await_finish())
     async def await_finish(self):
-        await self.iohandler.wait()
-        self.running_pipeline.handle_finish()
+        try:
+            await self.iohandler.wait()
+        finally:
+            self.running_pipeline.handle_finish()
     @property
     def is_running(self):
         return self.iohandler.is_running
-- 
2.43.0


From 9b199571e1fd9d44250eb1f8f7c7c4c8cc2b321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 15/53] fix: captured output need not be valid text

An undecodable byte raised in handle_finish() and left the pipeline
unfinished forever.
---
 pieshell/pipeline/running.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 08ee12a..3580681 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -212,7 +212,7 @@ class RunningItem(BaseRunningItem):
             if not isinstance(redirect.pipe, redir.STRING): continue
             # Yes, reread the STRING pipe, it can have been modified
             # by another part of the pipeline since we finished.
-            with open(redirect.pipe.path) as f:
+            with open(redirect.pipe.path, errors="replace") as f:
                 self.output_content[fd] = f.read()
     def handle_pipeline_finish_destructive(self):
         for fd, redirect in self.cmd._redirects.redirects.items():
-- 
2.43.0


From d2034e2f7d43fac09dd6b103f0ceeee60db64606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 16/53] fix: do not signal processes that have already been
 reaped

---
 pieshell/pipeline/running.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 3580681..e6c57f7 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -264,11 +264,13 @@ class RunningProcess(RunningItem):
             pass
         RunningItem.__init__(self, cmd, signalio.ProcessSignalHandler(pid))
     def restart(self):
+        if not self.is_running: return
         try:
             os.kill(self.iohandler.pid, signal.SIGCONT)
         except ProcessLookupError:
             pass
     def suspend(self):
+        if not self.is_running: return
         try:
             os.kill(self.iohandler.pid, signal.SIGSTOP)
         except ProcessLookupError:
-- 
2.43.0


From ca6bf644124bc3ef00ce6439f983292a060f3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 17/53] fix: do not write to the fd of an output handler that
 has been closed

---
 pieshell/iterio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1fcc593..8f179f8 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -104,7 +104,7 @@ class OutputHandler(IOHandler):
         return self.iter
             
     async def send_output(self):
-        if self.recursion_lock: return
+        if self.recursion_lock or self.destroyed: return
         iter = self.get_iter()
         try:
             self.recursion_lock = True
@@ -126,7 +126,7 @@ class OutputHandler(IOHandler):
 
 class LineOutputHandler(OutputHandler):
     async def send_output(self):
-        if self.recursion_lock: return
+        if self.recursion_lock or self.destroyed: return
         iter = self.get_iter()
         try:
             self.recursion_lock = True
-- 
2.43.0


From 27c447d7651041b5310077468b224202a4e1f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 18/53] fix: parse_declares: keep the last declaration, undo
 bash's quoting of $ and `

---
 pieshell/pipeline/builtins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 0a94e38..5084219 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -118,6 +118,8 @@ def parse_declares(data):
         if token is None:
             break
         line.append(token)
+    if line:
+        lines.append((lastlineno, line))
 
     vars = {}
     funcstarts = []
@@ -126,6 +128,8 @@ def parse_declares(data):
             name = line[2]
             if "=" in name:
                 name, value = name.split("=", 1)
+                # shlex does not know these two escapes
+                value = value.replace("\\$", "$").replace("\\`", "`")
             else:
                 value = ""
             vars[name] = value
-- 
2.43.0


From bfff37b2a1198d05e3606b5e803604bcfb9e31d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 19/53] fix: a failing chdir leaves the environment's directory
 unchanged

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 9b9a542..0a549b3 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -96,9 +96,9 @@ class Environment(object):
         cwd = self._expand_path(cwd)
         if not os.path.exists(cwd):
             raise IOError("Path does not exist: %s" % cwd)
-        self._cwd = cwd
         if self._interactive:
             os.chdir(cwd)
+        self._cwd = cwd
         return self
     def __call__(self, cwd = None, exports = None, interactive = None, redirects = None):
         """Creates a new environment based on the current ones. All
-- 
2.43.0


From 961d640ff470ac2702bc2490e7f5e65bdf8cd5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 20/53] fix: an assignment to an exported variable is not
 hidden by an old local

---
 pieshell/environ.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 0a549b3..0482a41 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -208,7 +208,8 @@ class EnvScope(dict):
         if name == "env":
             value._scope = self
         env = dict.__getitem__(self, 'env')
-        if name in env._exports:
+        if name != "env" and name in env._exports:
+            dict.pop(self, name, None)
             env._exports[name] = value
         else:
             dict.__setitem__(self, name, value)
-- 
2.43.0


From 9fda3561e9598a51b6bcf1b0db89e8559453c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 21/53] fix: glob characters in the working directory are not a
 pattern

---
 pieshell/environ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 0482a41..d2db22d 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -85,7 +85,7 @@ class Environment(object):
         arg = os.path.expanduser(arg)
         if ("*" not in arg) and ("?" not in arg) and ("[" not in arg):
             return [arg]
-        res = glob.glob(self._expand_path(arg))
+        res = glob.glob(os.path.abspath(os.path.join(glob.escape(self._cwd), arg)))
         if not res: return [arg]
         if self._cwd != "/":
             for idx in range(0, len(res)):
-- 
2.43.0


From c4a074685b2def93b310de474f6cb98bf75c8d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 22/53] fix: asyncio signal manager: dispatch every signal
 under its own number

---
 pieshell/signalio/manager_asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/signalio/manager_asyncio.py b/pieshell/signalio/manager_asyncio.py
index 6eb38b6..8237368 100644
--- a/pieshell/signalio/manager_asyncio.py
+++ b/pieshell/signalio/manager_asyncio.py
@@ -12,7 +12,7 @@ class SignalManager(object):
         self.mask = mask
         self.signal_handlers = {}
         for signo in mask:
-            asyncio.get_event_loop().add_signal_handler(signo, lambda: self.handle_event(signo))
+            asyncio.get_event_loop().add_signal_handler(signo, lambda signo=signo: self.handle_event(signo))
         
     def filter_to_key(self, flt):
         key = sorted(flt.items(), key=lambda item: item[0])
@@ -60,7 +60,7 @@ class SignalManager(object):
         # gets squashed into just one delivered signal event by
         # Linux...
         siginfos = [siginfo]
-        if siginfo["ssi_signo"] == signal.SIGCHLD or siginfo["ssi_signo"] == signal.SIGTSTP:
+        if siginfo["ssi_signo"] == signal.SIGCHLD:
             siginfos = signalutils.get_sigchlds()
 
         for siginfo in siginfos:
-- 
2.43.0


From 31e6d7585c4cc650e040a268cf7f09ff206f6644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 23/53] fix: a child that cannot execute its program always
 exits

If writing the error message failed (standard error closed or full), or the
exception was not an Exception (SystemExit raised by a subshell's pipeline),
the forked child continued running its parent's code.
---
 pieshell/pipeline/command.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index 5729027..f7a8a1d 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -227,10 +227,11 @@ class Command(command.BaseCommand):
             try:
                 self._child(redirects, args)
             except Exception as e:
+                ecode = getattr(e, "errno", None) or ecode
                 sys.stderr.write("Unable to execute %s: %s\n" % (repr(self), e))
-                ecode = getattr(e, "errno", ecode)
-            # If we ever get to here, all is lost...
-            os._exit(ecode)
+            finally:
+                # If we ever get to here, all is lost...
+                os._exit(ecode)
 
         log.log(indentation + "  %s: Command line %s with %s" % (pid, ' '.join(repr(arg) for arg in args), repr(redirects)), "cmd")
 
-- 
2.43.0


From 3e298dd55089e3fa05905438f8b06e9860c84e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 24/53] fix: a process named children is reachable in the
 process tree

---
 pieshell/tree.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pieshell/tree.py b/pieshell/tree.py
index d204a28..acff6d2 100644
--- a/pieshell/tree.py
+++ b/pieshell/tree.py
@@ -11,15 +11,15 @@ class TreeGroup(object):
                 key = "n" + key
             if key not in procs: procs[key] = {}
             procs[key][child._getkey(None)] = child
-        self.children = {}
+        self._children = {}
         for key, value in procs.items():
             if len(value) == 1:
-                self.children[key] = next(iter(value.values()))
+                self._children[key] = next(iter(value.values()))
             else:
-                self.children[key] = TreeGroup(value.values(), level+1)        
+                self._children[key] = TreeGroup(value.values(), level+1)        
     def __dir__(self):
-        return self.children.keys()
+        return self._children.keys()
     def __getattr__(self, key):
-        if key not in self.children:
+        if key not in self._children:
             raise AttributeError(key)
-        return self.children[key]
+        return self._children[key]
-- 
2.43.0


From a0ae381bbcc96c2290e0e3bd980e2cbd3aa930cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 25/53] fix: paths starting with ~ that name no user are
 relative to the environment, not the interpreter

---
 pieshell/environ.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index d2db22d..0eb4645 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -69,10 +69,8 @@ class Environment(object):
     def _exports(self):
         self._exports_value = None
     def _expand_path(self, pth):
-        if not pth.startswith("/") and not pth.startswith("~"):
-            pth = os.path.join(self._cwd, pth)
         pth = os.path.expanduser(pth)
-        pth = os.path.abspath(pth)
+        pth = os.path.abspath(os.path.join(self._cwd, pth))
         return pth
     def _expand_argument(self, arg):
         """Performs argument glob expansion on an argument string.
-- 
2.43.0


From b98a02b5cd2fe9aafe5ce0196469d3b2f021aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 26/53] fix: functions can read and write regular files and
 other descriptors that cannot be polled

---
 pieshell/iterio.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 8f179f8..d5e9891 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -41,10 +41,18 @@ class IOHandler(object):
         loop = asyncio.get_event_loop()
         def callback(event):
             self.handle_event(event)
-        if self.events & select.POLLIN:
-            loop.add_reader(self.fd, callback, select.POLLIN)
-        if self.events & select.POLLOUT:
-            loop.add_writer(self.fd, callback, select.POLLOUT)
+        try:
+            if self.events & select.POLLIN:
+                loop.add_reader(self.fd, callback, select.POLLIN)
+            if self.events & select.POLLOUT:
+                loop.add_writer(self.fd, callback, select.POLLOUT)
+        except PermissionError:
+            # Files and devices that can't be polled are always ready
+            def always_ready():
+                if self.enabled:
+                    callback(self.events)
+                    loop.call_soon(always_ready)
+            loop.call_soon(always_ready)
         log.log("REGISTER %s, %s, %s" % (self.fd, events_to_str(self.events), self), "ioreg")
     def disable(self):
         self.enabled = False
-- 
2.43.0


From 1fa9293309bb2b167c6a7f3bc50f51c5bc5656e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 27/53] fix: write the rest of an item when a non-blocking
 descriptor takes only part of it

---
 pieshell/iterio.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index d5e9891..21eace3 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -77,6 +77,7 @@ class OutputHandler(IOHandler):
 
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
+        self.pending = b""
         self.recursion_lock = False
         self.done_future = asyncio.get_event_loop().create_future()
         IOHandler.__init__(self, fd, borrowed, usage)
@@ -111,15 +112,26 @@ class OutputHandler(IOHandler):
             self.iter = self.iter.__aiter__()
         return self.iter
             
+    def write(self, data):
+        # What a non-blocking descriptor did not take is written when
+        # it is ready again
+        try:
+            self.pending = data[os.write(self.fd, data):]
+        except BlockingIOError:
+            self.pending = data
+
     async def send_output(self):
         if self.recursion_lock or self.destroyed: return
         iter = self.get_iter()
         try:
+            if self.pending:
+                self.write(self.pending)
+                return
             self.recursion_lock = True
             val = await iter.__anext__()
             self.recursion_lock = False
             if val is not None:
-                os.write(self.fd, val)                
+                self.write(val)
         except StopAsyncIteration:
             self.destroy()
         except Exception as e:
@@ -137,11 +149,14 @@ class LineOutputHandler(OutputHandler):
         if self.recursion_lock or self.destroyed: return
         iter = self.get_iter()
         try:
+            if self.pending:
+                self.write(self.pending)
+                return
             self.recursion_lock = True
             val = await iter.__anext__()
             self.recursion_lock = False
             if val is not None:
-                os.write(self.fd, val + b"\n")
+                self.write(val + b"\n")
             log.log("WRITE %s, %s" % (self.fd, repr(val)), "io")
         except StopAsyncIteration:
             log.log("STOP ITERATION %s" % self.fd, "ioevent")
-- 
2.43.0


From 22b1f30ea7d46c48af8725378e6500650f300797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 28/53] fix: a stage whose items can not be iterated or are
 cancelled fails instead of never ending

---
 pieshell/iterio.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 21eace3..5062f69 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -122,8 +122,8 @@ class OutputHandler(IOHandler):
 
     async def send_output(self):
         if self.recursion_lock or self.destroyed: return
-        iter = self.get_iter()
         try:
+            iter = self.get_iter()
             if self.pending:
                 self.write(self.pending)
                 return
@@ -134,7 +134,7 @@ class OutputHandler(IOHandler):
                 self.write(val)
         except StopAsyncIteration:
             self.destroy()
-        except Exception as e:
+        except (Exception, asyncio.CancelledError) as e:
             self.destroy(e)
 
     def _repr_args(self):
@@ -147,8 +147,8 @@ class OutputHandler(IOHandler):
 class LineOutputHandler(OutputHandler):
     async def send_output(self):
         if self.recursion_lock or self.destroyed: return
-        iter = self.get_iter()
         try:
+            iter = self.get_iter()
             if self.pending:
                 self.write(self.pending)
                 return
@@ -161,7 +161,7 @@ class LineOutputHandler(OutputHandler):
         except StopAsyncIteration:
             log.log("STOP ITERATION %s" % self.fd, "ioevent")
             self.destroy()
-        except Exception as e:
+        except (Exception, asyncio.CancelledError) as e:
             self.destroy(e)
 
 class InputHandler(IOHandler):
-- 
2.43.0


From ba31e80e9cbfd0633c27c77a68e9176786801099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 29/53] fix: functions can return any asynchronous iterable

---
 pieshell/iterio.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 5062f69..1a5060a 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -77,6 +77,7 @@ class OutputHandler(IOHandler):
 
     def __init__(self, fd, iter, borrowed = False, usage = None):
         self.iter = iter
+        self.iterating = False
         self.pending = b""
         self.recursion_lock = False
         self.done_future = asyncio.get_event_loop().create_future()
@@ -106,10 +107,12 @@ class OutputHandler(IOHandler):
         asyncio.get_event_loop().create_task(self.send_output())
 
     def get_iter(self):
-        if not hasattr(self.iter, "__anext__"):
-            if not hasattr(self.iter, "__aiter__"):
+        if not self.iterating:
+            if not hasattr(self.iter, "__aiter__") and not hasattr(self.iter, "__anext__"):
                 self.iter = itertoasync(self.iter)
-            self.iter = self.iter.__aiter__()
+            if hasattr(self.iter, "__aiter__"):
+                self.iter = self.iter.__aiter__()
+            self.iterating = True
         return self.iter
             
     def write(self, data):
-- 
2.43.0


From 6467e75d3624036db8776582fa16a3deb7c5e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 30/53] fix: a pipeline brought to the foreground and suspended
 again wakes whoever waits for fg

---
 pieshell/pipeline/builtins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 5084219..37fcbb6 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -57,16 +57,20 @@ class BgBuiltin(builtin.Builtin):
 class RunnningFg(running.BaseRunningItem):
     def __init__(self, pipeline):
         self.wrapped_pipeline = pipeline
+        self.suspended = False
         asyncio.get_event_loop().create_task(self.await_finish())
     @property
     def is_running(self):
-        return self.wrapped_pipeline.is_running
+        return not self.suspended and self.wrapped_pipeline.is_running
     @property
     def is_failed(self):
         return self.wrapped_pipeline.is_failed
     async def await_finish(self):
         try:
             await self.wrapped_pipeline.wait()
+        except running.PipelineSuspended:
+            self.suspended = True
+            self.running_pipeline.pipeline_suspended = True
         finally:
             self.running_pipeline.handle_finish()
     
-- 
2.43.0


From 39a16a48fcbb951aa7391e8675a286c893c7b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 31/53] fix: the end of one pipeline's wait leaves the terminal
 stop directed at the pipeline still waited for

---
 pieshell/pipeline/running.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index e6c57f7..7812a1a 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -102,7 +102,8 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            stop_signal_handler.current_pipeline = None
+            if stop_signal_handler.current_pipeline is self:
+                stop_signal_handler.current_pipeline = None
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From b7c968e2f3076614f58f2f6e0d495246a9880dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 32/53] fix: the terminal stop is directed at the pipeline
 waited for also after a later wait has ended

---
 pieshell/pipeline/running.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 7812a1a..33a885d 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -28,8 +28,12 @@ except:
 
 class StopSignalHandler(signalio.SignalHandler):
     def __init__(self):
-        self.current_pipeline = None
+        self.waited_for = []
         signalio.SignalHandler.__init__(self, {"ssi_signo": signal.SIGTSTP})
+    @property
+    def current_pipeline(self):
+        if not self.waited_for: return None
+        return self.waited_for[-1]
     def handle_event(self, event):
         if self.current_pipeline is not None:
             self.current_pipeline.pipeline_suspended = True
@@ -85,9 +89,11 @@ class RunningPipeline(object):
         for process in self.processes:
             process.suspend()
     async def wait(self):
+        waited_for = []
+        if self.pipeline._env._interactive:
+            waited_for = stop_signal_handler.waited_for
+        waited_for.append(self)
         try:
-            if self.pipeline._env._interactive:
-                stop_signal_handler.current_pipeline = self
             try:
                 self.restart()
                 while not self.pipeline_suspended and self.is_running:
@@ -102,8 +108,7 @@ class RunningPipeline(object):
             if self.failed_processes:
                 raise PipelineFailed(self)
         finally:
-            if stop_signal_handler.current_pipeline is self:
-                stop_signal_handler.current_pipeline = None
+            waited_for.remove(self)
     def __await__(self):
         return self.wait().__await__()
     def handle_finish(self):
-- 
2.43.0


From f3131624ab7c1cd03adc153cf161c22f97bd4a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 33/53] fix: removing the output files works when parts of the
 pipeline share one

---
 pieshell/pipeline/running.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/running.py b/pieshell/pipeline/running.py
index 33a885d..4650899 100644
--- a/pieshell/pipeline/running.py
+++ b/pieshell/pipeline/running.py
@@ -186,7 +186,11 @@ class BaseRunningItem(object):
         for fd, name in self.output_files.items():
             if hasattr(name, "path"):
                 name = name.path
-            os.unlink(name)
+            try:
+                os.unlink(name)
+            except FileNotFoundError:
+                # Shared with another part of the pipeline
+                pass
     def restart(self):
         pass
     def suspend(self):
-- 
2.43.0


From ef17004693620b9951fc754cbc3f85b2226cedab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 34/53] fix: both parts of a group or pipe share a pipe to the
 outside instead of each making its own

---
 pieshell/pipeline/group.py | 3 +++
 pieshell/pipeline/pipe.py  | 3 +++
 pieshell/redir.py          | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/pieshell/pipeline/group.py b/pieshell/pipeline/group.py
index 9ed6b1c..4060e01 100644
--- a/pieshell/pipeline/group.py
+++ b/pieshell/pipeline/group.py
@@ -36,6 +36,8 @@ class Group(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        # A pipe to the outside is shared by both parts, they must not each make their own
+        redirects = redirects.make_shared_pipes()
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
@@ -44,6 +46,7 @@ class Group(base.Pipeline):
         b = self.b._run(child_redirects, sess, indentation + "  ")
 
         self._redirects = self.a._redirects.merge(self.b._redirects)
+        self._redirects.expose_pipes(redirects)
 
         redirects.close_source_fds()
 
diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index 64afa7d..d114da5 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -37,6 +37,8 @@ class Pipe(base.Pipeline):
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
 
+        # A pipe to the outside is shared by both parts, they must not each make their own
+        redirects = redirects.make_shared_pipes(exclude=(0, 1))
         child_redirects = redir.Redirects(redirects)
         child_redirects.borrow()
 
@@ -47,6 +49,7 @@ class Pipe(base.Pipeline):
         self._redirects = self.src._redirects.merge(self.dst._redirects)
         self._redirects.register(redir.Redirect(self.src._redirects.stdin))
         self._redirects.register(redir.Redirect(self.dst._redirects.stdout))
+        self._redirects.expose_pipes(redirects)
 
         redirects.close_source_fds()
 
diff --git a/pieshell/redir.py b/pieshell/redir.py
index aefbd28..17b006b 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -194,6 +194,14 @@ class Redirects(object):
     def make_pipes(self):
         return type(self)(*[redirect.make_pipe()
                             for redirect in self.redirects.values()])
+    def make_shared_pipes(self, exclude=()):
+        # Like make_pipes, but only for pipes: captures are separate for each process
+        return type(self)(*[redirect if redirect.fd in exclude or redirect.source is not PIPE else redirect.make_pipe()
+                            for redirect in self.redirects.values()])
+    def expose_pipes(self, redirects):
+        for redirect in redirects.redirects.values():
+            if isinstance(redirect.pipe, int):
+                self.register(Redirect(redirect))
     def move_existing_fds(self):
         new_fd = self.find_free_fd()
         redirects = []
-- 
2.43.0


From 32c07e9013077665ec24e75695477555ec89532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 35/53] fix: a pipe whose source redirects its output elsewhere
 gives the destination an empty input

---
 pieshell/pipeline/pipe.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/pipe.py b/pieshell/pipeline/pipe.py
index d114da5..005d1f6 100644
--- a/pieshell/pipeline/pipe.py
+++ b/pieshell/pipeline/pipe.py
@@ -44,7 +44,11 @@ class Pipe(base.Pipeline):
 
         log.log(indentation + "Running %s with %s" % (repr(self), repr(redirects)), "cmd")
         src = self.src._run(redir.Redirects(child_redirects).redirect("stdout", redir.PIPE), sess, indentation + "  ")
-        dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", self.src._redirects.stdout.pipe), sess, indentation + "  ")
+        source = self.src._redirects.stdout.pipe
+        if not isinstance(source, int):
+            # The output has been redirected elsewhere, there is nothing to read
+            source = "/dev/null"
+        dst = self.dst._run(redir.Redirects(child_redirects).redirect("stdin", source), sess, indentation + "  ")
 
         self._redirects = self.src._redirects.merge(self.dst._redirects)
         self._redirects.register(redir.Redirect(self.src._redirects.stdin))
-- 
2.43.0


From 571e83e4625200ae5b7986a292606ba381c82c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 36/53] fix: an argument pipe that redirects its output
 elsewhere reads as empty

---
 pieshell/pipeline/command.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pieshell/pipeline/command.py b/pieshell/pipeline/command.py
index f7a8a1d..2ae6360 100644
--- a/pieshell/pipeline/command.py
+++ b/pieshell/pipeline/command.py
@@ -200,10 +200,15 @@ class Command(command.BaseCommand):
             sess,
             indentation + "  ")
 
+        source = getattr(thing._redirects, direction).pipe
+        if not isinstance(source, int):
+            # The output has been redirected elsewhere, there is nothing to read
+            source = "/dev/null"
+
         fd = redirects.find_free_fd()
         redirects.redirect(
             fd,
-            getattr(thing._redirects, direction).pipe,
+            source,
             {"stdin": os.O_WRONLY, "stdout": os.O_RDONLY}[direction])
 
         self._running_processes.extend(arg_pipe)
-- 
2.43.0


From 4bd50ae4255f7b6dedd60958c9a5127463bd69f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:47 +0000
Subject: [PATCH 37/53] fix: functions sharing their input do not block when
 another one has read it

---
 pieshell/iterio.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pieshell/iterio.py b/pieshell/iterio.py
index 1a5060a..7294394 100644
--- a/pieshell/iterio.py
+++ b/pieshell/iterio.py
@@ -40,6 +40,9 @@ class IOHandler(object):
         self.enabled = True
         loop = asyncio.get_event_loop()
         def callback(event):
+            if event & select.POLLIN and not self.readable():
+                # Another reader of the same pipe was faster
+                return
             self.handle_event(event)
         try:
             if self.events & select.POLLIN:
@@ -54,6 +57,10 @@ class IOHandler(object):
                     loop.call_soon(always_ready)
             loop.call_soon(always_ready)
         log.log("REGISTER %s, %s, %s" % (self.fd, events_to_str(self.events), self), "ioreg")
+    def readable(self):
+        poll = select.poll()
+        poll.register(self.fd, self.events)
+        return not not poll.poll(0)
     def disable(self):
         self.enabled = False
         loop = asyncio.get_event_loop()
-- 
2.43.0


From ea96533ac4b37ba8fe079da8443523fa2bb18d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 38/53] fix: running a pipeline leaves environments, classes
 and numbers among its arguments as they are

---
 pieshell/utils/copy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/utils/copy.py b/pieshell/utils/copy.py
index a8ff154..08888bf 100644
--- a/pieshell/utils/copy.py
+++ b/pieshell/utils/copy.py
@@ -29,8 +29,8 @@ def deepcopy(obj):
                 memo[key] = bytes(obj)
             elif isinstance(obj, str):
                 memo[key] = str(obj)
-            elif hasattr(obj, "__deepcopy__"):
-                memo[key] = obj.__deepcopy__()
+            elif hasattr(type(obj), "__deepcopy__"):
+                memo[key] = obj.__deepcopy__(memo)
             else:
                 memo[key] = obj
         return memo[key]
-- 
2.43.0


From 95ae4f58ba15efd6cf00b04a0b79092cf4e0709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 39/53] fix: running a pipeline with named tuples or
 dictionaries with defaults among its arguments

---
 pieshell/utils/copy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pieshell/utils/copy.py b/pieshell/utils/copy.py
index 08888bf..fae9a34 100644
--- a/pieshell/utils/copy.py
+++ b/pieshell/utils/copy.py
@@ -1,5 +1,6 @@
 # Minimal reimplementation of copy.deepcopy that happily copies
 # objects inheriting from type...
+import collections
 import threading
 import contextlib
 
@@ -21,8 +22,12 @@ def deepcopy(obj):
     with copy_session() as memo:
         key = id(obj)
         if key not in memo:
-            if isinstance(obj, (list, tuple)):
+            if isinstance(obj, tuple) and hasattr(type(obj), "_make"):
+                memo[key] = type(obj)._make(deepcopy(item) for item in obj)
+            elif isinstance(obj, (list, tuple)):
                 memo[key] = type(obj)(deepcopy(item) for item in obj)
+            elif isinstance(obj, collections.defaultdict):
+                memo[key] = type(obj)(obj.default_factory, {deepcopy(key):deepcopy(value) for key, value in obj.items()})
             elif isinstance(obj, dict):
                 memo[key] = type(obj)({deepcopy(key):deepcopy(value) for key, value in obj.items()})
             elif isinstance(obj, bytes):
-- 
2.43.0


From cbcace2286bb9b9ad4198f90226b61633b4303eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 40/53] fix: running a pipeline leaves strings of other classes
 as they are

---
 pieshell/utils/copy.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pieshell/utils/copy.py b/pieshell/utils/copy.py
index fae9a34..70001a4 100644
--- a/pieshell/utils/copy.py
+++ b/pieshell/utils/copy.py
@@ -30,10 +30,8 @@ def deepcopy(obj):
                 memo[key] = type(obj)(obj.default_factory, {deepcopy(key):deepcopy(value) for key, value in obj.items()})
             elif isinstance(obj, dict):
                 memo[key] = type(obj)({deepcopy(key):deepcopy(value) for key, value in obj.items()})
-            elif isinstance(obj, bytes):
-                memo[key] = bytes(obj)
-            elif isinstance(obj, str):
-                memo[key] = str(obj)
+            elif isinstance(obj, (bytes, str)):
+                memo[key] = obj
             elif hasattr(type(obj), "__deepcopy__"):
                 memo[key] = obj.__deepcopy__(memo)
             else:
-- 
2.43.0


From 196c1691de3367ec330327701b0ec2db3f81668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 41/53] fix: a pipeline that is run has redirections of its own

---
 pieshell/redir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pieshell/redir.py b/pieshell/redir.py
index 17b006b..b7f1b9a 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -164,6 +164,8 @@ class Redirects(object):
                     self.register(Redirect(item))
             else:
                 self.register(Redirect(redirect))
+    def __deepcopy__(self, memo = {}):
+        return type(self)(*[copy.deepcopy(redirect) for redirect in self.redirects.values()])
     def borrow(self):
         for redirect in self.redirects.values():
             redirect.borrow()
-- 
2.43.0


From df27969d42e2b302ef1df4892974eca26ede246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:31 +0000
Subject: [PATCH 42/53] fix: importing from a namespace package finds its .pysh
 modules

Its search path is no list, and was joined to the file name as a whole
(TypeError), also when the module exists nowhere.
---
 pieshell/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index a41fe6a..659a6f0 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -31,7 +31,7 @@ class Finder(object):
         paths = sys.path
         if path is not None:
             paths = path
-        if not isinstance(paths, (list, tuple)):
+        if isinstance(paths, str):
             paths = [paths]
         found = None
         for path in paths:
-- 
2.43.0


From 12fd6f05c62deae474a2f0c2a868dd24ef4414f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:31 +0000
Subject: [PATCH 43/53] fix: a directory named NAME.pysh is not a module

---
 pieshell/module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/module.py b/pieshell/module.py
index 659a6f0..f0f24e8 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -37,7 +37,7 @@ class Finder(object):
         for path in paths:
             if path == "": path = "."
             filepath = os.path.join(path, filename)
-            if os.path.exists(filepath):
+            if os.path.isfile(filepath):
                 found = filepath
                 break
         if found is None:
-- 
2.43.0


From 37cb1cded9b84cefcc30f51074d721edcf6ca275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:31 +0000
Subject: [PATCH 44/53] fix: the environment of a .pysh module knows the
 module's variables

Command arguments of the form %(name)s and temporary_env use the scope of
the environment, which was not set (KeyError).
---
 pieshell/module.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pieshell/module.py b/pieshell/module.py
index f0f24e8..5a8b982 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -21,6 +21,7 @@ class Loader(object):
         if fullname not in sys.modules:
             env = environ.envScope["env"]()
             scope = environ.EnvScope(env=env)
+            scope["env"] = env
             sys.modules[fullname] = Module(scope, fullname.split(".")[-1])
         sys.modules[fullname]._scope.execute_file(self.path)
         return sys.modules[fullname]
-- 
2.43.0


From 4d435f4b14da49b3734231f081cbccd745c74733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:31 +0000
Subject: [PATCH 45/53] fix: special attributes of a .pysh module are not
 commands

from module import * and import module.sub ran the commands __all__ and
__path__; the former now imports what the module defines.
---
 pieshell/module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pieshell/module.py b/pieshell/module.py
index 5a8b982..aca6f6e 100644
--- a/pieshell/module.py
+++ b/pieshell/module.py
@@ -8,6 +8,10 @@ class Module(types.ModuleType):
         types.ModuleType.__setattr__(self, "_scope", scope)
         super(Module, self).__init__(name, doc)
     def __getattr__(self, name):
+        if name.startswith("__") and name.endswith("__") and not dict.__contains__(self._scope, name):
+            if name == "__all__":
+                return [key for key in dir(self) if not key.startswith("_") and key != "env"]
+            raise AttributeError(name)
         return self._scope[name]
     def __setattr__(self, name, value):
         self._scope[name] = value
-- 
2.43.0


From 6aa4315a765ae8bbea090feb715a8bccce008e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:50 +0000
Subject: [PATCH 46/53] fix: a subshell whose errors can not be written keeps
 its exit status

The status was that of the failing write (or none of the pipeline's) instead
of the status of the pipeline's last process.
---
 pieshell/pipeline/builtins.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 37fcbb6..fe043de 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -197,11 +197,14 @@ class SubShell(command.Command, builtin.Builtin):
         try:
             self._arg[1].run_interactive()
         except Exception as e:
-            sys.stderr.write(str(e))
-            sys.stderr.flush()
+            ecode = 1
             if isinstance(e, running.PipelineError):
-                os._exit(getattr(e.pipeline.processes[-1], "exit_code", 1) or 1)
-            os._exit(1)
+                ecode = getattr(e.pipeline.processes[-1], "exit_code", 1) or 1
+            try:
+                sys.stderr.write(str(e))
+                sys.stderr.flush()
+            finally:
+                os._exit(ecode)
         os._exit(0)
 
 class Remote(builtin.Builtin):
-- 
2.43.0


From 123ea3419fe1ecb6aeb1e2c55dbae3466f29ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 47/53] fix: sourcing bash scripts whose functions contain
 declarations, quotes or comments

---
 pieshell/pipeline/builtins.py | 67 ++++++++++++++---------------------
 1 file changed, 26 insertions(+), 41 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index fe043de..958aefa 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -1,7 +1,6 @@
 import os
 import os.path
-import shlex
-import io
+import re
 import asyncio
 import sys
 import base64
@@ -105,49 +104,35 @@ class ClearDirCacheBuiltin(builtin.Builtin):
         except:
             return []
 
+# What "declare -x" and "declare -f" print
+declare_re = re.compile(r"""^declare -\S+ (\w+)(?:="((?:[^"\\]|\\.)*)"|=\$'((?:[^'\\]|\\.)*)'|)$""", re.M | re.S)
+function_re = re.compile(r"^(?:function )?([^ \n]+) \(\) \n\{ $", re.M)
+ansic_escapes = {b"E": b"\x1b", b"a": b"\a", b"b": b"\b", b"f": b"\f", b"n": b"\n", b"r": b"\r", b"t": b"\t", b"v": b"\v"}
+
+def unquote_ansic(value):
+    def unescape(m):
+        if len(m.group(1)) == 3:
+            return bytes([int(m.group(1), 8)])
+        return ansic_escapes.get(m.group(1), m.group(1))
+    return re.sub(rb"\\([0-7]{3}|.)", unescape, value.encode("utf-8", "surrogateescape")).decode("utf-8", "surrogateescape")
+
 def parse_declares(data):
-    l = shlex.shlex(io.StringIO(data), posix=True)
-
-    l.whitespace_split = True
-
-    lastlineno = 1
-    line = []
-    lines = []
-    while True:
-        if l.lineno != lastlineno:
-            lines.append((lastlineno, line))
-            line = []
-        lastlineno = l.lineno
-        token = l.get_token()
-        if token is None:
-            break
-        line.append(token)
-    if line:
-        lines.append((lastlineno, line))
+    # All variables are before the first function
+    starts = list(function_re.finditer(data))
+    declares = data[:starts[0].start()] if starts else data
 
     vars = {}
-    funcstarts = []
-    for (lineno, line) in lines:
-        if line[0] == "declare":
-            name = line[2]
-            if "=" in name:
-                name, value = name.split("=", 1)
-                # shlex does not know these two escapes
-                value = value.replace("\\$", "$").replace("\\`", "`")
-            else:
-                value = ""
-            vars[name] = value
-        elif len(line) == 3 and line[1] == '()' and line[2] == '{':
-            funcstarts.append((lineno, line[0]))
-
-    lines = data.split("\n")
-    funcs = {}
-    for i in range(len(funcstarts)):
-        if i >= len(funcstarts) - 1:
-            flines = lines[funcstarts[i][0]-1:]
+    for m in declare_re.finditer(declares):
+        name, quoted, ansic = m.groups()
+        if ansic is not None:
+            vars[name] = unquote_ansic(ansic)
         else:
-            flines = lines[funcstarts[i][0]-1:funcstarts[i+1][0]-1]
-        funcs[funcstarts[i][1]] = "\n".join(flines)
+            vars[name] = re.sub(r"\\(.)", r"\1", quoted or "", flags=re.S)
+
+    funcs = {}
+    for i, m in enumerate(starts):
+        end = starts[i + 1].start() if i + 1 < len(starts) else len(data)
+        funcs[m.group(1)] = data[m.start():end].rstrip("\n")
 
     return vars, funcs
 
-- 
2.43.0


From 4afbf61002feadd74559b8faf0f67ba7c6054dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:15 +0000
Subject: [PATCH 48/53] fix: R and SpecialRedirect objects can be unpickled

---
 pieshell/environ.py | 1 +
 pieshell/redir.py   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 0eb4645..8d88564 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -20,6 +20,7 @@ class R(object):
     def __init__(self, str):
         self.str = str
     def __getattr__(self, name):
+        if name == "str": raise AttributeError(name) # Not initialized yet, e.g. while unpickling
         return getattr(self.str, name)
     def __iter__(self):
         return iter(self.str)
diff --git a/pieshell/redir.py b/pieshell/redir.py
index b7f1b9a..3954060 100644
--- a/pieshell/redir.py
+++ b/pieshell/redir.py
@@ -25,7 +25,7 @@ class SpecialRedirect(object):
     def __init__(self, **kws):
         object.__setattr__(self, "kws", kws)
     def __getattr__(self, name):
-        if name not in self.kws:
+        if name == "kws" or name not in self.kws:
             raise AttributeError(name)
         return self.kws[name]
     def __setattr__(self, name):
-- 
2.43.0


From 565fcedad673d3fbf4ec10564c5e54794da477f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:15 +0000
Subject: [PATCH 49/53] fix: environments in which pipelines run, or have run,
 can be pickled

---
 pieshell/environ.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pieshell/environ.py b/pieshell/environ.py
index 8d88564..1dd0538 100644
--- a/pieshell/environ.py
+++ b/pieshell/environ.py
@@ -190,9 +190,9 @@ class Environment(object):
     def __getstate__(self):
         def mangle(k, v):
             if k == "_scope": return None
-            if k == "last_pipeline": return v.pipeline
+            if k == "running_pipelines": return utils.LineList()
             return v
-        return {k: mangle(k, v) for k, v in self.__dict__.items()}
+        return {k: mangle(k, v) for k, v in self.__dict__.items() if k != "last_pipeline"}
 
 env = Environment()
 
-- 
2.43.0


From 6d003f701a05c5cd613af95f08573f09d96a9ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:31 +0000
Subject: [PATCH 50/53] fix: an unpickled command is not shown as running

---
 pieshell/pipeline/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/base.py b/pieshell/pipeline/base.py
index 9e5e847..e70400b 100644
--- a/pieshell/pipeline/base.py
+++ b/pieshell/pipeline/base.py
@@ -51,9 +51,10 @@ def describable_object_reduce(self):
     if hasattr(type, "__getstate__"):
         state = self.__getstate__()
     else:
-        state = {k: v for k, v in self.__dict__.items()
+        state = {k: v if k != "_running_process" else None
+                 for k, v in self.__dict__.items()
                  if not k.startswith("__")
-                 and k not in ("_running_process", "_running_processes")}
+                 and k != "_running_processes"}
     return (
         cls.__new__,
         (cls,),
-- 
2.43.0


From 44a3051e96bafa22514d7aed58c9d2e4c2a9d5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:55 +0000
Subject: [PATCH 51/53] fix: sourcing bash scripts whose names contain quotes
 or percent signs

---
 pieshell/pipeline/builtins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 958aefa..007fe1d 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -2,6 +2,7 @@ import os
 import os.path
 import re
 import asyncio
+import shlex
 import sys
 import base64
 import pickle
@@ -147,11 +148,11 @@ class BashSource(builtin.Builtin):
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
-                args.append("source '%s'" % (exp,))
+                args.append("source %s" % (shlex.quote(str(exp)),))
         args.append("{ declare -x; declare -f; } > $0")
         self._cmd = self._env.bash(
             "-l", "-i", "-c",
-            "; ".join(args),
+            environ.R("; ".join(args)), # Already expanded
             self.parse_decls)
         res = self._cmd._run(redirects, sess, indentation)
         #self._pid = self._cmd._pid
-- 
2.43.0


From d5ba45559b896ef5a4a5be283eece5fe9b289540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:05 +0000
Subject: [PATCH 52/53] fix: showing a builtin that has been started does not
 run it again

---
 pieshell/pipeline/builtins.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 007fe1d..030e0f4 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -7,6 +7,7 @@ import sys
 import base64
 import pickle
 
+from . import base
 from . import command
 from . import builtin
 from . import running
@@ -28,6 +29,7 @@ class CdBuiltin(builtin.Builtin):
         return pth
 
     def _run(self, redirects, sess, indentation = ""):
+        base.Pipeline._run(self, redirects, sess, indentation)
         self._env._cd(self._path)
         return []
 
@@ -48,6 +50,7 @@ class BgBuiltin(builtin.Builtin):
     name = "bg"
 
     def _run(self, redirects, sess, indentation = ""):
+        base.Pipeline._run(self, redirects, sess, indentation)
         pipeline = self._env.last_pipeline
         if len(self._arg) > 1:
             pipeline = self._arg[1]
@@ -80,6 +83,7 @@ class FgBuiltin(builtin.Builtin):
     name = "fg"
 
     def _run(self, redirects, sess, indentation = ""):
+        base.Pipeline._run(self, redirects, sess, indentation)
         pipeline = self._env.last_pipeline
         if len(self._arg) > 1:
             pipeline = self._arg[1]
@@ -91,6 +95,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
     name = "clear_dir_cache"
 
     def _run(self, redirects, sess, indentation = ""):
+        base.Pipeline._run(self, redirects, sess, indentation)
         self.env._clear_dir_cache()
         return []
 
@@ -145,6 +150,7 @@ class BashSource(builtin.Builtin):
     name = "bashsource"
 
     def _run(self, redirects, sess, indentation = ""):
+        base.Pipeline._run(self, redirects, sess, indentation)
         args = []
         for arg in self._arg[1:]:
             for exp in self._env._expand_argument(arg):
@@ -197,6 +203,7 @@ class Remote(builtin.Builtin):
     name = "remote"
 
     def _run(self, redirects, sess, indentation = ""):
+        base.Pipeline._run(self, redirects, sess, indentation)
         cmd = base64.b64encode(pickle.dumps(self._arg[-1])).decode("ascii")
         sshcmd = "pieshell --pcmd='%s'" % cmd
         self._cmd = self._env.ssh(
-- 
2.43.0


From 9dcacfd416000f8d827551dcd742a2f3454bc98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:47 +0000
Subject: [PATCH 53/53] fix: clear_dir_cache clears the completion cache of its
 environment

---
 pieshell/pipeline/builtins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pieshell/pipeline/builtins.py b/pieshell/pipeline/builtins.py
index 030e0f4..4f26551 100644
--- a/pieshell/pipeline/builtins.py
+++ b/pieshell/pipeline/builtins.py
@@ -96,7 +96,7 @@ class ClearDirCacheBuiltin(builtin.Builtin):
 
     def _run(self, redirects, sess, indentation = ""):
         base.Pipeline._run(self, redirects, sess, indentation)
-        self.env._clear_dir_cache()
+        self._env._clear_dir_cache()
         return []
 
     def __dir__(self):
-- 
2.43.0

