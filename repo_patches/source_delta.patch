From d77ff2e4592892d53e1cf8afa3ebbdeefba67bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 01/72] fix: prefix search backwards through history reaches
 the oldest entry and never underflows

Stepping back with a search prefix skipped index 0 and, from index 0 with a
non-matching entry, decremented past zero (panic with overflow checks).
---
 dsh/src/history/command_history.rs | 31 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/dsh/src/history/command_history.rs b/dsh/src/history/command_history.rs
index a0cfe39..e7df97a 100644
--- a/dsh/src/history/command_history.rs
+++ b/dsh/src/history/command_history.rs
@@ -135,26 +135,21 @@ impl History {
 
     /// Navigate backward through history.
     pub fn back(&mut self) -> Option<String> {
-        if self.current_index > 0 {
-            self.current_index -= 1;
-            match &self.search_word {
-                Some(word) => {
-                    while let Some(entry) = self.get(self.current_index) {
-                        if entry.starts_with(word) {
-                            return Some(entry);
-                        }
-                        self.current_index -= 1;
-                        if self.current_index == 0 {
-                            break;
-                        }
-                    }
-                    None
-                }
-                None => self.get(self.current_index),
+        let mut index = self.current_index;
+        while index > 0 {
+            index -= 1;
+            let entry = self.get(index)?;
+            let matches = match &self.search_word {
+                Some(word) => entry.starts_with(word),
+                None => true,
+            };
+            if matches {
+                self.current_index = index;
+                return Some(entry);
             }
-        } else {
-            None
         }
+        // Nothing older matches: stay where we are.
+        None
     }
 
     /// Navigate forward through history.
-- 
2.43.0


From 76b8896a784c057c56e798ea35e04e3eeb06f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 02/72] fix: prepending older history skips commands executed
 again in the meantime

A command re-run before the background load finished was listed twice.
---
 dsh/src/history/command_history.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsh/src/history/command_history.rs b/dsh/src/history/command_history.rs
index e7df97a..f5111a3 100644
--- a/dsh/src/history/command_history.rs
+++ b/dsh/src/history/command_history.rs
@@ -284,7 +284,12 @@ impl History {
     }
 
     /// Prepend entries to the beginning of history.
+    ///
+    /// Commands that are already present (they were executed again in the meantime) are skipped.
     pub fn prepend(&mut self, mut entries: Vec<Entry>) {
+        let present: std::collections::HashSet<&str> =
+            self.histories.iter().map(|e| e.entry.as_str()).collect();
+        entries.retain(|e| !present.contains(e.entry.as_str()));
         entries.append(&mut self.histories);
         self.histories = entries;
         self.rebuild_normalized_entries();
-- 
2.43.0


From 410fcebf165ec67e2071c7f08e6c3cf425b9a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 03/72] fix: a builtin's exit code is reported as its exit
 status

---
 dsh/src/process/builtin.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dsh/src/process/builtin.rs b/dsh/src/process/builtin.rs
index a58392f..809ed99 100644
--- a/dsh/src/process/builtin.rs
+++ b/dsh/src/process/builtin.rs
@@ -98,11 +98,9 @@ impl BuiltinProcess {
         let exit = (self.cmd_fn)(ctx, self.argv.to_vec(), shell);
         match exit {
             ExitStatus::ExitedWith(code) => {
-                if code >= 0 {
-                    self.state = ProcessState::Completed(1, None);
-                } else {
-                    self.state = ProcessState::Completed(0, None);
-                }
+                // Codes outside of the exit status range are reported as a plain failure.
+                let status = u8::try_from(code).unwrap_or(1);
+                self.state = ProcessState::Completed(status, None);
                 debug!("Builtin process {} exited with code: {}", self.name, code);
             }
             ExitStatus::Running(_pid) => {
-- 
2.43.0


From 607efa9ba5ed94cf9576ee8af09458412ebcb100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 04/72] fix: pipeline producers do not keep the read end of
 their own pipe open

---
 dsh/src/process/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 950b867..7dfa714 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -1,6 +1,6 @@
 use anyhow::{Context as _, Result};
 use nix::fcntl::{FcntlArg, OFlag, fcntl};
-use nix::unistd::{isatty, pipe};
+use nix::unistd::{isatty, pipe, pipe2};
 use std::io::{Read, Write};
 use std::os::fd::BorrowedFd;
 use std::os::unix::io::{AsRawFd, FromRawFd, IntoRawFd, RawFd};
@@ -261,7 +261,8 @@ impl PtyMonitor {
 }
 
 pub(crate) fn create_pipe(ctx: &mut Context) -> Result<Option<RawFd>> {
-    let (pout, pin) = pipe().context("failed pipe")?;
+    // Close-on-exec: a producer that inherited the read end would never see SIGPIPE.
+    let (pout, pin) = pipe2(OFlag::O_CLOEXEC).context("failed pipe")?;
     ctx.outfile = pin.into_raw_fd();
     Ok(Some(pout.into_raw_fd()))
 }
-- 
2.43.0


From e9d49ee181a9ec4855a4c744e35c76da6e66624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:26 +0000
Subject: [PATCH 05/72] fix: redirections write to the file itself, apply to
 their own command and do not leak into the next job

---
 dsh/src/process/io.rs          | 81 ++++++++++++++++------------------
 dsh/src/process/job.rs         | 73 +++++++++++++++++++++++-------
 dsh/src/process/job_process.rs | 18 +++++---
 dsh/src/process/redirect.rs    | 78 ++++++++++----------------------
 dsh/src/shell/eval.rs          |  4 +-
 dsh/src/shell/parse.rs         | 12 ++++-
 6 files changed, 141 insertions(+), 125 deletions(-)

diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 7dfa714..3de273e 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -1,9 +1,9 @@
 use anyhow::{Context as _, Result};
 use nix::fcntl::{FcntlArg, OFlag, fcntl};
-use nix::unistd::{isatty, pipe, pipe2};
+use nix::unistd::{close, isatty, pipe2};
 use std::io::{Read, Write};
 use std::os::fd::BorrowedFd;
-use std::os::unix::io::{AsRawFd, FromRawFd, IntoRawFd, RawFd};
+use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::time::Duration;
 use tokio::io::AsyncBufReadExt;
 use tokio::io::unix::AsyncFd;
@@ -267,57 +267,50 @@ pub(crate) fn create_pipe(ctx: &mut Context) -> Result<Option<RawFd>> {
     Ok(Some(pout.into_raw_fd()))
 }
 
+/// Open the targets of a command's output redirections and make them its output.
+/// Returns whether standard output is redirected.
+pub(crate) fn apply_output_redirects(ctx: &mut Context, redirects: &[Redirect]) -> Result<bool> {
+    let mut stdout_redirected = false;
+    let mut replaced = Vec::new();
+    for redirect in redirects {
+        let (out, err) = match redirect {
+            Redirect::StdoutOutput(_) | Redirect::StdoutAppend(_) => (true, false),
+            Redirect::StderrOutput(_) | Redirect::StderrAppend(_) => (false, true),
+            Redirect::StdouterrOutput(_) | Redirect::StdouterrAppend(_) => (true, true),
+            Redirect::Input(_) => continue,
+        };
+        let fd = redirect.open_output()?;
+        replaced.push(fd);
+        if out {
+            ctx.outfile = fd;
+            stdout_redirected = true;
+        }
+        if err {
+            ctx.errfile = fd;
+        }
+    }
+    // Files whose place was taken by a later redirection are created, but not written.
+    for fd in replaced {
+        if fd != ctx.outfile && fd != ctx.errfile {
+            let _ = close(fd);
+        }
+    }
+    Ok(stdout_redirected)
+}
+
 pub(crate) fn handle_output_redirect(
     ctx: &mut Context,
-    redirect: &Option<Redirect>,
+    redirects: &[Redirect],
     stdout: RawFd,
-) -> Result<Option<RawFd>> {
-    if let Some(output) = redirect {
-        match output {
-            Redirect::StdoutOutput(_file) | Redirect::StdoutAppend(_file) => {
-                let (pout, pin) = pipe().context("failed pipe")?;
-                ctx.outfile = pin.into_raw_fd();
-                Ok(Some(pout.into_raw_fd()))
-            }
-            Redirect::StderrOutput(file) | Redirect::StderrAppend(file) => {
-                tracing::debug!("🔀 REDIRECT: StderrOutput/Append to file: {}", file);
-                let (pout, pin) = pipe().context("failed pipe")?;
-                tracing::debug!(
-                    "🔀 REDIRECT: Created redirect pipe - read_end={:?}, write_end={:?}",
-                    pout,
-                    pin
-                );
-                ctx.errfile = pin.into_raw_fd();
-                tracing::debug!("🔀 REDIRECT: Set ctx.errfile={}", ctx.errfile);
-                Ok(Some(pout.into_raw_fd()))
-            }
-            Redirect::StdouterrOutput(file) | Redirect::StdouterrAppend(file) => {
-                tracing::debug!("🔀 REDIRECT: StdouterrOutput/Append to file: {}", file);
-                let (pout, pin) = pipe().context("failed pipe")?;
-                tracing::debug!(
-                    "🔀 REDIRECT: Created redirect pipe - read_end={:?}, write_end={:?}",
-                    pout,
-                    pin
-                );
-                ctx.outfile = pin.as_raw_fd(); // Keep alive for errfile
-                ctx.errfile = pin.into_raw_fd();
-                tracing::debug!(
-                    "🔀 REDIRECT: Set ctx.outfile={}, ctx.errfile={}",
-                    ctx.outfile,
-                    ctx.errfile
-                );
-                Ok(Some(pout.into_raw_fd()))
-            }
-            Redirect::Input(_) => Ok(None),
-        }
-    } else {
+) -> Result<()> {
+    if !apply_output_redirects(ctx, redirects)? {
         if let Some(out) = ctx.captured_out {
             ctx.outfile = out;
         } else if ctx.infile != STDIN_FILENO {
             ctx.outfile = stdout;
         }
-        Ok(None)
     }
+    Ok(())
 }
 
 #[cfg(test)]
diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 601f73a..65cb1ef 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -30,7 +30,8 @@ pub struct Job {
     stderr: RawFd,
     pub foreground: bool,
     pub subshell: SubshellType,
-    pub redirect: Option<Redirect>,
+    /// Redirections with the position in the pipeline of the command they are written on.
+    pub redirects: Vec<(usize, Redirect)>,
     pub list_op: ListOp,
     pub job_id: usize,
     pub state: ProcessState,
@@ -77,7 +78,7 @@ impl Job {
             stderr: STDERR_FILENO,
             foreground: true,
             subshell: SubshellType::None,
-            redirect: None,
+            redirects: Vec::new(),
             list_op: ListOp::None,
             job_id: 1,
             state: ProcessState::Running,
@@ -105,7 +106,7 @@ impl Job {
             stderr: STDERR_FILENO,
             foreground: true,
             subshell: SubshellType::None,
-            redirect: None,
+            redirects: Vec::new(),
             list_op: ListOp::None,
             job_id: 1,
             state: ProcessState::Running,
@@ -131,6 +132,17 @@ impl Job {
         }
     }
 
+    /// Number of commands in the pipeline so far.
+    pub fn pipeline_len(&self) -> usize {
+        let mut len = 0;
+        let mut current = self.process.clone();
+        while let Some(process) = current {
+            len += 1;
+            current = process.next();
+        }
+        len
+    }
+
     pub fn last_process_state(&self) -> ProcessState {
         if let Some(p) = &self.process {
             last_process_state(*p.clone())
@@ -148,6 +160,20 @@ impl Job {
 
         ctx.foreground = self.foreground;
 
+        // The pipes and files of this job must not leak into the next one.
+        let (infile, outfile, errfile) = (ctx.infile, ctx.outfile, ctx.errfile);
+        let result = self.launch_with_io(ctx, shell).await;
+        ctx.infile = infile;
+        ctx.outfile = outfile;
+        ctx.errfile = errfile;
+        result
+    }
+
+    async fn launch_with_io(
+        &mut self,
+        ctx: &mut Context,
+        shell: &mut Shell,
+    ) -> Result<ProcessState> {
         // 1. Setup PTY if needed
         let pty_slave_fd = self.setup_pty(ctx).await?;
         let _pty_raw_mode_guard = job_pty::ForegroundPtyRawModeGuard::new(self, ctx);
@@ -160,7 +186,7 @@ impl Job {
                 process.get_cmd()
             );
 
-            if let Err(e) = self.launch_process(ctx, shell, &mut process, pty_slave_fd) {
+            if let Err(e) = self.launch_process(ctx, shell, &mut process, 0, pty_slave_fd) {
                 error!(
                     "JOB_LAUNCH_PROCESS_ERROR: Failed to launch process for job {}: {}",
                     self.job_id, e
@@ -221,13 +247,23 @@ impl Job {
         ctx: &mut Context,
         shell: &mut Shell,
         process: &mut JobProcess,
+        stage: usize,
         pty_slave: Option<RawFd>,
     ) -> Result<()> {
         let previous_infile = ctx.infile;
         let mut _input_file_guard: Option<File> = None;
         let mut input_fd: Option<RawFd> = None;
-
-        if let Some(Redirect::Input(ref path)) = self.redirect {
+        let redirects: Vec<Redirect> = self
+            .redirects
+            .iter()
+            .filter(|(position, _)| *position == stage)
+            .map(|(_, redirect)| redirect.clone())
+            .collect();
+
+        for redirect in &redirects {
+            let Redirect::Input(path) = redirect else {
+                continue;
+            };
             let file = File::open(path)
                 .with_context(|| format!("failed to open input redirect file '{}'", path))?;
             let fd = file.as_raw_fd();
@@ -237,8 +273,12 @@ impl Job {
         }
 
         // Use launch for automatic capture (modified internal logic)
-        let (pid, mut next_process) =
-            process.launch(ctx, shell, &self.redirect, self.stdout, pty_slave)?;
+        let (outfile, errfile) = (ctx.outfile, ctx.errfile);
+        let launched = process.launch(ctx, shell, &redirects, self.stdout, pty_slave);
+        // The output of this command is not the output of the next one.
+        ctx.outfile = outfile;
+        ctx.errfile = errfile;
+        let (pid, mut next_process) = launched?;
         if self.pid.is_none() {
             self.pid = Some(pid); // set process pid
         }
@@ -327,21 +367,20 @@ impl Job {
         self.set_process(process.to_owned());
         self.show_job_status();
 
-        if let Some(ref redirect) = self.redirect {
-            redirect.process(ctx);
-        }
-
-        if let Some(fd) = input_fd
-            && ctx.infile == fd
-        {
-            ctx.infile = previous_infile;
+        if let Some(fd) = input_fd {
+            if ctx.infile == fd {
+                ctx.infile = previous_infile;
+            } else if previous_infile != self.stdin && pty_slave != Some(previous_infile) {
+                // The command reads the file instead of the pipe.
+                let _ = close(previous_infile);
+            }
         }
 
         // run next pipeline process
         if let Some(Err(err)) = next_process
             .take()
             .as_mut()
-            .map(|process| self.launch_process(ctx, shell, process, pty_slave))
+            .map(|process| self.launch_process(ctx, shell, process, stage + 1, pty_slave))
         {
             debug!("err {:?}", err);
             return Err(err);
diff --git a/dsh/src/process/job_process.rs b/dsh/src/process/job_process.rs
index 829e972..84e52d8 100644
--- a/dsh/src/process/job_process.rs
+++ b/dsh/src/process/job_process.rs
@@ -1,14 +1,14 @@
 use anyhow::{Context as _, Result};
 use libc::{STDERR_FILENO, STDIN_FILENO, STDOUT_FILENO};
 use nix::sys::signal::Signal;
-use nix::unistd::{Pid, getpid, pipe};
+use nix::unistd::{Pid, close, getpid, pipe};
 use std::os::fd::IntoRawFd;
 use std::os::unix::io::RawFd;
 use tracing::debug;
 
 use super::builtin::BuiltinProcess;
 use super::fork::{fork_builtin_process, fork_process};
-use super::io::{create_pipe, handle_output_redirect};
+use super::io::{apply_output_redirects, create_pipe, handle_output_redirect};
 use super::process::Process;
 use super::redirect::Redirect;
 use super::signal::send_signal;
@@ -275,7 +275,7 @@ impl JobProcess {
         &mut self,
         ctx: &mut Context,
         shell: &mut Shell,
-        redirect: &Option<Redirect>,
+        redirects: &[Redirect],
         stdout: RawFd,
         pty_slave: Option<RawFd>,
     ) -> Result<(Pid, Option<Box<JobProcess>>)> {
@@ -284,13 +284,18 @@ impl JobProcess {
 
         let pipe_out = match next_process {
             Some(_) => {
-                create_pipe(ctx)? // create pipe
+                let pipe_out = create_pipe(ctx)?; // create pipe
+                let pipe_in = ctx.outfile;
+                if apply_output_redirects(ctx, redirects)? {
+                    let _ = close(pipe_in);
+                }
+                pipe_out
             }
             None => {
                 // Automatic capture for non-interactive mode (e.g. smart pipe tests)
                 // We don't do this in interactive mode to preserve TTY (colors, etc.)
                 if !ctx.interactive
-                    && redirect.is_none()
+                    && redirects.is_empty()
                     && pty_slave.is_none()
                     && ctx.captured_out.is_none()
                 {
@@ -304,7 +309,8 @@ impl JobProcess {
                     None
                 } else {
                     // Manual capture or redirect
-                    handle_output_redirect(ctx, redirect, stdout)?
+                    handle_output_redirect(ctx, redirects, stdout)?;
+                    None
                 }
             }
         };
diff --git a/dsh/src/process/redirect.rs b/dsh/src/process/redirect.rs
index 4d5da19..43cda2c 100644
--- a/dsh/src/process/redirect.rs
+++ b/dsh/src/process/redirect.rs
@@ -1,6 +1,7 @@
-use dsh_types::Context;
-use std::os::unix::io::FromRawFd;
-use tokio::{fs, io};
+use anyhow::{Context as _, Result};
+use std::fs::OpenOptions;
+use std::os::fd::IntoRawFd;
+use std::os::unix::io::RawFd;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
 #[allow(dead_code)]
@@ -15,57 +16,26 @@ pub enum Redirect {
 }
 
 impl Redirect {
-    pub(crate) fn process(&self, ctx: &mut Context) {
-        match self {
-            Redirect::StdoutOutput(out)
-            | Redirect::StderrOutput(out)
-            | Redirect::StdouterrOutput(out) => {
-                let infile = ctx.infile;
-                let file = out.to_string();
-                // spawn and io copy
-                tokio::spawn(async move {
-                    // copy io
-                    let mut reader = unsafe { fs::File::from_raw_fd(infile) };
-                    match fs::File::create(&file).await {
-                        Ok(mut writer) => {
-                            if let Err(e) = io::copy(&mut reader, &mut writer).await {
-                                tracing::error!("Failed to copy to file {}: {}", file, e);
-                            }
-                        }
-                        Err(e) => {
-                            tracing::error!("Failed to create file {}: {}", file, e);
-                        }
-                    }
-                });
+    /// Open the target of an output redirection for the process to write to directly.
+    pub(crate) fn open_output(&self) -> Result<RawFd> {
+        let (path, append) = match self {
+            Redirect::StdoutOutput(path)
+            | Redirect::StderrOutput(path)
+            | Redirect::StdouterrOutput(path) => (path, false),
+            Redirect::StdoutAppend(path)
+            | Redirect::StderrAppend(path)
+            | Redirect::StdouterrAppend(path) => (path, true),
+            Redirect::Input(path) => {
+                anyhow::bail!("'{}' is not the target of an output redirection", path)
             }
-
-            Redirect::StdoutAppend(out)
-            | Redirect::StderrAppend(out)
-            | Redirect::StdouterrAppend(out) => {
-                let infile = ctx.infile;
-                let file = out.to_string();
-                // spawn and io copy
-                tokio::spawn(async move {
-                    // copy io
-                    let mut reader = unsafe { fs::File::from_raw_fd(infile) };
-                    match fs::OpenOptions::new()
-                        .write(true)
-                        .append(true)
-                        .open(&file)
-                        .await
-                    {
-                        Ok(mut writer) => {
-                            if let Err(e) = io::copy(&mut reader, &mut writer).await {
-                                tracing::error!("Failed to append to file {}: {}", file, e);
-                            }
-                        }
-                        Err(e) => {
-                            tracing::error!("Failed to open file {} for append: {}", file, e);
-                        }
-                    }
-                });
-            }
-            Redirect::Input(_) => {}
-        }
+        };
+        let file = OpenOptions::new()
+            .create(true)
+            .write(true)
+            .append(append)
+            .truncate(!append)
+            .open(path)
+            .with_context(|| format!("failed to open output redirect file '{}'", path))?;
+        Ok(file.into_raw_fd())
     }
 }
diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 36a2b53..47e227b 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -227,8 +227,8 @@ pub async fn eval_str(
         job.job_id = shell.get_job_id(); // set job id
 
         debug!(
-            "start job '{:?}' foreground:{:?} redirect:{:?} list_op:{:?} capture:{:?}",
-            job.cmd, job.foreground, job.redirect, job.list_op, job.capture_output,
+            "start job '{:?}' foreground:{:?} redirects:{:?} list_op:{:?} capture:{:?}",
+            job.cmd, job.foreground, job.redirects, job.list_op, job.capture_output,
         );
         let _title_guard = TitleGuard::new(ctx, &job);
 
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 3471a83..eb0fd87 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -118,6 +118,7 @@ pub fn parse_argv(
                 for inner_pair in inner_pair.into_inner() {
                     if let Rule::redirect = inner_pair.as_rule() {
                         // set redirect
+                        let stage = current_job.pipeline_len();
                         let mut redirect_rule = None;
                         for pair in inner_pair.into_inner() {
                             if let Rule::stdout_redirect_direction
@@ -129,7 +130,12 @@ pub fn parse_argv(
                                     redirect_rule = Some(rule.as_rule());
                                 }
                             } else if let Rule::span = pair.as_rule() {
-                                let dest = pair.as_str();
+                                let raw = pair.as_str();
+                                let dest = pair
+                                    .into_inner()
+                                    .next()
+                                    .and_then(parser::get_string)
+                                    .unwrap_or_else(|| raw.to_string());
 
                                 let redirect = match redirect_rule {
                                     Some(Rule::stdout_redirect_direction_out) => {
@@ -157,7 +163,9 @@ pub fn parse_argv(
                                     }
                                     _ => None,
                                 };
-                                current_job.redirect = redirect;
+                                if let Some(redirect) = redirect {
+                                    current_job.redirects.push((stage, redirect));
+                                }
                             }
                         }
                         continue;
-- 
2.43.0


From 182ac67b8fe57c90f67ff9df96bf98ad65a9c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 06/72] fix: a pipeline ends with its last command, not when an
 inner one succeeds

---
 dsh/src/process/job_process.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsh/src/process/job_process.rs b/dsh/src/process/job_process.rs
index 84e52d8..c47631b 100644
--- a/dsh/src/process/job_process.rs
+++ b/dsh/src/process/job_process.rs
@@ -189,8 +189,10 @@ impl JobProcess {
             if next.is_pipeline_consumer_terminated() {
                 return true;
             }
-            // If the next process (consumer) completed normally, the pipeline should terminate
-            if let ProcessState::Completed(0, None) = next.get_state() {
+            // If the last process (consumer) completed normally, the pipeline should terminate
+            if next.next().is_none()
+                && let ProcessState::Completed(0, None) = next.get_state()
+            {
                 debug!(
                     "PIPELINE_CONSUMER_TERMINATED: Consumer process '{}' exited normally, pipeline should terminate",
                     next.get_cmd()
-- 
2.43.0


From dd3c52a36b061743fb74aedcf2435fa25b0f297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 07/72] fix: commands after a spaced |> are not dropped, and <(
 starts a process substitution

---
 dsh/src/shell.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsh/src/shell.pest b/dsh/src/shell.pest
index 71ce126..adacd74 100644
--- a/dsh/src/shell.pest
+++ b/dsh/src/shell.pest
@@ -37,7 +37,7 @@ group_list              = _{
 
 quoted = _{ d_quoted | s_quoted }
 
-stdin_redirect_direction_in         = { "<" }
+stdin_redirect_direction_in         = { !"<(" ~ "<" }
 stdouterr_redirect_direction_out    = { "&>" }
 stdouterr_redirect_direction_append = { "&>>" }
 stderr_redirect_direction_out       = { "2>" }
@@ -68,6 +68,6 @@ pipe_command        =  { pipeline_op ~ sp* ~ (simple_command_bg | simple_command
 struct_pipe_command =  { struct_pipe_op ~ sp* ~ lisp_expr ~ sp* }
 lisp_expr           =  { "(" ~ lisp_inner* ~ ")" }
 lisp_inner          = _{ !(")" | "(") ~ ANY | lisp_expr }
-capture_suffix      =  { sp* ~ capture_op }
+capture_suffix      =  { sp* ~ capture_op ~ sp* }
 command             =  { (sp* ~ simple_command_bg | simple_command)* ~ sp* ~ (struct_pipe_command | pipe_command)* ~ capture_suffix? }
 commands            =  { (sp* ~ command) ~ (command_list_sep ~ sp* ~ command)* }
-- 
2.43.0


From 244655a127869b4a950a192a10093e9915c636f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 08/72] fix: command substitution captures its output, honours
 && and ||, and does not hang

---
 dsh/src/process/job.rs     |  4 ++++
 dsh/src/process/job_pty.rs |  4 ++++
 dsh/src/shell/eval.rs      | 20 ++++++++++++++++++++
 dsh/src/shell/parse.rs     | 22 +++++++++++++++++-----
 4 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 65cb1ef..a55528f 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -32,6 +32,8 @@ pub struct Job {
     pub subshell: SubshellType,
     /// Redirections with the position in the pipeline of the command they are written on.
     pub redirects: Vec<(usize, Redirect)>,
+    /// Running in a forked child of the shell (command substitution)
+    pub in_subshell: bool,
     pub list_op: ListOp,
     pub job_id: usize,
     pub state: ProcessState,
@@ -79,6 +81,7 @@ impl Job {
             foreground: true,
             subshell: SubshellType::None,
             redirects: Vec::new(),
+            in_subshell: false,
             list_op: ListOp::None,
             job_id: 1,
             state: ProcessState::Running,
@@ -107,6 +110,7 @@ impl Job {
             foreground: true,
             subshell: SubshellType::None,
             redirects: Vec::new(),
+            in_subshell: false,
             list_op: ListOp::None,
             job_id: 1,
             state: ProcessState::Running,
diff --git a/dsh/src/process/job_pty.rs b/dsh/src/process/job_pty.rs
index 7bcbc7a..3e4a2e6 100644
--- a/dsh/src/process/job_pty.rs
+++ b/dsh/src/process/job_pty.rs
@@ -138,6 +138,10 @@ pub async fn cleanup_pty_tasks(job: &mut Job) {
 }
 
 pub async fn manage_execution(job: &mut Job, ctx: &mut Context) -> Result<()> {
+    if job.in_subshell {
+        // The threads of the async runtime do not exist in the forked child.
+        return crate::process::job_wait::put_in_foreground_sync(job, false, false);
+    }
     if !ctx.interactive {
         debug!(
             "JOB_LAUNCH_NON_INTERACTIVE: Non-interactive mode, waiting for job {} completion",
diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 47e227b..8d8377a 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -519,7 +519,19 @@ pub fn get_jobs(shell: &mut Shell, input: &str) -> Result<Vec<Job>> {
 }
 
 pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) -> Result<()> {
+    let mut last_exit_code = 0_i32;
+    let mut gate_op = ListOp::None;
     for mut job in jobs {
+        let should_run = match gate_op {
+            ListOp::None => true,
+            ListOp::And => last_exit_code == 0,
+            ListOp::Or => last_exit_code != 0,
+        };
+        gate_op = job.list_op.clone();
+        if !should_run {
+            continue;
+        }
+
         disable_raw_mode().ok();
         let pid = task::block_in_place(|| {
             // Avoid nested-runtime panic by driving only this future directly.
@@ -528,6 +540,10 @@ pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) ->
         debug!("spawned subshell cmd:{} pid: {:?}", job.cmd, pid);
         let res = wait_pid_job(pid, false);
         debug!("wait subshell exit:{:?}", res);
+        last_exit_code = match res {
+            Some((_, ProcessState::Completed(exit, _))) => i32::from(exit),
+            _ => 1,
+        };
         enable_raw_mode().ok();
     }
 
@@ -567,6 +583,10 @@ async fn spawn_subshell(shell: &mut Shell, ctx: &mut Context, job: &mut Job) ->
 
             job.pgid = Some(pid);
             ctx.pgid = Some(pid);
+            // The output goes to the parent's pipe, and nothing of the runtime may be needed.
+            job.in_subshell = true;
+            job.disable_pty = true;
+            ctx.captured_out = Some(ctx.outfile);
 
             // Execute
             let res = job.launch(ctx, shell).await;
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index eb0fd87..b4b1ab6 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -2,7 +2,7 @@ use crate::dirs;
 use crate::parser::{self, Rule};
 use crate::process::{self, Job, JobProcess, Redirect, SubshellType};
 use crate::shell::Shell;
-use anyhow::{Context as _, Result, bail};
+use anyhow::{Context as _, Result, anyhow, bail};
 use dsh_types::Context;
 use nix::sys::termios::tcgetattr;
 use nix::unistd::pipe;
@@ -322,9 +322,15 @@ pub fn parse_command(
                     // make pipe
                     let (pout, pin) = pipe().context("failed pipe")?;
                     ctx.outfile = pin.as_raw_fd();
-                    shell.launch_subshell(&mut ctx, jobs)?;
+                    // Read while the command runs: it may write more than a pipe holds.
+                    let reader = std::thread::spawn(move || read_fd(pout.into_raw_fd()));
+                    let launched = shell.launch_subshell(&mut ctx, jobs);
                     drop(pin); // Close write end
-                    let output = read_fd(pout.into_raw_fd())?;
+                    let output = reader
+                        .join()
+                        .map_err(|_| anyhow!("reader thread panicked"))?;
+                    launched?;
+                    let output = output?;
                     output.lines().for_each(|x| argv.push(x.to_owned()));
                 }
                 SubshellType::CommandSubstitution => {
@@ -332,9 +338,15 @@ pub fn parse_command(
                     ctx.foreground = true;
                     let (pout, pin) = pipe().context("failed pipe")?;
                     ctx.outfile = pin.as_raw_fd();
-                    shell.launch_subshell(&mut ctx, jobs)?;
+                    // Read while the command runs: it may write more than a pipe holds.
+                    let reader = std::thread::spawn(move || read_fd(pout.into_raw_fd()));
+                    let launched = shell.launch_subshell(&mut ctx, jobs);
                     drop(pin); // Close write end
-                    let output = read_fd(pout.into_raw_fd())?;
+                    let output = reader
+                        .join()
+                        .map_err(|_| anyhow!("reader thread panicked"))?;
+                    launched?;
+                    let output = output?;
                     for part in output.split_whitespace() {
                         if !part.is_empty() {
                             argv.push(part.to_owned());
-- 
2.43.0


From fcd3f267dd02eebef538aa37ecdaeb0ec472eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 09/72] fix: a failing pipeline stage does not kill the other
 stages

---
 dsh/src/process/job_wait.rs | 46 ++++---------------------------------
 1 file changed, 5 insertions(+), 41 deletions(-)

diff --git a/dsh/src/process/job_wait.rs b/dsh/src/process/job_wait.rs
index 9d65348..fa2f773 100644
--- a/dsh/src/process/job_wait.rs
+++ b/dsh/src/process/job_wait.rs
@@ -172,7 +172,6 @@ pub fn wait_job_sync(job: &mut Job, no_hang: bool) -> Result<()> {
 }
 
 pub fn wait_process_sync(job: &mut Job) -> Result<()> {
-    let mut send_killpg = false;
     loop {
         let (pid, state) = match waitpid(None, Some(WaitPidFlag::WUNTRACED)) {
             Ok(WaitStatus::Exited(pid, status)) => {
@@ -203,23 +202,7 @@ pub fn wait_process_sync(job: &mut Job) -> Result<()> {
                 "⏳ WAIT: Process completed - pid: {}, code: {}, signal: {:?}",
                 pid, code, signal
             );
-            if code != 0 && !send_killpg {
-                if let Some(pgid) = job.pgid {
-                    debug!(
-                        "⏳ WAIT: Process failed (code: {}), sending SIGKILL to pgid: {}",
-                        code, pgid
-                    );
-                    match killpg(pgid, Signal::SIGKILL) {
-                        Ok(_) => debug!("⏳ WAIT: Successfully sent SIGKILL to pgid: {}", pgid),
-                        Err(e) => {
-                            debug!("⏳ WAIT: Failed to send SIGKILL to pgid {}: {}", pgid, e)
-                        }
-                    }
-                    send_killpg = true;
-                } else {
-                    debug!("⏳ WAIT: Process failed but no pgid to kill");
-                }
-            } else if code == 0 {
+            if code == 0 {
                 debug!("⏳ WAIT: Process completed successfully");
             }
         }
@@ -234,7 +217,10 @@ pub fn wait_process_sync(job: &mut Job) -> Result<()> {
             && !process.is_completed()
         {
             debug!("⏳ WAIT: Pipeline consumer terminated, killing remaining processes");
-            if let Some(pgid) = job.pgid {
+            // A subshell is a member of that group itself; the rest ends with SIGPIPE.
+            if let Some(pgid) = job.pgid
+                && !job.in_subshell
+            {
                 debug!(
                     "⏳ WAIT: Sending SIGTERM to remaining processes in pgid: {}",
                     pgid
@@ -265,7 +251,6 @@ pub fn wait_process_sync(job: &mut Job) -> Result<()> {
 
 pub async fn wait_process_no_hang(job: &mut Job) -> Result<()> {
     debug!("wait_process_no_hang started for job: {}", job.id);
-    let mut send_killpg = false;
     loop {
         if crate::process::signal::check_and_clear_sigint() {
             debug!("wait_process_no_hang: Detected SIGINT in parent shell, forwarding to job");
@@ -322,16 +307,6 @@ pub async fn wait_process_no_hang(job: &mut Job) -> Result<()> {
 
         debug!("fin wait: pid:{:?}", pid);
 
-        if let ProcessState::Completed(code, _) = state
-            && code != 0
-            && !send_killpg
-            && let Some(pgid) = job.pgid
-        {
-            debug!("killpg pgid: {}", pgid);
-            let _ = killpg(pgid, Signal::SIGKILL);
-            send_killpg = true;
-        }
-
         if is_job_completed(job) {
             debug!("Job completed, breaking from wait_process_no_hang loop");
             break;
@@ -371,7 +346,6 @@ pub async fn wait_process_no_hang(job: &mut Job) -> Result<()> {
 
 pub fn wait_process_no_hang_sync(job: &mut Job) -> Result<()> {
     debug!("wait_process_no_hang_sync started for job: {}", job.id);
-    let mut send_killpg = false;
     loop {
         if crate::process::signal::check_and_clear_sigint() {
             debug!("wait_process_no_hang_sync: Detected SIGINT in parent shell, forwarding to job");
@@ -421,16 +395,6 @@ pub fn wait_process_no_hang_sync(job: &mut Job) -> Result<()> {
 
         debug!("fin wait: pid:{:?}", pid);
 
-        if let ProcessState::Completed(code, _) = state
-            && code != 0
-            && !send_killpg
-            && let Some(pgid) = job.pgid
-        {
-            debug!("killpg pgid: {}", pgid);
-            let _ = killpg(pgid, Signal::SIGKILL);
-            send_killpg = true;
-        }
-
         if is_job_completed(job) {
             debug!("Job completed, breaking from wait_process_no_hang_sync loop");
             break;
-- 
2.43.0


From 3cc44921b268b28bb4be04969fba4965d85056b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 10/72] fix: a captured pipeline runs its last command with a
 working stderr

---
 dsh/src/process/job.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index a55528f..320a418 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -360,7 +360,9 @@ impl Job {
         {
             debug!("failed close stdout: {}", e);
         }
+        // The inherited stderr (of a capture) is still needed by the next command.
         if stderr != self.stderr
+            && stderr != errfile
             && stdout != stderr
             && pty_slave != Some(stderr)
             && let Err(e) = close(stderr)
-- 
2.43.0


From c40baa70e1fb8771d8df11473580bb06164eb7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 11/72] fix: commands after a background pipeline run in the
 foreground

---
 dsh/src/shell/parse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index b4b1ab6..944edcd 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -529,7 +529,9 @@ fn parse_jobs(
                             parse_command(shell, ctx, job, inner_pair)?;
                         } else if let Rule::simple_command_bg = inner_pair.as_rule() {
                             ctx.foreground = false;
-                            parse_command(shell, ctx, job, inner_pair)?;
+                            let parsed = parse_command(shell, ctx, job, inner_pair);
+                            ctx.foreground = true;
+                            parsed?;
                         } else {
                             // TODO check?
                         }
-- 
2.43.0


From f2c167ca90e4eb357def2b3f3faf5191d59fd488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 12/72] fix: commands that follow a background pipeline are not
 dropped

---
 dsh/src/shell.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsh/src/shell.pest b/dsh/src/shell.pest
index adacd74..0fe2383 100644
--- a/dsh/src/shell.pest
+++ b/dsh/src/shell.pest
@@ -69,5 +69,5 @@ struct_pipe_command =  { struct_pipe_op ~ sp* ~ lisp_expr ~ sp* }
 lisp_expr           =  { "(" ~ lisp_inner* ~ ")" }
 lisp_inner          = _{ !(")" | "(") ~ ANY | lisp_expr }
 capture_suffix      =  { sp* ~ capture_op ~ sp* }
-command             =  { (sp* ~ simple_command_bg | simple_command)* ~ sp* ~ (struct_pipe_command | pipe_command)* ~ capture_suffix? }
+command             =  { (sp* ~ simple_command_bg | simple_command)* ~ sp* ~ ((struct_pipe_command | pipe_command | simple_command_bg | simple_command) ~ sp*)* ~ capture_suffix? }
 commands            =  { (sp* ~ command) ~ (command_list_sep ~ sp* ~ command)* }
-- 
2.43.0


From d0386185ccaecaffce7e942aef473db202da350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 13/72] fix: a process substitution with more output than a
 pipe holds does not hang

---
 dsh/src/shell/parse.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 944edcd..a5dab3d 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -356,13 +356,17 @@ pub fn parse_command(
                 SubshellType::ProcessSubstitution => {
                     let mut ctx = Context::new(shell.pid, shell.pgid, tmode.clone(), false);
                     ctx.foreground = true;
-                    // make pipe
-                    let (pout, pin) = pipe().context("failed pipe")?;
-                    ctx.outfile = pin.as_raw_fd();
+                    // The commands finish before the reader starts, so their output
+                    // (which may be more than a pipe holds) waits in memory.
+                    let fd = unsafe { libc::memfd_create(c"dsh-proc-subst".as_ptr(), 0) };
+                    if fd < 0 {
+                        return Err(std::io::Error::last_os_error())
+                            .context("failed process substitution");
+                    }
+                    ctx.outfile = fd;
                     shell.launch_subshell(&mut ctx, jobs)?;
-                    drop(pin); // Close write end
-                    // Leak pout to keep it open for process substitution
-                    let file_name = format!("/dev/fd/{}", pout.into_raw_fd());
+                    // Leak fd to keep it open for process substitution
+                    let file_name = format!("/dev/fd/{fd}");
                     argv.push(file_name);
                 }
                 SubshellType::None => {}
-- 
2.43.0


From b1d0d075ab3b2a427c3919022551736863e1f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 14/72] fix: output of a command that pauses within a line or
 is not UTF-8 is not lost

---
 dsh/src/process/io.rs | 62 ++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 3de273e..1f79dad 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -30,6 +30,8 @@ pub struct OutputMonitor {
     pub(crate) reader: io::BufReader<fs::File>,
     pub(crate) outputed: bool,
     pub captured_output: String,
+    // What was read of a line that is not complete yet.
+    pending: Vec<u8>,
     // Cached renderer to avoid repeated allocations.
     // Safe to hold as it no longer holds StdoutLock persistently.
     pub(crate) renderer: TerminalRenderer,
@@ -43,41 +45,48 @@ impl OutputMonitor {
             reader,
             outputed: false,
             captured_output: String::new(),
+            pending: Vec::new(),
             renderer: TerminalRenderer::new(),
         }
     }
 
-    fn append_line(&mut self, buffer: &mut String, line: &str) {
-        append_output_chunk(&mut self.outputed, buffer, line);
-        // Also capture the raw line (we might want to be careful about prefixes/newlines)
-        // The line from read_line includes the newline character usually.
-        self.captured_output.push_str(line);
+    /// Move the line that was read to the output buffer, byte for byte. Returns its length.
+    fn take_line(&mut self, buffer: &mut Vec<u8>) -> usize {
+        let line = std::mem::take(&mut self.pending);
+        if !line.is_empty() {
+            let mut prefix = String::new();
+            append_output_chunk(&mut self.outputed, &mut prefix, "");
+            buffer.extend_from_slice(prefix.as_bytes());
+            buffer.extend_from_slice(&line);
+            // Also capture the raw line (we might want to be careful about prefixes/newlines)
+            self.captured_output
+                .push_str(&String::from_utf8_lossy(&line));
+        }
+        line.len()
     }
 
-    fn flush_buffer(&mut self, buffer: &str) -> Result<()> {
+    fn flush_buffer(&mut self, buffer: &[u8]) -> Result<()> {
         if buffer.is_empty() {
             return Ok(());
         }
 
-        self.renderer.write_all(buffer.as_bytes())?;
+        self.renderer.write_all(buffer)?;
         self.renderer.flush()?;
         Ok(())
     }
 
     pub async fn output(&mut self) -> Result<usize> {
-        let mut line = String::new();
+        // A line that is still incomplete when the time is up stays in `pending`.
         match time::timeout(
             Duration::from_millis(MONITOR_TIMEOUT),
-            self.reader.read_line(&mut line),
+            self.reader.read_until(b'\n', &mut self.pending),
         )
         .await
         {
-            Ok(Ok(len)) => {
-                if len > 0 {
-                    let mut buffer = String::new();
-                    self.append_line(&mut buffer, &line);
-                    self.flush_buffer(&buffer)?;
-                }
+            Ok(Ok(_)) => {
+                let mut buffer = Vec::new();
+                let len = self.take_line(&mut buffer);
+                self.flush_buffer(&buffer)?;
                 Ok(len)
             }
             Ok(Err(_)) | Err(_) => Ok(0),
@@ -86,36 +95,29 @@ impl OutputMonitor {
 
     pub async fn output_all(&mut self, block: bool) -> Result<()> {
         let mut len = 1;
-        let mut buffer = String::new();
+        let mut buffer = Vec::new();
         while len != 0 {
-            let mut line = String::new();
             match time::timeout(
                 Duration::from_millis(MONITOR_TIMEOUT),
-                self.reader.read_line(&mut line),
+                self.reader.read_until(b'\n', &mut self.pending),
             )
             .await
             {
-                Ok(Ok(readed)) => {
-                    len = readed;
-                    if readed == 0 {
-                        if !block {
-                            break;
-                        }
-                    } else {
-                        self.append_line(&mut buffer, &line);
+                Ok(Ok(_)) => {
+                    len = self.take_line(&mut buffer);
+                    if len == 0 && !block {
+                        break;
                     }
                 }
                 Ok(Err(_)) | Err(_) => {
                     if !block {
+                        self.take_line(&mut buffer);
                         break;
                     }
                 }
             }
         }
-        if !buffer.is_empty() {
-            self.flush_buffer(&buffer)?;
-        }
-        Ok(())
+        self.flush_buffer(&buffer)
     }
 }
 
-- 
2.43.0


From d76b14ee898242a2c9cc50952f1ded3ccc33f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 15/72] fix: the write end of a capture is closed once, not
 under another thread's file

---
 dsh/src/process/job.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 320a418..3e11023 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -354,7 +354,9 @@ impl Job {
                 // Don't error out here, just log (avoid crash if EBADF)
             }
         }
+        // The write end of a capture belongs to the one who captures.
         if stdout != self.stdout
+            && ctx.captured_out != Some(stdout)
             && pty_slave != Some(stdout)
             && let Err(e) = close(stdout)
         {
-- 
2.43.0


From 421f4a7ada04d405fa504fd9cd80bf06b64ea8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 16/72] fix: a builtin with more output than a pipe holds does
 not hang its pipeline

---
 dsh/src/process/io.rs          | 30 ++++++++++++++++++++++++++++--
 dsh/src/process/job_process.rs | 14 ++++++++++++--
 dsh/src/shell/parse.rs         | 12 +++++-------
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/dsh/src/process/io.rs b/dsh/src/process/io.rs
index 1f79dad..3251ade 100644
--- a/dsh/src/process/io.rs
+++ b/dsh/src/process/io.rs
@@ -1,8 +1,10 @@
 use anyhow::{Context as _, Result};
-use nix::fcntl::{FcntlArg, OFlag, fcntl};
+use nix::fcntl::{FcntlArg, FdFlag, OFlag, fcntl};
 use nix::unistd::{close, isatty, pipe2};
+use std::ffi::CString;
 use std::io::{Read, Write};
-use std::os::fd::BorrowedFd;
+use std::os::fd::{BorrowedFd, OwnedFd};
+use std::os::unix::ffi::OsStrExt;
 use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::time::Duration;
 use tokio::io::AsyncBufReadExt;
@@ -269,6 +271,30 @@ pub(crate) fn create_pipe(ctx: &mut Context) -> Result<Option<RawFd>> {
     Ok(Some(pout.into_raw_fd()))
 }
 
+/// A file without a name, for output that is complete before somebody reads it (and may be
+/// more than a pipe holds).
+pub(crate) fn unnamed_file() -> Result<OwnedFd> {
+    let template = std::env::temp_dir().join("dsh-XXXXXX");
+    let mut template =
+        CString::new(template.as_os_str().as_bytes()).map(CString::into_bytes_with_nul)?;
+    let fd = unsafe { libc::mkstemp(template.as_mut_ptr().cast()) };
+    if fd < 0 {
+        return Err(std::io::Error::last_os_error()).context("failed to create a temporary file");
+    }
+    unsafe { libc::unlink(template.as_ptr().cast()) };
+    Ok(unsafe { OwnedFd::from_raw_fd(fd) })
+}
+
+/// Like `create_pipe`, for a command that runs in the shell itself, before its reader starts.
+/// The returned read end is to be rewound when the command has run.
+pub(crate) fn create_spool(ctx: &mut Context) -> Result<Option<RawFd>> {
+    let spool = unnamed_file()?;
+    let writer = spool.try_clone().context("failed to clone spool")?; // close-on-exec
+    fcntl(&spool, FcntlArg::F_SETFD(FdFlag::FD_CLOEXEC)).context("failed fcntl")?;
+    ctx.outfile = writer.into_raw_fd();
+    Ok(Some(spool.into_raw_fd()))
+}
+
 /// Open the targets of a command's output redirections and make them its output.
 /// Returns whether standard output is redirected.
 pub(crate) fn apply_output_redirects(ctx: &mut Context, redirects: &[Redirect]) -> Result<bool> {
diff --git a/dsh/src/process/job_process.rs b/dsh/src/process/job_process.rs
index c47631b..00f35ce 100644
--- a/dsh/src/process/job_process.rs
+++ b/dsh/src/process/job_process.rs
@@ -8,7 +8,7 @@ use tracing::debug;
 
 use super::builtin::BuiltinProcess;
 use super::fork::{fork_builtin_process, fork_process};
-use super::io::{apply_output_redirects, create_pipe, handle_output_redirect};
+use super::io::{apply_output_redirects, create_pipe, create_spool, handle_output_redirect};
 use super::process::Process;
 use super::redirect::Redirect;
 use super::signal::send_signal;
@@ -284,9 +284,16 @@ impl JobProcess {
         // has pipelines process ?
         let next_process = self.take_next();
 
+        // A builtin in the foreground runs to its end before the next command starts.
+        let runs_here = ctx.foreground && matches!(self, JobProcess::Builtin(_));
+
         let pipe_out = match next_process {
             Some(_) => {
-                let pipe_out = create_pipe(ctx)?; // create pipe
+                let pipe_out = if runs_here {
+                    create_spool(ctx)?
+                } else {
+                    create_pipe(ctx)? // create pipe
+                };
                 let pipe_in = ctx.outfile;
                 if apply_output_redirects(ctx, redirects)? {
                     let _ = close(pipe_in);
@@ -379,6 +386,9 @@ impl JobProcess {
 
         // set pipe inout
         if let Some(pipe_out) = pipe_out {
+            if runs_here {
+                unsafe { libc::lseek(pipe_out, 0, libc::SEEK_SET) };
+            }
             ctx.infile = pipe_out;
         }
         // return launched process pid and pipeline process
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index a5dab3d..3080745 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -357,15 +357,13 @@ pub fn parse_command(
                     let mut ctx = Context::new(shell.pid, shell.pgid, tmode.clone(), false);
                     ctx.foreground = true;
                     // The commands finish before the reader starts, so their output
-                    // (which may be more than a pipe holds) waits in memory.
-                    let fd = unsafe { libc::memfd_create(c"dsh-proc-subst".as_ptr(), 0) };
-                    if fd < 0 {
-                        return Err(std::io::Error::last_os_error())
-                            .context("failed process substitution");
-                    }
-                    ctx.outfile = fd;
+                    // (which may be more than a pipe holds) waits in a file.
+                    let file = process::io::unnamed_file()?;
+                    ctx.outfile = file.as_raw_fd();
                     shell.launch_subshell(&mut ctx, jobs)?;
+                    unsafe { libc::lseek(file.as_raw_fd(), 0, libc::SEEK_SET) };
                     // Leak fd to keep it open for process substitution
+                    let fd = file.into_raw_fd();
                     let file_name = format!("/dev/fd/{fd}");
                     argv.push(file_name);
                 }
-- 
2.43.0


From 5faa0f8da72a4a496eddbfbbcd8f4a6fb712cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 17/72] fix: a smart pipe feeds the last output into the pipe

---
 dsh-builtin/src/out.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/dsh-builtin/src/out.rs b/dsh-builtin/src/out.rs
index 3c6b37d..b8be219 100644
--- a/dsh-builtin/src/out.rs
+++ b/dsh-builtin/src/out.rs
@@ -146,19 +146,14 @@ pub fn print_last_stdout_description() -> &'static str {
 /// This is used effectively for the "Smart Pipe" feature where starting a command
 /// with `|` pipes the previous output to the new command.
 pub fn print_last_stdout(
-    _ctx: &Context,
+    ctx: &Context,
     _argv: Vec<String>,
     proxy: &mut dyn ShellProxy,
 ) -> ExitStatus {
     // Simply fetch "OUT" (which resolves to OUT[1]) and print it
     if let Some(output) = proxy.get_var("OUT") {
-        print!("{}", output);
-        // Ensure we end with a newline if the output didn't have one (though typically it might)
-        // Actually, for piping, we should probably just print exactly what was captured.
-        // But OutputEntry.stdout is a String, so it's textual.
-        if !output.ends_with('\n') {
-            println!();
-        }
+        // `write_stdout` ends the output with a newline, which it typically has already.
+        let _ = ctx.write_stdout(output.strip_suffix('\n').unwrap_or(&output));
     }
     ExitStatus::ExitedWith(0)
 }
-- 
2.43.0


From 1500295c1fa9cd0b8f536bb68d229e7863942919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 18/72] fix: the output of a pipeline, not only of a single
 command, is the last output

---
 dsh/src/process/job_pty.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsh/src/process/job_pty.rs b/dsh/src/process/job_pty.rs
index 3e4a2e6..2781f41 100644
--- a/dsh/src/process/job_pty.rs
+++ b/dsh/src/process/job_pty.rs
@@ -189,12 +189,18 @@ pub async fn capture_output_and_history(
         }
     } else {
         let mut monitors_iter = job.monitors.iter();
-        if let Some((Some(_), _)) = job.process.as_ref().map(|p| p.get_cap_out())
+        // The output of a pipeline is that of its last command.
+        let mut last = job.process.clone();
+        while let Some(next) = last.as_ref().and_then(|p| p.next()) {
+            last = Some(next);
+        }
+        let (cap_stdout, cap_stderr) = last.map_or((None, None), |p| p.get_cap_out());
+        if cap_stdout.is_some()
             && let Some(m) = monitors_iter.next()
         {
             stdout_cap = m.captured_output.clone();
         }
-        if let Some((_, Some(_))) = job.process.as_ref().map(|p| p.get_cap_out())
+        if cap_stderr.is_some()
             && let Some(m) = monitors_iter.next()
         {
             stderr_cap = m.captured_output.clone();
-- 
2.43.0


From 39cfb71302cb5cc1011d1a7e431fb0d74e13acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 19/72] fix: $OUT[N] and $ERR[N] name one output

---
 dsh/src/shell.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsh/src/shell.pest b/dsh/src/shell.pest
index 0fe2383..3a564f5 100644
--- a/dsh/src/shell.pest
+++ b/dsh/src/shell.pest
@@ -5,7 +5,7 @@ word_char       = _{
 escape_sequence =  { "\\" ~ ANY }
 
 word                =  { (escape_sequence | word_char)+ }
-variable            =  { "$" ~ word }
+variable            =  { "$" ~ (("OUT" | "ERR") ~ "[" ~ ASCII_DIGIT+ ~ "]" | word) }
 glob_char           = _{ "*" | "?" | "[" }
 glob_remaining_char = _{ word_char | glob_char | "]" | "{" | "}" | escape_sequence }
 glob_word           =  { (word_char | escape_sequence)* ~ glob_char ~ glob_remaining_char* }
-- 
2.43.0


From 1e761815ffecd32b699af1c43fba115f0f121f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 20/72] fix: out writes to the output of the command, and lists
 multi-byte output

---
 dsh-builtin/src/out.rs | 105 ++++++++++++++++++++++++-----------------
 1 file changed, 63 insertions(+), 42 deletions(-)

diff --git a/dsh-builtin/src/out.rs b/dsh-builtin/src/out.rs
index b8be219..46341c0 100644
--- a/dsh-builtin/src/out.rs
+++ b/dsh-builtin/src/out.rs
@@ -5,6 +5,13 @@
 use super::ShellProxy;
 use dsh_types::{Context, ExitStatus};
 
+/// Write a line to the output of the command.
+macro_rules! say {
+    ($ctx:expr, $($arg:tt)*) => {
+        let _ = $ctx.write_stdout(&format!($($arg)*));
+    };
+}
+
 /// Built-in out command description
 pub fn description() -> &'static str {
     "Display command output history"
@@ -18,18 +25,18 @@ pub fn description() -> &'static str {
 ///   out --list        - List all stored outputs
 ///   out --clear       - Clear output history
 ///   out --help        - Show help
-pub fn command(_ctx: &Context, argv: Vec<String>, proxy: &mut dyn ShellProxy) -> ExitStatus {
+pub fn command(ctx: &Context, argv: Vec<String>, proxy: &mut dyn ShellProxy) -> ExitStatus {
     let args: Vec<&str> = argv.iter().skip(1).map(|s| s.as_str()).collect();
 
     match args.first() {
         None => {
             // Show most recent output
-            show_output(proxy, 1)
+            show_output(ctx, proxy, 1)
         }
-        Some(&"--list") | Some(&"-l") => list_outputs(proxy),
+        Some(&"--list") | Some(&"-l") => list_outputs(ctx, proxy),
         Some(&"--clear") | Some(&"-c") => clear_outputs(proxy),
         Some(&"--help") | Some(&"-h") => {
-            print_help();
+            print_help(ctx);
             ExitStatus::ExitedWith(0)
         }
         Some(arg) => {
@@ -39,7 +46,7 @@ pub fn command(_ctx: &Context, argv: Vec<String>, proxy: &mut dyn ShellProxy) ->
                     eprintln!("out: index must be 1 or greater");
                     ExitStatus::ExitedWith(1)
                 } else {
-                    show_output(proxy, index)
+                    show_output(ctx, proxy, index)
                 }
             } else {
                 eprintln!("out: invalid argument '{}'", arg);
@@ -50,15 +57,16 @@ pub fn command(_ctx: &Context, argv: Vec<String>, proxy: &mut dyn ShellProxy) ->
     }
 }
 
-fn show_output(proxy: &mut dyn ShellProxy, index: usize) -> ExitStatus {
+fn show_output(ctx: &Context, proxy: &mut dyn ShellProxy, index: usize) -> ExitStatus {
     // Use get_var to access $OUT[N]
     let var_name = format!("OUT[{}]", index);
     match proxy.get_var(&var_name) {
         Some(output) => {
             if output.is_empty() {
-                println!("(empty output)");
+                say!(ctx, "(empty output)");
             } else {
-                println!("{}", output);
+                // The newline at the end is written with the last line.
+                say!(ctx, "{}", output.strip_suffix('\n').unwrap_or(&output));
             }
             ExitStatus::ExitedWith(0)
         }
@@ -69,10 +77,13 @@ fn show_output(proxy: &mut dyn ShellProxy, index: usize) -> ExitStatus {
     }
 }
 
-fn list_outputs(proxy: &mut dyn ShellProxy) -> ExitStatus {
-    println!();
-    println!("Output History:");
-    println!("─────────────────────────────────────────────────────────────────────");
+fn list_outputs(ctx: &Context, proxy: &mut dyn ShellProxy) -> ExitStatus {
+    say!(ctx, "");
+    say!(ctx, "Output History:");
+    say!(
+        ctx,
+        "─────────────────────────────────────────────────────────────────────"
+    );
 
     let mut found = false;
     for i in 1..=10 {
@@ -80,25 +91,32 @@ fn list_outputs(proxy: &mut dyn ShellProxy) -> ExitStatus {
         if let Some(output) = proxy.get_var(&var_name) {
             found = true;
             let preview = output.lines().next().unwrap_or("(empty)");
-            let preview = if preview.len() > 60 {
-                format!("{}...", &preview[..57])
+            let preview = if preview.chars().count() > 60 {
+                format!("{}...", preview.chars().take(57).collect::<String>())
             } else {
                 preview.to_string()
             };
             let lines = output.lines().count();
             let bytes = output.len();
-            println!("  [{}] {} lines, {} bytes: {}", i, lines, bytes, preview);
+            say!(
+                ctx,
+                "  [{}] {} lines, {} bytes: {}",
+                i,
+                lines,
+                bytes,
+                preview
+            );
         } else {
             break;
         }
     }
 
     if !found {
-        println!("  No output history available.");
-        println!("  Execute some commands to start collecting output.");
+        say!(ctx, "  No output history available.");
+        say!(ctx, "  Execute some commands to start collecting output.");
     }
 
-    println!();
+    say!(ctx, "");
     ExitStatus::ExitedWith(0)
 }
 
@@ -110,30 +128,33 @@ fn clear_outputs(proxy: &mut dyn ShellProxy) -> ExitStatus {
     ExitStatus::ExitedWith(1)
 }
 
-fn print_help() {
-    println!("Usage: out [N] [OPTIONS]");
-    println!();
-    println!("Display command output history.");
-    println!();
-    println!("Arguments:");
-    println!("  N             Show the Nth most recent output (1 = most recent)");
-    println!();
-    println!("Options:");
-    println!("  -l, --list    List all stored outputs with previews");
-    println!("  -c, --clear   Clear output history");
-    println!("  -h, --help    Show this help message");
-    println!();
-    println!("Variables:");
-    println!("  $OUT          Most recent stdout");
-    println!("  $OUT[N]       Nth most recent stdout");
-    println!("  $ERR          Most recent stderr");
-    println!("  $ERR[N]       Nth most recent stderr");
-    println!();
-    println!("Examples:");
-    println!("  out           Show most recent output");
-    println!("  out 2         Show 2nd most recent output");
-    println!("  out --list    List all stored outputs");
-    println!("  echo $OUT     Use most recent output in a command");
+fn print_help(ctx: &Context) {
+    say!(ctx, "Usage: out [N] [OPTIONS]");
+    say!(ctx, "");
+    say!(ctx, "Display command output history.");
+    say!(ctx, "");
+    say!(ctx, "Arguments:");
+    say!(
+        ctx,
+        "  N             Show the Nth most recent output (1 = most recent)"
+    );
+    say!(ctx, "");
+    say!(ctx, "Options:");
+    say!(ctx, "  -l, --list    List all stored outputs with previews");
+    say!(ctx, "  -c, --clear   Clear output history");
+    say!(ctx, "  -h, --help    Show this help message");
+    say!(ctx, "");
+    say!(ctx, "Variables:");
+    say!(ctx, "  $OUT          Most recent stdout");
+    say!(ctx, "  $OUT[N]       Nth most recent stdout");
+    say!(ctx, "  $ERR          Most recent stderr");
+    say!(ctx, "  $ERR[N]       Nth most recent stderr");
+    say!(ctx, "");
+    say!(ctx, "Examples:");
+    say!(ctx, "  out           Show most recent output");
+    say!(ctx, "  out 2         Show 2nd most recent output");
+    say!(ctx, "  out --list    List all stored outputs");
+    say!(ctx, "  echo $OUT     Use most recent output in a command");
 }
 
 /// Description for the internal print last stdout command
-- 
2.43.0


From 08bef42ef57210d64d69ddf2eba831ecd4948e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 21/72] fix: the last output is recorded with the exit status
 of its command

---
 dsh/src/process/job_pty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsh/src/process/job_pty.rs b/dsh/src/process/job_pty.rs
index 2781f41..74bf25c 100644
--- a/dsh/src/process/job_pty.rs
+++ b/dsh/src/process/job_pty.rs
@@ -212,7 +212,7 @@ pub async fn capture_output_and_history(
         let stdout_stripped = console::strip_ansi_codes(&stdout_cap).to_string();
         let stderr_stripped = console::strip_ansi_codes(&stderr_cap).to_string();
 
-        let exit_code = match job.state {
+        let exit_code = match job.last_process_state() {
             ProcessState::Completed(c, _) => c as i32,
             _ => 0,
         };
-- 
2.43.0


From e9de7a7209da56b1dcfa8822bc7f6f16278a3fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 22/72] fix: the safety guard checks every command of a
 pipeline, as it will be executed

---
 dsh/src/process/job_process.rs |  7 ++++
 dsh/src/safety/mod.rs          | 67 +++++++++++++++++++++-------------
 2 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/dsh/src/process/job_process.rs b/dsh/src/process/job_process.rs
index 00f35ce..cc5367c 100644
--- a/dsh/src/process/job_process.rs
+++ b/dsh/src/process/job_process.rs
@@ -231,6 +231,13 @@ impl JobProcess {
         }
     }
 
+    pub fn get_argv(&self) -> &[String] {
+        match self {
+            JobProcess::Builtin(p) => &p.argv,
+            JobProcess::Command(p) => &p.argv,
+        }
+    }
+
     pub fn check_safety(&self, shell: &mut Shell) -> Result<bool> {
         let (cmd, argv) = match self {
             JobProcess::Builtin(p) => (p.name.as_str(), &p.argv),
diff --git a/dsh/src/safety/mod.rs b/dsh/src/safety/mod.rs
index c746e05..f148763 100644
--- a/dsh/src/safety/mod.rs
+++ b/dsh/src/safety/mod.rs
@@ -123,42 +123,43 @@ impl SafetyGuard {
                 continue;
             }
 
-            let cmd_token = job.cmd.split_whitespace().next().unwrap_or("");
-            let cmd_name = Self::get_command_name(cmd_token);
-
-            // Check illegal pipe destinations
-            if i > 0 {
-                let prev_job = &jobs[i - 1];
-                let prev_token = prev_job.cmd.split_whitespace().next().unwrap_or("");
-                let prev_cmd = Self::get_command_name(prev_token);
+            // Every command of the pipeline counts, not only the first one.
+            let stages = Self::stages(job);
+            for (k, words) in stages.iter().enumerate() {
+                let Some((cmd, args)) = words.split_first() else {
+                    continue;
+                };
+                let cmd_name = Self::get_command_name(cmd);
 
-                if Self::is_network_tool(&prev_cmd) && Self::is_execution_tool(&cmd_name) {
-                    return SafetyResult::Confirm(format!(
-                        "Dangerous pipeline detected: '{} | {}'. This looks like a 'curl | sh' pattern. Proceed?",
-                        prev_cmd, cmd_name
-                    ));
+                // Check illegal pipe destinations
+                let prev_token = if k > 0 {
+                    stages[k - 1].first().map(String::as_str)
+                } else if i > 0 {
+                    jobs[i - 1].cmd.split_whitespace().next()
+                } else {
+                    None
+                };
+                if let Some(prev_token) = prev_token {
+                    let prev_cmd = Self::get_command_name(prev_token);
+
+                    if Self::is_network_tool(&prev_cmd) && Self::is_execution_tool(&cmd_name) {
+                        return SafetyResult::Confirm(format!(
+                            "Dangerous pipeline detected: '{} | {}'. This looks like a 'curl | sh' pattern. Proceed?",
+                            prev_cmd, cmd_name
+                        ));
+                    }
                 }
-            }
-
-            // Check individual command safety
-            // We assume basic args parsing from the job command string is needed or done elsewhere.
-            // Job struct has `process` but it might be complex to extract clean args.
-            // For now, we do a simple split. This is rough but covers most cases.
-            let parts: Vec<String> = job.cmd.split_whitespace().map(|s| s.to_string()).collect();
-            if let Some(cmd) = parts.first() {
-                let args = if parts.len() > 1 { &parts[1..] } else { &[] };
-                let cmd_clean = Self::get_command_name(cmd);
 
                 // 1. Check always warn list
-                if self.always_warn_commands.contains(&cmd_clean) {
+                if self.always_warn_commands.contains(&cmd_name) {
                     return SafetyResult::Confirm(format!(
                         "Potentially dangerous system command '{}' detected. Proceed?",
-                        cmd_clean
+                        cmd_name
                     ));
                 }
 
                 // 2. Run specific checker if available
-                if let Some(checker) = self.checkers.get(&cmd_clean)
+                if let Some(checker) = self.checkers.get(&cmd_name)
                     && let Some(msg) = checker(args)
                 {
                     return SafetyResult::Confirm(msg);
@@ -169,6 +170,20 @@ impl SafetyGuard {
         SafetyResult::Allowed
     }
 
+    /// The words of each command of a job, as they will be executed.
+    fn stages(job: &Job) -> Vec<Vec<String>> {
+        let mut stages = Vec::new();
+        let mut process = job.process.clone();
+        while let Some(p) = process {
+            stages.push(p.get_argv().to_vec());
+            process = p.next();
+        }
+        if stages.is_empty() {
+            stages.push(job.cmd.split_whitespace().map(str::to_string).collect());
+        }
+        stages
+    }
+
     /// Check a single command (legacy or simpler use cases)
     /// This is now mostly a wrapper or for simple checks.
     pub fn check_command(
-- 
2.43.0


From 727c112accfe1c7293ef72c8e550a442939d6235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 23/72] fix: the safety guard sees -r, -R and -f in a group of
 options

---
 dsh/src/safety/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dsh/src/safety/mod.rs b/dsh/src/safety/mod.rs
index f148763..63db177 100644
--- a/dsh/src/safety/mod.rs
+++ b/dsh/src/safety/mod.rs
@@ -381,6 +381,12 @@ impl SafetyGuard {
 
     // --- Checkers ---
 
+    /// Is one of the flags in a group of short options, like -vRf?
+    fn has_short_flag(arg: &str, flags: &[char]) -> bool {
+        arg.strip_prefix('-')
+            .is_some_and(|group| !group.starts_with('-') && group.contains(flags))
+    }
+
     fn check_rm(args: &[String]) -> Option<String> {
         let mut recursive = false;
         let mut force = false;
@@ -393,10 +399,8 @@ impl SafetyGuard {
             if arg == "-f" || arg == "--force" {
                 force = true;
             }
-            if arg.starts_with("-rx") || arg.starts_with("-rf") || arg.starts_with("-fr") {
-                recursive = true;
-                force = true;
-            }
+            recursive |= Self::has_short_flag(arg, &['r', 'R']);
+            force |= Self::has_short_flag(arg, &['f']);
             if arg == "/" || arg == "/*" {
                 root_path = true;
             }
@@ -461,7 +465,7 @@ impl SafetyGuard {
 
     fn check_recursive(args: &[String]) -> Option<String> {
         for arg in args {
-            if arg == "-R" || arg == "--recursive" {
+            if Self::has_short_flag(arg, &['R']) || arg == "--recursive" {
                 return Some("Recursive operation detected. Proceed?".to_string());
             }
         }
@@ -482,6 +486,8 @@ impl SafetyGuard {
             if arg.starts_with('-') && arg.contains('r') {
                 recursive = true;
             }
+            recursive |= Self::has_short_flag(arg, &['R']);
+            force |= Self::has_short_flag(arg, &['f']);
         }
 
         if recursive && force {
-- 
2.43.0


From bd83a6d7f403c1404d6ffe3f027e8599d42aba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 24/72] fix: commands in a substitution are checked by the
 safety guard before they run

---
 dsh/src/shell/eval.rs | 133 ++++++++++++++++++++++--------------------
 1 file changed, 69 insertions(+), 64 deletions(-)

diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 8d8377a..2e3ce9a 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -115,71 +115,17 @@ pub async fn eval_str(
     // Smart Pipe transformation
     let input = transform_input_for_smart_pipe(input);
 
-    let jobs = get_jobs(shell, &input)?;
-
-    // SAFETY CHECK
-    {
-        use crate::repl::confirmation::ConfirmationAction;
-        use crate::safety::SafetyResult;
-
-        let _allowlist_add_cmd: Option<String> = None;
-        let mut denied_reason: Option<String> = None;
-        let mut user_cancelled = false;
-
-        {
-            let environment = shell.environment.read();
-            let safety_level_guard = environment.safety_level.read();
-            let allowlist_guard = environment.execute_allowlist.read();
-
-            match shell
-                .safety_guard
-                .check_jobs(&jobs, &safety_level_guard, &allowlist_guard)
-            {
-                SafetyResult::Allowed => {
-                    // Proceed
-                }
-                SafetyResult::Denied(reason) => {
-                    denied_reason = Some(reason);
-                }
-                SafetyResult::Confirm(reason) => {
-                    // Release locks before confirmation to avoid holding them during user input
-                    drop(allowlist_guard);
-                    drop(safety_level_guard);
-                    drop(environment);
-
-                    match crate::repl::confirmation::confirm_action(&reason) {
-                        Ok(ConfirmationAction::Yes) => {
-                            // Proceed
-                        }
-                        Ok(ConfirmationAction::AlwaysAllow) => {
-                            // Proceed and mark for add
-                            // We allow the *exact matching command strings* of all jobs in this approved pipeline.
-
-                            shell
-                                .environment
-                                .read()
-                                .execute_allowlist
-                                .write()
-                                .extend(jobs.iter().map(|j| j.cmd.clone()));
-                        }
-                        Ok(ConfirmationAction::No) | Err(_) => {
-                            user_cancelled = true;
-                        }
-                    }
-                }
-            }
-        }
-
-        if let Some(reason) = denied_reason {
-            tracing::warn!("Command execution denied by SafetyGuard: {}", reason);
-            eprintln!("🚫 Access Denied: {}", reason);
-            return Ok(1);
-        }
+    let jobs = match get_jobs(shell, &input) {
+        Ok(jobs) => jobs,
+        // A substitution of the line was refused.
+        Err(e) => match e.downcast_ref::<Refused>() {
+            Some(Refused(code)) => return Ok(*code),
+            None => return Err(e),
+        },
+    };
 
-        if user_cancelled {
-            tracing::info!("Command execution cancelled by user");
-            return Ok(130);
-        }
+    if let Some(code) = refused_by_safety_guard(shell, &jobs) {
+        return Ok(code);
     }
 
     let mut last_exit_code = 0_i32;
@@ -518,7 +464,66 @@ pub fn get_jobs(shell: &mut Shell, input: &str) -> Result<Vec<Job>> {
     )
 }
 
+/// The commands of a substitution were refused by the safety guard or the user.
+#[derive(Debug)]
+struct Refused(i32);
+
+impl std::fmt::Display for Refused {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        write!(f, "command refused")
+    }
+}
+
+impl std::error::Error for Refused {}
+
+/// Ask the safety guard, and the user if it demands so. Returns the status of the line if its
+/// commands must not run.
+fn refused_by_safety_guard(shell: &mut Shell, jobs: &[Job]) -> Option<i32> {
+    use crate::repl::confirmation::ConfirmationAction;
+    use crate::safety::SafetyResult;
+
+    let result = {
+        let environment = shell.environment.read();
+        let safety_level_guard = environment.safety_level.read();
+        let allowlist_guard = environment.execute_allowlist.read();
+        shell
+            .safety_guard
+            .check_jobs(jobs, &safety_level_guard, &allowlist_guard)
+    };
+
+    match result {
+        SafetyResult::Allowed => None,
+        SafetyResult::Denied(reason) => {
+            tracing::warn!("Command execution denied by SafetyGuard: {}", reason);
+            eprintln!("🚫 Access Denied: {}", reason);
+            Some(1)
+        }
+        SafetyResult::Confirm(reason) => {
+            match crate::repl::confirmation::confirm_action(&reason) {
+                Ok(ConfirmationAction::Yes) => None,
+                Ok(ConfirmationAction::AlwaysAllow) => {
+                    // We allow the *exact matching command strings* of all jobs in this approved pipeline.
+                    shell
+                        .environment
+                        .read()
+                        .execute_allowlist
+                        .write()
+                        .extend(jobs.iter().map(|j| j.cmd.clone()));
+                    None
+                }
+                Ok(ConfirmationAction::No) | Err(_) => {
+                    tracing::info!("Command execution cancelled by user");
+                    Some(130)
+                }
+            }
+        }
+    }
+}
+
 pub fn launch_subshell(shell: &mut Shell, ctx: &mut Context, jobs: Vec<Job>) -> Result<()> {
+    if let Some(code) = refused_by_safety_guard(shell, &jobs) {
+        return Err(Refused(code).into());
+    }
     let mut last_exit_code = 0_i32;
     let mut gate_op = ListOp::None;
     for mut job in jobs {
-- 
2.43.0


From d4c277fccc767218b9af1f77bbe21243e86a00e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 25/72] fix: alias and variable expansion keeps the operators
 of commands in a substitution

---
 dsh/src/parser/expansion.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index bef90b1..1dc0f7a 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -230,7 +230,12 @@ pub fn expand_alias_tilde(
                     }
                     Rule::command_subst => {
                         debug!("expand command_subst {}", inner_pair.as_str());
-                        argv.push(inner_pair.as_str().to_string());
+                        argv.push("$(".to_string());
+                        for inner_pair in inner_pair.into_inner() {
+                            let mut v = expand_alias_tilde(inner_pair, alias, _current_dir)?;
+                            argv.append(&mut v);
+                        }
+                        argv.push(")".to_string());
                     }
                     Rule::subshell => {
                         debug!("expand subshell {}", inner_pair.as_str());
@@ -268,14 +273,27 @@ pub fn expand_alias_tilde(
                             }
                         }
                     }
+                    // The operators of the commands in a substitution stay where they are.
+                    Rule::command_list_sep
+                    | Rule::capture_suffix
+                    | Rule::struct_pipe_command => {
+                        argv.push(inner_pair.as_str().to_string());
+                    }
                     Rule::commands
                     | Rule::command
                     | Rule::simple_command
                     | Rule::args
                     | Rule::span => {
                         for inner_pair in inner_pair.into_inner() {
+                            let rule = inner_pair.as_rule();
+                            if rule == Rule::pipe_command {
+                                argv.push("|".to_string());
+                            }
                             let mut v = expand_alias_tilde(inner_pair, alias, _current_dir)?;
                             argv.append(&mut v);
+                            if rule == Rule::simple_command_bg {
+                                argv.push("&".to_string());
+                            }
                         }
                     }
                     Rule::word
-- 
2.43.0


From 82ed34e2229deecd0d463c582df5846f5b8553a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 26/72] fix: a job whose command has already started is not
 taken for one that cannot be put in its process group

---
 dsh/src/process/job.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsh/src/process/job.rs b/dsh/src/process/job.rs
index 3e11023..e9dbc72 100644
--- a/dsh/src/process/job.rs
+++ b/dsh/src/process/job.rs
@@ -316,6 +316,10 @@ impl Job {
                         "🔧 PGID: Successfully set pgid {} for pid {}",
                         target_pgid, pid
                     ),
+                    // The child sets its process group itself, and has started the command.
+                    Err(nix::errno::Errno::EACCES) => {
+                        debug!("🔧 PGID: pid {} already runs its command", pid)
+                    }
                     Err(e) => {
                         error!(
                             "🔧 PGID: Failed to set pgid {} for pid {}: {}",
-- 
2.43.0


From 94bfa924a903177de60b06dd5c778c50baac60d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 27/72] fix: the blanks before an operator are not part of the
 text of a command

---
 dsh/src/shell/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 3080745..702ba42 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -465,7 +465,8 @@ fn parse_jobs(
     pair: Pair<Rule>,
     jobs: &mut Vec<Job>,
 ) -> Result<()> {
-    let job_str = pair.as_str().to_string();
+    // The blanks before an operator are not part of the command.
+    let job_str = pair.as_str().trim_end().to_string();
 
     for inner_pair in pair.into_inner() {
         debug!(
@@ -490,7 +491,7 @@ fn parse_jobs(
             }
             Rule::simple_command_bg => {
                 // background job
-                let mut job = Job::new(inner_pair.as_str().to_string(), shell.pgid);
+                let mut job = Job::new(inner_pair.as_str().trim_end().to_string(), shell.pgid);
                 job.job_id = shell.get_next_job_id();
                 for bg_pair in inner_pair.into_inner() {
                     if let Rule::simple_command = bg_pair.as_rule() {
-- 
2.43.0


From 627467221547b6fc9febe51fde86bd3c60685be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 28/72] fix: cp --force is not taken for a recursive copy by
 the safety guard

---
 dsh/src/safety/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dsh/src/safety/mod.rs b/dsh/src/safety/mod.rs
index 63db177..161e5f7 100644
--- a/dsh/src/safety/mod.rs
+++ b/dsh/src/safety/mod.rs
@@ -483,10 +483,7 @@ impl SafetyGuard {
             if arg == "-f" || arg == "--force" {
                 force = true;
             }
-            if arg.starts_with('-') && arg.contains('r') {
-                recursive = true;
-            }
-            recursive |= Self::has_short_flag(arg, &['R']);
+            recursive |= Self::has_short_flag(arg, &['r', 'R']);
             force |= Self::has_short_flag(arg, &['f']);
         }
 
-- 
2.43.0


From 1dc096e81808bdb96061fadf9cfe0660febf9e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 29/72] fix: redaction hides whole values and what a custom
 pattern matches

---
 dsh/src/secrets.rs | 104 +++++++++++++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 36 deletions(-)

diff --git a/dsh/src/secrets.rs b/dsh/src/secrets.rs
index 7d31721..398e6c1 100644
--- a/dsh/src/secrets.rs
+++ b/dsh/src/secrets.rs
@@ -78,6 +78,34 @@ static QUERY_SECRET_PATTERN: Lazy<Option<Regex>> = Lazy::new(|| {
     Regex::new(r#"(?i)([?&](?:token|access_token|api_key|apikey|auth|password)=)([^&\s]+)"#).ok()
 });
 
+/// A whole value as the shell reads it, with its quoted and escaped parts; a quote may be left open.
+macro_rules! value {
+    () => {
+        r#"((?:"(?:\\.|[^"\\])*(?:"|$)|'[^']*(?:'|$)|\\.|[^\s"'\\])(?:"(?:\\.|[^"\\])*"|'[^']*'|\\.|\S)*)"#
+    };
+}
+
+/// Assignments that are a word of their own or quoted as a whole (e.g., KEY="a b", "KEY=a b")
+static WHOLE_ASSIGNMENT_PATTERNS: Lazy<Vec<Regex>> = Lazy::new(|| {
+    [
+        concat!(r"(?is)(?:^|[\s;|(])([A-Z_][A-Z0-9_]*)=", value!()),
+        r#"(?is)"([A-Z_][A-Z0-9_]*)=((?:\\.|[^"\\])+)"#,
+        r"(?is)'([A-Z_][A-Z0-9_]*)=([^']+)",
+    ]
+    .iter()
+    .filter_map(|pattern| Regex::new(pattern).ok())
+    .collect()
+});
+
+/// Secret-like CLI options with a value of several quoted parts (e.g., --password 'a'"b c")
+static WHOLE_OPTION_PATTERN: Lazy<Option<Regex>> = Lazy::new(|| {
+    Regex::new(concat!(
+        r"(?is)(?:^|\s)(--?(?:password|passwd|passphrase|token|secret|api[-_]?key|access[-_]?token)(?:\s+|=)|-p\s+)",
+        value!()
+    ))
+    .ok()
+});
+
 /// Secret management
 #[derive(Debug)]
 pub struct SecretManager {
@@ -169,6 +197,9 @@ impl SecretManager {
         OPTION_SECRET_PATTERN
             .as_ref()
             .is_some_and(|pattern| pattern.is_match(cmd))
+            || WHOLE_OPTION_PATTERN
+                .as_ref()
+                .is_some_and(|pattern| pattern.is_match(cmd))
             || AUTH_BEARER_PATTERN
                 .as_ref()
                 .is_some_and(|pattern| pattern.is_match(cmd))
@@ -179,50 +210,51 @@ impl SecretManager {
 
     /// Redact secret parts and return
     pub fn redact_command(&self, cmd: &str) -> String {
-        let mut result = cmd.to_string();
+        // The secret parts of the command; they may overlap.
+        let mut secrets = Vec::new();
 
-        if let Some(pattern) = ASSIGNMENT_PATTERN.as_ref() {
-            result = pattern
-                .replace_all(&result, |caps: &regex::Captures<'_>| {
-                    let key = caps.get(1).map(|m| m.as_str()).unwrap_or("");
-                    if self.is_sensitive_key(key) {
-                        format!("{key}=***")
-                    } else {
-                        caps.get(0)
-                            .map(|m| m.as_str().to_string())
-                            .unwrap_or_default()
-                    }
-                })
-                .to_string();
+        for pattern in ASSIGNMENT_PATTERN
+            .iter()
+            .chain(WHOLE_ASSIGNMENT_PATTERNS.iter())
+        {
+            for caps in pattern.captures_iter(cmd) {
+                if let (Some(key), Some(value)) = (caps.get(1), caps.get(2))
+                    && self.is_sensitive_key(key.as_str())
+                {
+                    secrets.push(value.range());
+                }
+            }
         }
 
-        if let Some(pattern) = OPTION_SECRET_PATTERN.as_ref() {
-            result = pattern
-                .replace_all(&result, |caps: &regex::Captures<'_>| {
-                    let prefix = caps.get(1).map(|m| m.as_str()).unwrap_or("");
-                    format!("{prefix}***")
-                })
-                .to_string();
+        for pattern in [
+            &OPTION_SECRET_PATTERN,
+            &WHOLE_OPTION_PATTERN,
+            &AUTH_BEARER_PATTERN,
+            &QUERY_SECRET_PATTERN,
+        ] {
+            if let Some(pattern) = pattern.as_ref() {
+                let values = pattern.captures_iter(cmd).filter_map(|caps| caps.get(2));
+                secrets.extend(values.map(|value| value.range()));
+            }
         }
 
-        if let Some(pattern) = AUTH_BEARER_PATTERN.as_ref() {
-            result = pattern
-                .replace_all(&result, |caps: &regex::Captures<'_>| {
-                    let prefix = caps.get(1).map(|m| m.as_str()).unwrap_or("");
-                    format!("{prefix}***")
-                })
-                .to_string();
+        for pattern in self.custom_patterns.read().iter() {
+            secrets.extend(pattern.find_iter(cmd).map(|found| found.range()));
         }
 
-        if let Some(pattern) = QUERY_SECRET_PATTERN.as_ref() {
-            result = pattern
-                .replace_all(&result, |caps: &regex::Captures<'_>| {
-                    let prefix = caps.get(1).map(|m| m.as_str()).unwrap_or("");
-                    format!("{prefix}***")
-                })
-                .to_string();
-        }
+        secrets.retain(|range| !range.is_empty());
+        secrets.sort_by_key(|range| range.start);
 
+        let mut result = String::new();
+        let mut end = 0;
+        for range in secrets {
+            if range.start >= end {
+                result.push_str(&cmd[end..range.start]);
+                result.push_str("***");
+            }
+            end = end.max(range.end);
+        }
+        result.push_str(&cmd[end..]);
         result
     }
 
-- 
2.43.0


From 61d7bb73a594c177862ae38f0ce9e346cb99ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 30/72] fix: a quoted network tool before an interpreter is
 seen in a list

---
 dsh/src/safety/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsh/src/safety/mod.rs b/dsh/src/safety/mod.rs
index 161e5f7..12e2c42 100644
--- a/dsh/src/safety/mod.rs
+++ b/dsh/src/safety/mod.rs
@@ -133,14 +133,15 @@ impl SafetyGuard {
 
                 // Check illegal pipe destinations
                 let prev_token = if k > 0 {
-                    stages[k - 1].first().map(String::as_str)
+                    stages[k - 1].first().cloned()
                 } else if i > 0 {
-                    jobs[i - 1].cmd.split_whitespace().next()
+                    let before = Self::stages(&jobs[i - 1]);
+                    before.first().and_then(|words| words.first().cloned())
                 } else {
                     None
                 };
                 if let Some(prev_token) = prev_token {
-                    let prev_cmd = Self::get_command_name(prev_token);
+                    let prev_cmd = Self::get_command_name(&prev_token);
 
                     if Self::is_network_tool(&prev_cmd) && Self::is_execution_tool(&cmd_name) {
                         return SafetyResult::Confirm(format!(
-- 
2.43.0


From 1bde52755b45be5650e744959daca9817092f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 31/72] fix: $NAME finds the variables of set, export and read

---
 dsh/src/environment/variables.rs | 7 +++++--
 dsh/src/proxy/builtin/var.rs     | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsh/src/environment/variables.rs b/dsh/src/environment/variables.rs
index 028904a..a6d8b6f 100644
--- a/dsh/src/environment/variables.rs
+++ b/dsh/src/environment/variables.rs
@@ -35,8 +35,11 @@ impl Environment {
         }
 
         if let Some(var) = key.strip_prefix('$') {
-            // expand env var
-            self.system_env_vars.get(var).cloned()
+            // expand shell var, then env var
+            self.variables
+                .get(var)
+                .or_else(|| self.system_env_vars.get(var))
+                .cloned()
         } else {
             // For compatibility, also check OS env vars without the '$' prefix
             self.system_env_vars.get(key).cloned()
diff --git a/dsh/src/proxy/builtin/var.rs b/dsh/src/proxy/builtin/var.rs
index 2bbb4e2..1f6d441 100644
--- a/dsh/src/proxy/builtin/var.rs
+++ b/dsh/src/proxy/builtin/var.rs
@@ -43,7 +43,7 @@ pub fn execute_read(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Resu
             .read_to_end(&mut stdin)
             .context("read: failed to read input")?;
     };
-    let key = format!("${}", argv[1]);
+    let key = argv[1].clone();
     let output = match std::str::from_utf8(&stdin) {
         Ok(s) => s.trim_end_matches('\n').to_owned(),
         Err(err) => {
-- 
2.43.0


From 5ad9492130191560c1592ac7d71253a8f57407af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 32/72] fix: parts of a word without a blank between them stay
 one argument

Quoted text keeps its $ and loses its escapes, values and file names are
quoted when they are written back, only $NAME is taken for a variable, {}
stays, and * does not match the folder itself.
---
 dsh/src/parser/ast.rs       |  16 +++-
 dsh/src/parser/expansion.rs | 165 ++++++++++++++++++++++++++++++++----
 dsh/src/parser/mod.rs       |   1 +
 dsh/src/shell.pest          |   5 +-
 dsh/src/shell/parse.rs      |  13 +++
 5 files changed, 181 insertions(+), 19 deletions(-)

diff --git a/dsh/src/parser/ast.rs b/dsh/src/parser/ast.rs
index bdaa875..7928810 100644
--- a/dsh/src/parser/ast.rs
+++ b/dsh/src/parser/ast.rs
@@ -6,7 +6,19 @@ use tracing::debug;
 
 pub fn get_string(pair: Pair<Rule>) -> Option<String> {
     match pair.as_rule() {
-        Rule::s_quoted | Rule::d_quoted => {
+        Rule::d_quoted => {
+            let text = pair.into_inner().next().map_or("", |next| next.as_str());
+            let mut res = String::with_capacity(text.len());
+            let mut chars = text.chars().peekable();
+            while let Some(c) = chars.next() {
+                match chars.peek() {
+                    Some('"' | '\\' | '$' | '`') if c == '\\' => res.extend(chars.next()),
+                    _ => res.push(c),
+                }
+            }
+            Some(res)
+        }
+        Rule::s_quoted => {
             let res = if let Some(next) = pair.into_inner().next() {
                 next.as_str().to_string()
             } else {
@@ -21,7 +33,7 @@ pub fn get_string(pair: Pair<Rule>) -> Option<String> {
                 Some("".to_string())
             }
         }
-        Rule::word | Rule::glob_word => {
+        Rule::word | Rule::glob_word | Rule::brace_word => {
             let s = pair.as_str();
             if !s.contains('\\') {
                 return Some(s.to_string());
diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index 1dc0f7a..821c30a 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -9,6 +9,112 @@ use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tracing::debug;
 
+/// Stands between two parts of the same word (`a"b c"`), which are joined without a blank.
+const GLUE: &str = "\0";
+
+fn join_words(words: &[String]) -> String {
+    let mut text = String::new();
+    let mut glued = true;
+    for word in words {
+        if word == GLUE {
+            glued = true;
+            continue;
+        }
+        if !glued {
+            text.push(' ');
+        }
+        text.push_str(word);
+        glued = false;
+    }
+    text
+}
+
+/// Whether a span is text of a word, not a substitution or a pattern
+fn is_word_part(span: &Pair<Rule>) -> bool {
+    span.as_rule() == Rule::span
+        && span.clone().into_inner().next().is_some_and(|inner| {
+            matches!(
+                inner.as_rule(),
+                Rule::word | Rule::variable | Rule::s_quoted | Rule::d_quoted
+            )
+        })
+}
+
+/// Whether two spans are written without a blank between them and so belong to the same word
+pub(crate) fn is_same_word(before: Option<&Pair<Rule>>, span: &Pair<Rule>) -> bool {
+    before.is_some_and(|before| {
+        before.as_span().end() == span.as_span().start()
+            && is_word_part(before)
+            && is_word_part(span)
+    })
+}
+
+/// Writes text so that it is read again as one word
+fn quote_text(text: &str) -> String {
+    if text.contains(['"', '\\', '$', '`']) {
+        text.chars()
+            .map(|c| {
+                if c.is_alphanumeric() || matches!(c, '_' | '-' | '.' | '/') {
+                    c.to_string()
+                } else {
+                    format!("\\{c}")
+                }
+            })
+            .collect()
+    } else {
+        format!("\"{text}\"")
+    }
+}
+
+/// Replaces the variables in a double-quoted text; unknown ones stay as they are
+fn expand_quoted_vars(text: &str, env: &Environment) -> String {
+    let mut result = String::with_capacity(text.len());
+    let mut rest = text;
+    while let Some(at) = rest.find(['\\', '$']) {
+        let (before, found) = rest.split_at(at);
+        result.push_str(before);
+        let len = if found.starts_with('\\') {
+            1 + found[1..].chars().next().map_or(0, char::len_utf8)
+        } else {
+            variable_len(found)
+        };
+        let (found, after) = found.split_at(len);
+        match env.get_var(found) {
+            Some(value) if len > 1 && found.starts_with('$') => {
+                for c in value.chars() {
+                    if matches!(c, '"' | '\\' | '$' | '`') {
+                        result.push('\\');
+                    }
+                    result.push(c);
+                }
+            }
+            _ => result.push_str(found),
+        }
+        rest = after;
+    }
+    result.push_str(rest);
+    result
+}
+
+/// The length of the variable at the start of a text, 1 if there is only the `$`
+fn variable_len(text: &str) -> usize {
+    let name = text[1..]
+        .find(|c: char| !(c.is_ascii_alphanumeric() || c == '_'))
+        .map_or(text.len(), |end| end + 1);
+    if text[1..].starts_with(|c: char| c.is_ascii_digit()) {
+        return 1;
+    }
+    if matches!(&text[..name], "$OUT" | "$ERR")
+        && let Some(index) = text[name..].strip_prefix('[')
+        && let Some(end) = index.find(']')
+        && end > 0
+        && index[..end].chars().all(|c| c.is_ascii_digit())
+    {
+        return name + end + 2;
+    }
+    name
+}
+
 fn find_glob_root(path: &str) -> (String, String) {
     let mut root = Vec::new();
     let mut glob = Vec::new();
@@ -88,6 +194,14 @@ pub(crate) fn expand_braces(pattern: &str) -> Vec<String> {
             }
             parts.push(current_part);
 
+            if parts == [""] {
+                // Nothing to put there (`find -exec cmd {}`): these braces are literal
+                return expand_braces(&suffix)
+                    .into_iter()
+                    .map(|rest| format!("{prefix}{{}}{rest}"))
+                    .collect();
+            }
+
             for part in parts {
                 let new_pattern = format!("{}{}{}", prefix, part, suffix);
                 result.extend(expand_braces(&new_pattern));
@@ -129,7 +243,12 @@ pub fn expand_alias_tilde(
 
                     match globmatch::Builder::new(&pattern).build(&effective_root) {
                         Ok(builder) => {
-                            let paths: Vec<_> = builder.into_iter().flatten().collect();
+                            let mut paths: Vec<_> = builder
+                                .into_iter()
+                                .flatten()
+                                .filter(|path| *path != effective_root)
+                                .collect();
+                            paths.sort();
                             if paths.is_empty() {
                                 debug!("dsh: no matches for wildcard '{}'", &pattern);
                                 argv.push(pat);
@@ -145,7 +264,12 @@ pub fn expand_alias_tilde(
                                     } else {
                                         path
                                     };
-                                    argv.push(format!("\"{}\"", display_path.display()));
+                                    let mut text = display_path.to_string_lossy().into_owned();
+                                    if pat.starts_with("./") && display_path.is_relative() {
+                                        // `./*` keeps a name like -rf from being an option
+                                        text.insert_str(0, "./");
+                                    }
+                                    argv.push(quote_text(&text));
                                 }
                             }
                         }
@@ -207,7 +331,9 @@ pub fn expand_alias_tilde(
         }
         _ => {
             debug!("@expand: {:?} : {:?}", pair.as_rule(), pair.as_str());
-            for inner_pair in pair.into_inner() {
+            let mut before = None;
+            let mut parts = pair.into_inner().peekable();
+            while let Some(inner_pair) = parts.next() {
                 match inner_pair.as_rule() {
                     Rule::simple_command_bg => {
                         for inner_pair in inner_pair.into_inner() {
@@ -247,11 +373,14 @@ pub fn expand_alias_tilde(
                         argv.push(")".to_string());
                     }
                     Rule::argv0 => {
+                        before = inner_pair.clone().into_inner().next();
+                        let next = parts.peek().and_then(|args| args.clone().into_inner().next());
+                        let whole = !next.is_some_and(|next| is_same_word(before.as_ref(), &next));
                         for inner_pair in inner_pair.into_inner() {
                             let v = expand_alias_tilde(inner_pair, alias, _current_dir)?;
                             for (i, arg) in v.iter().enumerate() {
                                 if i == 0 {
-                                    if let Some(val) = alias.get(arg) {
+                                    if let Some(val) = alias.get(arg).filter(|_| whole) {
                                         debug!("alias '{arg}' => '{val}'");
                                         argv.push(val.trim().to_string());
                                     } else {
@@ -289,6 +418,15 @@ pub fn expand_alias_tilde(
                             if rule == Rule::pipe_command {
                                 argv.push("|".to_string());
                             }
+                            let glued = is_same_word(before.as_ref(), &inner_pair);
+                            before = Some(inner_pair.clone());
+                            if glued {
+                                argv.push(GLUE.to_string());
+                                if inner_pair.as_str().starts_with('~') {
+                                    argv.push(inner_pair.as_str().to_string());
+                                    continue;
+                                }
+                            }
                             let mut v = expand_alias_tilde(inner_pair, alias, _current_dir)?;
                             argv.append(&mut v);
                             if rule == Rule::simple_command_bg {
@@ -450,22 +588,19 @@ pub fn expand_alias_from_pairs(
             buf.append(&mut commands);
         }
     }
-    Ok(buf.join(" "))
+    Ok(join_words(&buf))
 }
 
 fn expand_var_args(args: Vec<String>, env: &Environment, buf: &mut Vec<String>) {
     for arg in args {
-        if let Some(val) = env.get_var(&arg) {
-            if val.is_empty() {
-                buf.push("\"\"".to_string());
+        if arg.starts_with('"') && arg.contains('$') {
+            buf.push(expand_quoted_vars(&arg, env));
+        } else if let Some(val) = env.get_var(&arg).filter(|_| arg.starts_with('$')) {
+            let plain = |c: char| c.is_alphanumeric() || "_-./:=,+@%".contains(c);
+            if !val.is_empty() && val.chars().all(plain) {
+                buf.push(val);
             } else {
-                let needs_quote = val.contains('\n') || val.contains(' ') || val.contains('\t');
-                if needs_quote {
-                    let escaped = val.replace('"', r#"\""#);
-                    buf.push(format!("\"{}\"", escaped));
-                } else {
-                    buf.push(val.trim().to_string());
-                }
+                buf.push(quote_text(&val));
             }
         } else {
             buf.push(arg);
diff --git a/dsh/src/parser/mod.rs b/dsh/src/parser/mod.rs
index 5b9989e..00f0b80 100644
--- a/dsh/src/parser/mod.rs
+++ b/dsh/src/parser/mod.rs
@@ -19,6 +19,7 @@ mod tests_escape;
 
 // Re-exports
 pub use ast::{get_pos_word, get_string, get_words, get_words_from_pairs};
+pub(crate) use expansion::is_same_word;
 pub use expansion::{expand_alias, parse_with_expansion};
 pub use highlight::{
     HighlightKind, HighlightResult, HighlightToken, collect_highlight_tokens_from_pairs,
diff --git a/dsh/src/shell.pest b/dsh/src/shell.pest
index 3a564f5..4764ede 100644
--- a/dsh/src/shell.pest
+++ b/dsh/src/shell.pest
@@ -5,7 +5,8 @@ word_char       = _{
 escape_sequence =  { "\\" ~ ANY }
 
 word                =  { (escape_sequence | word_char)+ }
-variable            =  { "$" ~ (("OUT" | "ERR") ~ "[" ~ ASCII_DIGIT+ ~ "]" | word) }
+variable_name       = _{ (ASCII_ALPHA | "_") ~ (ASCII_ALPHANUMERIC | "_")* }
+variable            =  { "$" ~ (("OUT" | "ERR") ~ "[" ~ ASCII_DIGIT+ ~ "]" | variable_name | word) }
 glob_char           = _{ "*" | "?" | "[" }
 glob_remaining_char = _{ word_char | glob_char | "]" | "{" | "}" | escape_sequence }
 glob_word           =  { (word_char | escape_sequence)* ~ glob_char ~ glob_remaining_char* }
@@ -23,7 +24,7 @@ d_quoted_inner   = _{
     literal_d_quoted
 }
 literal_d_quoted = ${
-    (!("\"" | "\\" | "`" | "$") ~ ANY | "\\" ~ ANY | sp)+
+    (!("\"" | "\\") ~ ANY | "\\" ~ ANY)+
 }
 
 proc_subst_direction_in =  { "<(" }
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 702ba42..961d463 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -51,10 +51,13 @@ pub fn parse_argv(
     pair: Pair<Rule>,
 ) -> Result<Vec<(String, Option<ParsedJob>)>> {
     let mut argv: Vec<(String, Option<ParsedJob>)> = vec![];
+    // The span before, which the next one continues when no blank stands between them.
+    let mut before = None;
 
     for inner_pair in pair.into_inner() {
         match inner_pair.as_rule() {
             Rule::argv0 => {
+                before = inner_pair.clone().into_inner().next();
                 for inner_pair in inner_pair.into_inner() {
                     // span
                     for inner_pair in inner_pair.into_inner() {
@@ -171,6 +174,16 @@ pub fn parse_argv(
                         continue;
                     }
 
+                    let same_word = parser::is_same_word(before.as_ref(), &inner_pair);
+                    before = Some(inner_pair.clone());
+                    if same_word
+                        && let Some((last, None)) = argv.last_mut()
+                        && let Some(part) = parser::get_string(inner_pair.clone())
+                    {
+                        last.push_str(&part);
+                        continue;
+                    }
+
                     for inner_pair in inner_pair.into_inner() {
                         match inner_pair.as_rule() {
                             Rule::subshell => {
-- 
2.43.0


From 82d3275e71e59083ce96998606a88f7bd52fada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 33/72] fix: ~, variables and patterns in an alias are expanded

---
 dsh/src/parser/expansion.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index 821c30a..3519543 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -215,6 +215,20 @@ pub(crate) fn expand_braces(pattern: &str) -> Vec<String> {
     vec![pattern.to_string()]
 }
 
+/// The words of an alias, in which `~` and patterns are expanded as in any command
+fn expand_alias_value(value: &str, current_dir: &PathBuf) -> Result<Vec<String>> {
+    let mut words = Vec::new();
+    match ShellParser::parse(Rule::commands, value) {
+        Ok(pairs) if pairs.as_str() == value => {
+            for pair in pairs {
+                words.extend(expand_alias_tilde(pair, &HashMap::new(), current_dir)?);
+            }
+        }
+        _ => words.push(value.to_string()),
+    }
+    Ok(words)
+}
+
 pub fn expand_alias_tilde(
     pair: Pair<Rule>,
     alias: &HashMap<String, String>,
@@ -305,7 +319,7 @@ pub fn expand_alias_tilde(
                     if i == 0 {
                         if let Some(val) = alias.get(arg) {
                             debug!("alias '{arg}' => '{val}'");
-                            argv.push(val.trim().to_string());
+                            argv.extend(expand_alias_value(val.trim(), _current_dir)?);
                         } else {
                             argv.push(arg.trim().to_string());
                         }
@@ -382,7 +396,7 @@ pub fn expand_alias_tilde(
                                 if i == 0 {
                                     if let Some(val) = alias.get(arg).filter(|_| whole) {
                                         debug!("alias '{arg}' => '{val}'");
-                                        argv.push(val.trim().to_string());
+                                        argv.extend(expand_alias_value(val.trim(), _current_dir)?);
                                     } else {
                                         argv.push(arg.trim().to_string());
                                     }
-- 
2.43.0


From e5bc8f5e97a99d916c5a270ce1c60cb462705075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 34/72] fix: export of an environment variable without a shell
 variable keeps its value

---
 dsh/src/process/process.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsh/src/process/process.rs b/dsh/src/process/process.rs
index e36b940..c7f1689 100644
--- a/dsh/src/process/process.rs
+++ b/dsh/src/process/process.rs
@@ -147,7 +147,7 @@ impl Process {
 
         // 1. Add system vars that are NOT overridden by exported vars
         for (key, val) in &env_guard.system_env_vars {
-            if !env_guard.exported_vars.contains(key) {
+            if !(env_guard.exported_vars.contains(key) && env_guard.variables.contains_key(key)) {
                 // Special handling for TERM: if empty, skip so we can default it later
                 if key == "TERM" && val.is_empty() {
                     continue;
@@ -186,7 +186,9 @@ impl Process {
 
         // Check whether TERM was already copied from system vars or exported shell vars.
         if !term_set {
-            if env_guard.exported_vars.contains("TERM") {
+            if env_guard.exported_vars.contains("TERM")
+                && env_guard.variables.contains_key("TERM")
+            {
                 // Exported but missing/empty TERM is treated as unset and falls back below.
             } else {
                 if let Some(val) = env_guard.system_env_vars.get("TERM")
-- 
2.43.0


From 387dc954c47cf2f62e32087d7b4552dc69d87c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 35/72] fix: cd sets OLDPWD only when the directory changes

---
 dsh/src/proxy/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index bf253e3..60960d8 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -88,17 +88,18 @@ impl ShellProxy for Shell {
     }
 
     fn changepwd(&mut self, path: &str) -> Result<()> {
-        // Save current directory as OLDPWD before changing
-        if let Ok(current) = std::env::current_dir() {
-            let old_pwd = current.to_string_lossy().into_owned();
+        let old_dir = std::env::current_dir();
+        std::env::set_current_dir(path)?;
+
+        // Remember the directory that was left as OLDPWD
+        if let Ok(old_dir) = old_dir {
+            let old_pwd = old_dir.to_string_lossy().into_owned();
             self.environment
                 .write()
                 .variables
                 .insert("OLDPWD".to_string(), old_pwd);
         }
 
-        std::env::set_current_dir(path)?;
-
         // Use the canonical path we actually landed in for history and hooks
         let final_path = if let Ok(canon) = std::env::current_dir() {
             canon.to_string_lossy().into_owned()
-- 
2.43.0


From bdbcfac678c592089b254ad3be82d6d763214bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:09 +0000
Subject: [PATCH 36/72] fix: commands are found on the PATH of child processes,
 as it is now

---
 dsh-builtin/src/add_path.rs      |  7 ++++++-
 dsh/src/environment/paths.rs     | 26 ++++++++++++++++++++++----
 dsh/src/environment/variables.rs | 30 ++++++++++++++++++++++++++++++
 dsh/src/lisp/builtin.rs          |  5 ++---
 dsh/src/proxy/builtin/var.rs     |  2 +-
 dsh/src/proxy/mod.rs             | 22 +++++++++-------------
 dsh/src/shell/parse.rs           |  2 +-
 7 files changed, 71 insertions(+), 23 deletions(-)

diff --git a/dsh-builtin/src/add_path.rs b/dsh-builtin/src/add_path.rs
index 718c8ef..c2066e3 100644
--- a/dsh-builtin/src/add_path.rs
+++ b/dsh-builtin/src/add_path.rs
@@ -9,7 +9,12 @@ pub fn description() -> &'static str {
 /// Built-in add_path command implementation
 /// Adds a directory to the beginning of the PATH environment variable
 /// Supports tilde expansion for home directory references
-pub fn command(_ctx: &Context, args: Vec<String>, proxy: &mut dyn ShellProxy) -> ExitStatus {
+pub fn command(ctx: &Context, args: Vec<String>, proxy: &mut dyn ShellProxy) -> ExitStatus {
+    if args.len() < 2 {
+        ctx.write_stderr("usage: add_path <dir>").ok();
+        return ExitStatus::ExitedWith(1);
+    }
+
     // Expand tilde (~) to home directory path if present
     let path = shellexpand::tilde(&args[1]);
 
diff --git a/dsh/src/environment/paths.rs b/dsh/src/environment/paths.rs
index 9ea127a..a0e023b 100644
--- a/dsh/src/environment/paths.rs
+++ b/dsh/src/environment/paths.rs
@@ -2,6 +2,7 @@
 
 use super::Environment;
 use crate::dirs::search_file;
+use std::os::unix::fs::PermissionsExt;
 use std::path::Path;
 use tracing::debug;
 
@@ -12,7 +13,12 @@ fn is_absolute_command_path(cmd: &str) -> bool {
 
 #[inline]
 fn is_relative_command_path(cmd: &str) -> bool {
-    cmd.starts_with("./")
+    cmd.contains('/')
+}
+
+fn is_executable(path: &Path) -> bool {
+    path.metadata()
+        .is_ok_and(|meta| meta.is_file() && meta.permissions().mode() & 0o111 != 0)
 }
 
 impl Environment {
@@ -52,6 +58,12 @@ impl Environment {
         result
     }
 
+    /// Lookup a command that is about to run: files may have come and gone since it was cached.
+    pub fn lookup_to_run(&self, cmd: &str) -> Option<String> {
+        self.command_cache.write().remove(cmd);
+        self.lookup(cmd)
+    }
+
     /// Lookup command with cache update (mutable version for cache population).
     /// Note: With the new interior mutability, this is functionally the same as lookup.
     pub fn lookup_cached(&mut self, cmd: &str) -> Option<String> {
@@ -61,7 +73,7 @@ impl Environment {
     fn lookup_path_uncached(&self, cmd: &str) -> Option<String> {
         for path in &self.paths {
             let cmd_path = Path::new(path).join(cmd);
-            if cmd_path.exists() && cmd_path.is_file() {
+            if is_executable(&cmd_path) {
                 return cmd_path.to_str().map(|s| s.to_string());
             }
         }
@@ -104,7 +116,7 @@ impl Environment {
             .map(|s| s.to_string())
             .collect();
 
-        if let Some(val) = self.system_env_vars.get("PATH") {
+        if let Some(val) = self.child_var("PATH") {
             paths = val.split(':').map(|s| s.to_string()).collect();
         }
         self.paths = paths;
@@ -115,6 +127,13 @@ impl Environment {
         crate::completion::generator::clear_global_system_commands();
     }
 
+    /// Insert a directory into PATH.
+    pub fn insert_path(&mut self, idx: usize, path: &str) {
+        let mut paths = self.paths.clone();
+        paths.insert(idx.min(paths.len()), path.to_string());
+        self.set_system_env_var("PATH".to_string(), paths.join(":"));
+    }
+
     /// Reload Z_EXCLUDE from the environment.
     pub fn reload_z_exclude(&mut self) {
         self.z_exclude = super::parse_z_exclude_from_vars(&self.system_env_vars);
@@ -130,7 +149,6 @@ impl Environment {
     pub fn prewarm_executables(&self) {
         use std::collections::BTreeSet;
         use std::fs::read_dir;
-        use std::os::unix::fs::PermissionsExt;
 
         let mut names = BTreeSet::new();
         for path in &self.paths {
diff --git a/dsh/src/environment/variables.rs b/dsh/src/environment/variables.rs
index a6d8b6f..d21d815 100644
--- a/dsh/src/environment/variables.rs
+++ b/dsh/src/environment/variables.rs
@@ -55,8 +55,38 @@ impl Environment {
             .unwrap_or_else(|| name.to_string())
     }
 
+    /// Set a shell variable.
+    pub fn set_shell_var(&mut self, key: String, value: String) {
+        self.variables.insert(key.clone(), value);
+        if key == "PATH" && self.exported_vars.contains(&key) {
+            self.reload_path();
+        }
+    }
+
+    /// Pass a shell variable to child processes. Returns whether it is set.
+    pub fn export_shell_var(&mut self, key: &str) -> bool {
+        self.exported_vars.insert(key.to_string());
+        if key == "PATH" {
+            self.reload_path();
+        }
+        self.variables.contains_key(key)
+    }
+
+    /// The value child processes see: an exported shell variable, else the environment variable.
+    pub(super) fn child_var(&self, key: &str) -> Option<&String> {
+        self.variables
+            .get(key)
+            .filter(|_| self.exported_vars.contains(key))
+            .or_else(|| self.system_env_vars.get(key))
+    }
+
     /// Set a process-visible environment variable in the shell snapshot.
     pub fn set_system_env_var(&mut self, key: String, value: String) {
+        if self.exported_vars.contains(&key)
+            && let Some(exported) = self.variables.get_mut(&key)
+        {
+            exported.clone_from(&value);
+        }
         self.system_env_vars.insert(key.clone(), value);
 
         match key.as_str() {
diff --git a/dsh/src/lisp/builtin.rs b/dsh/src/lisp/builtin.rs
index 6c1dac2..8cfa0d9 100644
--- a/dsh/src/lisp/builtin.rs
+++ b/dsh/src/lisp/builtin.rs
@@ -122,7 +122,7 @@ pub fn set_variable(env: Rc<RefCell<Env>>, args: Vec<Value>) -> Result<Value, Ru
 
     let display_val = redact_value_for_log(&key, &val);
     debug!("set variable {} {}", &key, display_val);
-    env.borrow().shell_env.write().variables.insert(key, val);
+    env.borrow().shell_env.write().set_shell_var(key, val);
     Ok(Value::NIL)
 }
 
@@ -187,8 +187,7 @@ pub fn add_path(env: Rc<RefCell<Env>>, args: Vec<Value>) -> Result<Value, Runtim
         env.borrow()
             .shell_env
             .write()
-            .paths
-            .insert(0, path.to_string());
+            .insert_path(0, &path);
     }
     Ok(Value::NIL)
 }
diff --git a/dsh/src/proxy/builtin/var.rs b/dsh/src/proxy/builtin/var.rs
index 1f6d441..ff17348 100644
--- a/dsh/src/proxy/builtin/var.rs
+++ b/dsh/src/proxy/builtin/var.rs
@@ -53,6 +53,6 @@ pub fn execute_read(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Resu
         }
     };
 
-    shell.environment.write().variables.insert(key, output);
+    shell.environment.write().set_shell_var(key, output);
     Ok(())
 }
diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index 60960d8..8bcbdfe 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -107,13 +107,16 @@ impl ShellProxy for Shell {
             path.to_string()
         };
 
+        self.environment
+            .write()
+            .set_system_env_var("PWD".to_string(), final_path.clone());
         self.save_path_history(&final_path);
         self.exec_chpwd_hooks(&final_path)?;
         Ok(())
     }
 
     fn insert_path(&mut self, idx: usize, path: &str) {
-        self.environment.write().paths.insert(idx, path.to_string());
+        self.environment.write().insert_path(idx, path);
     }
 
     fn dispatch(&mut self, ctx: &Context, cmd: &str, argv: Vec<String>) -> Result<()> {
@@ -141,7 +144,7 @@ impl ShellProxy for Shell {
     }
 
     fn set_var(&mut self, key: String, value: String) {
-        self.environment.write().variables.insert(key, value);
+        self.environment.write().set_shell_var(key, value);
     }
 
     fn set_env_var(&mut self, key: String, value: String) {
@@ -287,21 +290,14 @@ impl ShellProxy for Shell {
     }
 
     fn export_var(&mut self, key: &str) -> bool {
-        let mut env = self.environment.write();
-        if env.variables.contains_key(key) {
-            env.exported_vars.insert(key.to_string());
-            true
-        } else {
-            // Also allow exporting non-existent variables, they will be exported if set later.
-            env.exported_vars.insert(key.to_string());
-            false
-        }
+        // Also allow exporting non-existent variables, they will be exported if set later.
+        self.environment.write().export_shell_var(key)
     }
 
     fn set_and_export_var(&mut self, key: String, value: String) {
         let mut env = self.environment.write();
-        env.variables.insert(key.clone(), value);
-        env.exported_vars.insert(key);
+        env.set_shell_var(key.clone(), value);
+        env.export_shell_var(&key);
     }
 
     fn get_current_dir(&self) -> Result<std::path::PathBuf> {
diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 961d463..8687b9d 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -412,7 +412,7 @@ pub fn parse_command(
         let builtin = process::BuiltinProcess::new(cmd.to_string(), cmd_fn, argv);
         current_job.set_process(JobProcess::Builtin(builtin));
     } else {
-        let cmd_lookup = shell.environment.read().lookup(cmd);
+        let cmd_lookup = shell.environment.read().lookup_to_run(cmd);
         if let Some(cmd) = cmd_lookup {
             let process = process::Process::new(cmd, argv);
             current_job.set_process(JobProcess::Command(process));
-- 
2.43.0


From 4406354023a185633b1b49a98ddefa641620de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 37/72] fix: read without a name is an error, and leaves its
 input open

---
 dsh/src/proxy/builtin/var.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dsh/src/proxy/builtin/var.rs b/dsh/src/proxy/builtin/var.rs
index ff17348..c85c2e9 100644
--- a/dsh/src/proxy/builtin/var.rs
+++ b/dsh/src/proxy/builtin/var.rs
@@ -5,6 +5,7 @@ use anyhow::{Context as _, Result};
 use dsh_types::Context;
 use std::fs::File;
 use std::io::prelude::*;
+use std::mem::ManuallyDrop;
 use std::os::unix::io::FromRawFd;
 use tabled::{Table, Tabled};
 
@@ -37,13 +38,15 @@ pub fn execute_var(shell: &mut Shell, ctx: &Context, _argv: Vec<String>) -> Resu
 ///
 /// Reads input from stdin and assigns it to a variable.
 pub fn execute_read(shell: &mut Shell, ctx: &Context, argv: Vec<String>) -> Result<()> {
-    let mut stdin = Vec::new();
-    unsafe {
-        File::from_raw_fd(ctx.infile)
-            .read_to_end(&mut stdin)
-            .context("read: failed to read input")?;
+    let Some(key) = argv.get(1).cloned() else {
+        return Err(anyhow::anyhow!("usage: read <variable>"));
     };
-    let key = argv[1].clone();
+    let mut stdin = Vec::new();
+    // The file belongs to the job, which closes it.
+    let mut infile = ManuallyDrop::new(unsafe { File::from_raw_fd(ctx.infile) });
+    infile
+        .read_to_end(&mut stdin)
+        .context("read: failed to read input")?;
     let output = match std::str::from_utf8(&stdin) {
         Ok(s) => s.trim_end_matches('\n').to_owned(),
         Err(err) => {
-- 
2.43.0


From 03177b1a8736ff2ec8f181c7654a39911621a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 38/72] fix: a Lisp string holds any text, and hooks get the
 command as it is

---
 dsh/src/lisp/builtin.rs     |  5 +---
 dsh/src/lisp/mod.rs         |  1 +
 dsh/src/lisp/parser.rs      | 60 ++++++++++++++++++++++---------------
 dsh/src/parser/expansion.rs |  8 ++---
 dsh/src/process/process.rs  |  3 +-
 dsh/src/proxy/mod.rs        |  2 +-
 dsh/src/shell/hooks.rs      | 21 ++++++-------
 7 files changed, 55 insertions(+), 45 deletions(-)

diff --git a/dsh/src/lisp/builtin.rs b/dsh/src/lisp/builtin.rs
index 8cfa0d9..c9b7645 100644
--- a/dsh/src/lisp/builtin.rs
+++ b/dsh/src/lisp/builtin.rs
@@ -184,10 +184,7 @@ pub fn add_path(env: Rc<RefCell<Env>>, args: Vec<Value>) -> Result<Value, Runtim
     for arg in args {
         let path = arg.to_string();
         let path = shellexpand::tilde(path.as_str());
-        env.borrow()
-            .shell_env
-            .write()
-            .insert_path(0, &path);
+        env.borrow().shell_env.write().insert_path(0, &path);
     }
     Ok(Value::NIL)
 }
diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index 9847db1..fb5c73c 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -7,6 +7,7 @@ pub use crate::lisp::model::Value;
 pub use crate::lisp::model::{Env, Symbol};
 use crate::lisp::model::{List, RuntimeError};
 use crate::lisp::parser::parse;
+pub(crate) use crate::lisp::parser::string_literal;
 use crate::secrets::SecretManagerSnapshot;
 use crate::suggestion::InputPreferences;
 use anyhow::Context;
diff --git a/dsh/src/lisp/parser.rs b/dsh/src/lisp/parser.rs
index cb3c3e7..3eb0ace 100644
--- a/dsh/src/lisp/parser.rs
+++ b/dsh/src/lisp/parser.rs
@@ -213,14 +213,14 @@ fn parse_true(code: &str, index: usize) -> ParseResult {
 
 fn parse_number(code: &str, index: usize) -> ParseResult {
     let (front_last_index, front_last_char) = consume_while(code, index, |(index, ch)| {
-        (index == 0 && ch == '-') || ch.is_numeric()
+        (index == 0 && ch == '-') || ch.is_ascii_digit()
     })?;
 
-    if front_last_char.is_numeric() {
+    if front_last_char.is_ascii_digit() {
         let front_last_index = front_last_index + 1;
 
         let back_end = consume_while(code, front_last_index, |(index, ch)| {
-            (index == 0 && ch == '.') || ch.is_numeric()
+            (index == 0 && ch == '.') || ch.is_ascii_digit()
         });
 
         if let Some((back_last_index, _)) = back_end {
@@ -265,33 +265,45 @@ fn parse_number(code: &str, index: usize) -> ParseResult {
 }
 
 fn parse_string(code: &str, index: usize) -> ParseResult {
-    let (last_index, _) = consume_while(code, index, |(index, ch)| {
-        (index == 0 && ch == '"') || (index > 0 && ch != '"')
-    })?;
-
-    if last_index > index {
-        if code.as_bytes().get(last_index + 1) == Some(&b'"') {
-            Some(Ok(ParsedAndIndex {
-                parsed: ParseTree::Atom(Value::String(
-                    code.get(index + 1..last_index + 1).unwrap_or("").to_owned(),
-                )),
-                index: last_index + 2,
-            }))
-        } else {
-            Some(Err(ParseError {
-                msg: format!("Unclosed string at index {last_index}"),
-            }))
+    let start = consume(code, index, "\"")?;
+    let mut text = String::new();
+    let mut chars = code.get(start..).unwrap_or("").char_indices();
+
+    while let Some((i, ch)) = chars.next() {
+        match ch {
+            '"' => {
+                return Some(Ok(ParsedAndIndex {
+                    parsed: ParseTree::Atom(Value::String(text)),
+                    index: start + i + 1,
+                }));
+            }
+            '\\' => match chars.next() {
+                Some((_, escaped @ ('"' | '\\'))) => text.push(escaped),
+                Some((_, other)) => {
+                    text.push(ch);
+                    text.push(other);
+                }
+                None => text.push(ch),
+            },
+            _ => text.push(ch),
         }
-    } else {
-        None
     }
+
+    Some(Err(ParseError {
+        msg: format!("Unclosed string at index {index}"),
+    }))
+}
+
+/// Writes a text as a string literal, which reads back as this text
+pub fn string_literal(text: &str) -> String {
+    format!("\"{}\"", text.replace('\\', "\\\\").replace('"', "\\\""))
 }
 
 fn parse_symbol(code: &str, index: usize) -> ParseResult {
-    let (last_index, _) = consume_while(code, index, |(index, ch)| {
+    let (last_index, last_char) = consume_while(code, index, |(index, ch)| {
         (index == 0 && is_symbol_start(ch)) || (index > 0 && is_symbolic(ch))
     })?;
-    let last_index = last_index + 1;
+    let last_index = last_index + last_char.len_utf8();
 
     if last_index > index {
         Some(Ok(ParsedAndIndex {
@@ -332,7 +344,7 @@ fn consume_whitespace_and_comments(code: &str, index: usize) -> usize {
 
         ch.is_whitespace() || ch == ';' || semicolons >= 2
     })
-    .map(|(index, _)| index + 1)
+    .map(|(index, ch)| index + ch.len_utf8())
     .unwrap_or(index)
 }
 
diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index 3519543..95b0c2b 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -388,7 +388,9 @@ pub fn expand_alias_tilde(
                     }
                     Rule::argv0 => {
                         before = inner_pair.clone().into_inner().next();
-                        let next = parts.peek().and_then(|args| args.clone().into_inner().next());
+                        let next = parts
+                            .peek()
+                            .and_then(|args| args.clone().into_inner().next());
                         let whole = !next.is_some_and(|next| is_same_word(before.as_ref(), &next));
                         for inner_pair in inner_pair.into_inner() {
                             let v = expand_alias_tilde(inner_pair, alias, _current_dir)?;
@@ -417,9 +419,7 @@ pub fn expand_alias_tilde(
                         }
                     }
                     // The operators of the commands in a substitution stay where they are.
-                    Rule::command_list_sep
-                    | Rule::capture_suffix
-                    | Rule::struct_pipe_command => {
+                    Rule::command_list_sep | Rule::capture_suffix | Rule::struct_pipe_command => {
                         argv.push(inner_pair.as_str().to_string());
                     }
                     Rule::commands
diff --git a/dsh/src/process/process.rs b/dsh/src/process/process.rs
index c7f1689..43e584b 100644
--- a/dsh/src/process/process.rs
+++ b/dsh/src/process/process.rs
@@ -186,8 +186,7 @@ impl Process {
 
         // Check whether TERM was already copied from system vars or exported shell vars.
         if !term_set {
-            if env_guard.exported_vars.contains("TERM")
-                && env_guard.variables.contains_key("TERM")
+            if env_guard.exported_vars.contains("TERM") && env_guard.variables.contains_key("TERM")
             {
                 // Exported but missing/empty TERM is treated as unset and falls back below.
             } else {
diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index 8bcbdfe..9e15c73 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -245,7 +245,7 @@ impl ShellProxy for Shell {
 
         let args_str = args
             .iter()
-            .map(|a| format!("\"{}\"", a.replace("\"", "\\\"")))
+            .map(|a| crate::lisp::string_literal(a))
             .collect::<Vec<_>>()
             .join(" ");
 
diff --git a/dsh/src/shell/hooks.rs b/dsh/src/shell/hooks.rs
index 7f59d1a..cd445dd 100644
--- a/dsh/src/shell/hooks.rs
+++ b/dsh/src/shell/hooks.rs
@@ -1,5 +1,6 @@
 use crate::direnv;
 use crate::environment::Environment;
+use crate::lisp::string_literal;
 use crate::shell::Shell;
 use anyhow::Result;
 use parking_lot::RwLock;
@@ -48,8 +49,8 @@ pub fn exec_chpwd_hooks(shell: &mut Shell, pwd: &str) -> Result<()> {
             debug!("Entered project: {}", name);
 
             let lisp_code = format!(
-                "(when (bound? '*on-project-switch-hooks*) (map (lambda (hook) (hook \"{}\")) *on-project-switch-hooks*))",
-                name.replace("\"", "\\\"")
+                "(when (bound? '*on-project-switch-hooks*) (map (lambda (hook) (hook {})) *on-project-switch-hooks*))",
+                string_literal(name)
             );
             if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
                 debug!("Failed to execute on-project-switch-hooks: {}", e);
@@ -102,8 +103,8 @@ pub fn exec_pre_exec_hooks(shell: &Shell, command: &str) -> Result<()> {
     }
 
     let lisp_code = format!(
-        "(map (lambda (hook) (hook \"{}\")) *pre-exec-hooks*)",
-        command.replace("\"", "\\\"")
+        "(map (lambda (hook) (hook {})) *pre-exec-hooks*)",
+        string_literal(command)
     );
 
     if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
@@ -124,8 +125,8 @@ pub fn exec_post_exec_hooks(shell: &Shell, command: &str, exit_code: i32) -> Res
     }
 
     let lisp_code = format!(
-        "(map (lambda (hook) (hook \"{}\" {})) *post-exec-hooks*)",
-        command.replace("\"", "\\\""),
+        "(map (lambda (hook) (hook {} {})) *post-exec-hooks*)",
+        string_literal(command),
         exit_code
     );
 
@@ -149,9 +150,9 @@ pub fn exec_command_not_found_hooks(shell: &Shell, command: &str) -> bool {
     }
 
     let lisp_code = format!(
-        "(let ((results (map (lambda (hook) (hook \"{}\")) *command-not-found-hooks*)))
+        "(let ((results (map (lambda (hook) (hook {})) *command-not-found-hooks*)))
           (filter (lambda (r) r) results))",
-        command.replace("\"", "\\\"")
+        string_literal(command)
     );
 
     match shell.lisp_engine.borrow().run(&lisp_code) {
@@ -181,8 +182,8 @@ pub fn exec_completion_hooks(shell: &Shell, input: &str, cursor: usize) -> Resul
     }
 
     let lisp_code = format!(
-        "(map (lambda (hook) (hook \"{}\" {})) *completion-hooks*)",
-        input.replace("\"", "\\\""),
+        "(map (lambda (hook) (hook {} {})) *completion-hooks*)",
+        string_literal(input),
         cursor
     );
 
-- 
2.43.0


From 5159a90af07a9b9611395740523d7f2878b329ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 39/72] fix: a pattern for what is in a folder does not find
 the folder itself

---
 dsh/src/parser/expansion.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dsh/src/parser/expansion.rs b/dsh/src/parser/expansion.rs
index 95b0c2b..7c16f96 100644
--- a/dsh/src/parser/expansion.rs
+++ b/dsh/src/parser/expansion.rs
@@ -5,7 +5,7 @@ use parking_lot::RwLock;
 use pest::Parser;
 use pest::iterators::Pair;
 use std::collections::HashMap;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::sync::Arc;
 use tracing::debug;
 
@@ -115,6 +115,19 @@ fn variable_len(text: &str) -> usize {
     name
 }
 
+/// Whether a path has a name for every level of the pattern: the folder in which the search
+/// starts is not one of the names in it.
+fn is_as_deep(path: &Path, root: &Path, pattern: &str) -> bool {
+    let levels = |path: &Path| {
+        path.components()
+            .filter(|part| *part != Component::CurDir)
+            .count()
+    };
+    path != root
+        && (pattern.contains("**")
+            || levels(path.strip_prefix(root).unwrap_or(path)) >= levels(Path::new(pattern)))
+}
+
 fn find_glob_root(path: &str) -> (String, String) {
     let mut root = Vec::new();
     let mut glob = Vec::new();
@@ -260,7 +273,7 @@ pub fn expand_alias_tilde(
                             let mut paths: Vec<_> = builder
                                 .into_iter()
                                 .flatten()
-                                .filter(|path| *path != effective_root)
+                                .filter(|path| is_as_deep(path, &effective_root, &pattern))
                                 .collect();
                             paths.sort();
                             if paths.is_empty() {
-- 
2.43.0


From 92a571dcd4a840729c9c1dcf1c709f4b156ce03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 40/72] fix: the AI edit tool makes folders only after the
 user's yes

---
 dsh-builtin/src/chatgpt/tool/edit.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dsh-builtin/src/chatgpt/tool/edit.rs b/dsh-builtin/src/chatgpt/tool/edit.rs
index 45e7669..11a821d 100644
--- a/dsh-builtin/src/chatgpt/tool/edit.rs
+++ b/dsh-builtin/src/chatgpt/tool/edit.rs
@@ -62,13 +62,6 @@ pub(crate) fn run(arguments: &str, proxy: &mut dyn ShellProxy) -> Result<String,
         ));
     }
 
-    if let Some(parent) = normalized_abs_path.parent()
-        && !parent.as_os_str().is_empty()
-    {
-        fs::create_dir_all(parent)
-            .map_err(|err| format!("chat: failed to create parent directories: {err}"))?;
-    }
-
     // Safety Guard: Request confirmation from user
     let confirm_msg = format!("AI wants to write to file: `{}`. \r\nProceed?", path_value);
     if !proxy
@@ -78,6 +71,13 @@ pub(crate) fn run(arguments: &str, proxy: &mut dyn ShellProxy) -> Result<String,
         return Ok("File modification cancelled by user.".to_string());
     }
 
+    if let Some(parent) = normalized_abs_path.parent()
+        && !parent.as_os_str().is_empty()
+    {
+        fs::create_dir_all(parent)
+            .map_err(|err| format!("chat: failed to create parent directories: {err}"))?;
+    }
+
     fs::write(&normalized_abs_path, contents)
         .map_err(|err| format!("chat: failed to write file `{path_value}`: {err}"))?;
 
-- 
2.43.0


From 43c04e1c56ecd9ce7bb1187f86394adf7eecb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 41/72] fix: the AI file tools do not follow a link to a place
 outside that does not exist yet

---
 dsh-builtin/src/chatgpt/tool/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsh-builtin/src/chatgpt/tool/mod.rs b/dsh-builtin/src/chatgpt/tool/mod.rs
index 6cefe92..055896a 100644
--- a/dsh-builtin/src/chatgpt/tool/mod.rs
+++ b/dsh-builtin/src/chatgpt/tool/mod.rs
@@ -143,6 +143,14 @@ fn resolve_with_existing_ancestor(path: &Path) -> Result<PathBuf, String> {
             });
         }
 
+        if current.is_symlink() {
+            // Whoever creates this path creates what the link points to
+            return Err(format!(
+                "chat: path `{}` is a link to a place that does not exist",
+                current.display()
+            ));
+        }
+
         let name = current.file_name().ok_or_else(|| {
             format!(
                 "chat: path `{}` has no existing ancestor",
-- 
2.43.0


From b12e6ade1460e710382102904f6ff3a15737b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 42/72] fix: the AI edit tool can create a file

---
 dsh-builtin/src/chatgpt/tool/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsh-builtin/src/chatgpt/tool/mod.rs b/dsh-builtin/src/chatgpt/tool/mod.rs
index 055896a..ff5809e 100644
--- a/dsh-builtin/src/chatgpt/tool/mod.rs
+++ b/dsh-builtin/src/chatgpt/tool/mod.rs
@@ -157,7 +157,12 @@ fn resolve_with_existing_ancestor(path: &Path) -> Result<PathBuf, String> {
                 path.to_string_lossy()
             )
         })?;
-        suffix = PathBuf::from(name).join(suffix);
+        suffix = if suffix.as_os_str().is_empty() {
+            // Joining an empty path would end it in a slash: a folder, not a file
+            PathBuf::from(name)
+        } else {
+            PathBuf::from(name).join(suffix)
+        };
 
         if !current.pop() {
             return Err(format!(
-- 
2.43.0


From ee95ce5f65f18c5f932d8c70e75db5939098272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 43/72] fix: one invalid line of .gitignore does not open
 everything to the AI tools

---
 dsh-builtin/src/chatgpt/tool/gitignore.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsh-builtin/src/chatgpt/tool/gitignore.rs b/dsh-builtin/src/chatgpt/tool/gitignore.rs
index 3ca8a2c..f92d499 100644
--- a/dsh-builtin/src/chatgpt/tool/gitignore.rs
+++ b/dsh-builtin/src/chatgpt/tool/gitignore.rs
@@ -14,10 +14,9 @@ pub fn is_gitignored(path: &Path, base_dir: &Path) -> bool {
 
     let mut builder = GitignoreBuilder::new(base_dir);
 
-    // Add the .gitignore file
-    if builder.add(&gitignore_path).is_some() {
-        // Error adding gitignore, allow access as fallback
-        return false;
+    // Add the .gitignore file; a line that is not valid does not make the others void
+    if let Some(err) = builder.add(&gitignore_path) {
+        tracing::debug!("{}: {err}", gitignore_path.display());
     }
 
     match builder.build() {
-- 
2.43.0


From 8f92c89a25a6ff8e24d9fc84158d6c7d55f89012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 44/72] fix: the AI search tool skips what .gitignore excludes
 everywhere, and finds skills

---
 dsh-builtin/src/chatgpt/tool/search.rs | 35 +++++++++++++++++---------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/dsh-builtin/src/chatgpt/tool/search.rs b/dsh-builtin/src/chatgpt/tool/search.rs
index 5f17995..fc88f3b 100644
--- a/dsh-builtin/src/chatgpt/tool/search.rs
+++ b/dsh-builtin/src/chatgpt/tool/search.rs
@@ -90,6 +90,10 @@ pub(crate) fn run(arguments: &str, _proxy: &mut dyn ShellProxy) -> Result<String
                     continue;
                 }
 
+                if super::gitignore::is_gitignored(entry.path(), &normalized_current_dir) {
+                    continue;
+                }
+
                 // Check if file matches glob
                 // We match against the relative path from the search root
                 if let Ok(_rel_path) = entry.path().strip_prefix(&normalized_abs_path) {
@@ -103,9 +107,11 @@ pub(crate) fn run(arguments: &str, _proxy: &mut dyn ShellProxy) -> Result<String
                             .unwrap_or(false)
                     {
                         // Get path relative to CWD for output
-                        if let Ok(cwd_rel) = entry.path().strip_prefix(&normalized_current_dir) {
-                            results.push(cwd_rel.display().to_string());
-                        }
+                        let shown = entry
+                            .path()
+                            .strip_prefix(&normalized_current_dir)
+                            .unwrap_or(entry.path());
+                        results.push(shown.display().to_string());
                     }
                 }
             }
@@ -127,6 +133,10 @@ pub(crate) fn run(arguments: &str, _proxy: &mut dyn ShellProxy) -> Result<String
                     continue;
                 }
 
+                if super::gitignore::is_gitignored(entry.path(), &normalized_current_dir) {
+                    continue;
+                }
+
                 // Skip binary files (heuristic)
                 // For now, just try to read as text
                 if let Ok(file) = fs::File::open(entry.path()) {
@@ -135,15 +145,16 @@ pub(crate) fn run(arguments: &str, _proxy: &mut dyn ShellProxy) -> Result<String
                         if let Ok(line_content) = line
                             && line_content.contains(query)
                         {
-                            if let Ok(cwd_rel) = entry.path().strip_prefix(&normalized_current_dir)
-                            {
-                                results.push(format!(
-                                    "{}:{}: {}",
-                                    cwd_rel.display(),
-                                    line_idx + 1,
-                                    line_content.trim()
-                                ));
-                            }
+                            let shown = entry
+                                .path()
+                                .strip_prefix(&normalized_current_dir)
+                                .unwrap_or(entry.path());
+                            results.push(format!(
+                                "{}:{}: {}",
+                                shown.display(),
+                                line_idx + 1,
+                                line_content.trim()
+                            ));
                             break; // Only one match per file for now to avoid spam
                         }
                     }
-- 
2.43.0


From 02eab3561342efe257f38dbab9c3e08668c8356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:41 +0000
Subject: [PATCH 45/72] fix: a program text in a cluster of flags is no way
 round the AI allowlist

---
 dsh-builtin/src/chatgpt/tool/execute.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dsh-builtin/src/chatgpt/tool/execute.rs b/dsh-builtin/src/chatgpt/tool/execute.rs
index dcb47f7..eb41f56 100644
--- a/dsh-builtin/src/chatgpt/tool/execute.rs
+++ b/dsh-builtin/src/chatgpt/tool/execute.rs
@@ -164,15 +164,23 @@ fn is_path_qualified(program: &str) -> bool {
     program.contains('/') || program.contains('\\') || Path::new(program).is_absolute()
 }
 
+/// Whether one of the flags is given, alone or behind flags that take no value (`-ec`, `-ne`)
+fn has_short_flag(args: &[String], flags: &[char]) -> bool {
+    const PLAIN: &str = "BEIOSVabdefhiklmnopqrstuvwx";
+    args.iter().any(|arg| {
+        arg.strip_prefix('-').is_some_and(|letters| {
+            letters
+                .trim_start_matches(|c| PLAIN.contains(c) && !flags.contains(&c))
+                .starts_with(flags)
+        })
+    })
+}
+
 fn invokes_string_eval(program: &str, args: &[String]) -> bool {
     let name = program_name(program);
     match name.as_str() {
-        "sh" | "bash" | "zsh" | "fish" | "ksh" => {
-            args.iter().any(|arg| arg == "-c" || arg == "-lc")
-        }
-        "python" | "python3" | "perl" | "ruby" | "node" => {
-            args.iter().any(|arg| arg == "-c" || arg == "-e")
-        }
+        "sh" | "bash" | "zsh" | "fish" | "ksh" => has_short_flag(args, &['c']),
+        "python" | "python3" | "perl" | "ruby" | "node" => has_short_flag(args, &['c', 'e']),
         "pwsh" | "powershell" => args
             .iter()
             .any(|arg| arg.eq_ignore_ascii_case("-c") || arg.eq_ignore_ascii_case("-command")),
-- 
2.43.0


From 01a896f9715027fb8febfd41bccb55085ad1b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 46/72] Guarded entry points for verification harnesses
 (feature verif)

---
 dsh/Cargo.toml      |  2 ++
 dsh/src/repl/mod.rs | 30 ++++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/dsh/Cargo.toml b/dsh/Cargo.toml
index 771213b..e905602 100644
--- a/dsh/Cargo.toml
+++ b/dsh/Cargo.toml
@@ -23,6 +23,8 @@ i16 = []
 i8 = []
 f64 = []
 f32 = []
+# Entry points for verification harnesses; never on in a normal build.
+verif = []
 
 
 [dependencies]
diff --git a/dsh/src/repl/mod.rs b/dsh/src/repl/mod.rs
index ee3f56d..697f533 100644
--- a/dsh/src/repl/mod.rs
+++ b/dsh/src/repl/mod.rs
@@ -1324,6 +1324,36 @@ impl<'a> Repl<'a> {
     }
 }
 
+/// Entry points for verification harnesses: they feed events as the event loop does.
+#[cfg(feature = "verif")]
+impl Repl<'_> {
+    pub fn verif_terminal(&mut self, tmode: Termios, columns: usize) {
+        self.tmode = Some(tmode);
+        self.columns = columns;
+    }
+
+    pub async fn verif_event(&mut self, event: crossterm::event::Event) -> Result<()> {
+        match self.handle_event(ShellEvent::Input(event)).await? {
+            ReplControlFlow::ExecuteCurrentInput => {
+                key_handlers::execution::handle_execute(self).await
+            }
+            _ => Ok(()),
+        }
+    }
+
+    pub fn verif_input(&self) -> &Input {
+        &self.input
+    }
+
+    pub fn verif_pending(&self) -> &str {
+        &self.multiline_buffer
+    }
+
+    pub fn verif_take_executed(&mut self) -> String {
+        std::mem::take(&mut self.last_command_string)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From e0abeaecf5bb84f3956ef404284a98e776c4ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 47/72] fix: history search follows what is typed after an
 earlier search

---
 dsh/src/repl/key_handlers/navigation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsh/src/repl/key_handlers/navigation.rs b/dsh/src/repl/key_handlers/navigation.rs
index 013f24a..2cf06af 100644
--- a/dsh/src/repl/key_handlers/navigation.rs
+++ b/dsh/src/repl/key_handlers/navigation.rs
@@ -37,7 +37,8 @@ pub(crate) fn handle_history_previous(repl: &mut Repl<'_>) {
 
             // If we are at the start of history navigation (bottom), initialize search
             // Use at_end() to check if we are at the "newest" position
-            if history.at_end() && history.search_word.is_none() && !input_str.is_empty() {
+            // (what is on the line there is what the user typed, not an entry we showed)
+            if history.at_end() && !input_str.is_empty() {
                 history.search_word = Some(input_str);
             }
 
-- 
2.43.0


From 15873e44a2a995e90be9f05ef8eda9004cf8f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 48/72] fix: an accepted suggestion reaches the history without
 its secrets

---
 dsh/src/repl/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dsh/src/repl/mod.rs b/dsh/src/repl/mod.rs
index 697f533..cb13b10 100644
--- a/dsh/src/repl/mod.rs
+++ b/dsh/src/repl/mod.rs
@@ -592,9 +592,18 @@ impl<'a> Repl<'a> {
     }
 
     fn learn_suggestion(&self, suggestion: &str) {
+        let Some(suggestion) = self
+            .shell
+            .environment
+            .read()
+            .secret_manager
+            .process_for_history(suggestion)
+        else {
+            return;
+        };
         if let Some(history) = &self.shell.cmd_history
             && let Some(mut history) = history.try_lock()
-            && let Err(e) = history.write_history(suggestion)
+            && let Err(e) = history.write_history(&suggestion)
         {
             warn!("Failed to learn suggestion: {}", e);
         }
-- 
2.43.0


From a55a9438b3e824d481aafa7aec78d2f61420cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 49/72] fix: accepting a ghost completion keeps what was typed

---
 dsh/src/repl/input_analysis.rs | 11 +++++++----
 dsh/src/repl/render.rs         |  2 ++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/dsh/src/repl/input_analysis.rs b/dsh/src/repl/input_analysis.rs
index 7393122..ff57801 100644
--- a/dsh/src/repl/input_analysis.rs
+++ b/dsh/src/repl/input_analysis.rs
@@ -60,10 +60,13 @@ pub(crate) fn analyze_input(
                         // Completion logic for command names
                         if current && completion.is_none() => {
                             if let Some(file) = repl.shell.environment.read().search_prefix(word) {
-                                if file.len() >= input.len() && file.starts_with(input) {
-                                    completion = Some(file[input.len()..].to_string());
-                                }
-                                completion_full = Some(file);
+                                completion = file.strip_prefix(word).map(str::to_string);
+                                completion_full = Some(super::completion::replace_range(
+                                    input,
+                                    span.start(),
+                                    span.end(),
+                                    &file,
+                                ));
                                 break;
                             } else if let Some(path_completion) =
                                 super::completion::complete_path_for_span(
diff --git a/dsh/src/repl/render.rs b/dsh/src/repl/render.rs
index cb18938..cf4961a 100644
--- a/dsh/src/repl/render.rs
+++ b/dsh/src/repl/render.rs
@@ -231,6 +231,8 @@ pub fn print_input(
         repl.last_analyzed_input.clear();
         repl.last_analysis_result = None;
     } else {
+        // A completion of an earlier input must not outlive it
+        repl.input.completion = None;
         // Safe to use &mut repl now because input_string is owned
         completion = repl.get_completion_from_history(&input_string);
 
-- 
2.43.0


From 0334e01e1220430ddb0474e6fc8e0b47ef6485ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 50/72] fix: an abbreviation expanded on Enter is drawn without
 panicking

---
 dsh/src/input/editor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsh/src/input/editor.rs b/dsh/src/input/editor.rs
index b18d692..8a77264 100644
--- a/dsh/src/input/editor.rs
+++ b/dsh/src/input/editor.rs
@@ -552,6 +552,8 @@ impl Input {
                 for ch in expansion.chars() {
                     self.insert(ch);
                 }
+                // The ranges belong to the text before
+                self.color_ranges = None;
 
                 true
             } else {
-- 
2.43.0


From 73d1674b8b8d70497a55e303bf00a88132e6838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:35 +0000
Subject: [PATCH 51/72] fix: an interrupted line leaves no ghost completion
 behind

---
 dsh/src/input/editor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsh/src/input/editor.rs b/dsh/src/input/editor.rs
index 8a77264..1ca1a92 100644
--- a/dsh/src/input/editor.rs
+++ b/dsh/src/input/editor.rs
@@ -74,6 +74,7 @@ impl Input {
         self.indices.clear();
         self.cached_display_width = 0;
         self.color_ranges = None;
+        self.completion = None;
     }
 
     pub fn move_to_begin(&mut self) {
-- 
2.43.0


From 127466892d7eb5c20b25dcdbd444f7bff9f3de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 52/72] fix: a command goes on over several lines

---
 dsh/src/parser/ast.rs | 5 ++++-
 dsh/src/shell.pest    | 9 +++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/dsh/src/parser/ast.rs b/dsh/src/parser/ast.rs
index 7928810..cf1a5d0 100644
--- a/dsh/src/parser/ast.rs
+++ b/dsh/src/parser/ast.rs
@@ -43,7 +43,10 @@ pub fn get_string(pair: Pair<Rule>) -> Option<String> {
             while let Some(c) = chars.next() {
                 if c == '\\' {
                     if let Some(next) = chars.next() {
-                        res.push(next);
+                        // A backslash before a line end joins the lines
+                        if next != '\n' {
+                            res.push(next);
+                        }
                     } else {
                         // Trailing backslash? Treat as literal or ignore.
                         // Shells usually treat trailing backslash as line continuation,
diff --git a/dsh/src/shell.pest b/dsh/src/shell.pest
index 4764ede..26b3eb5 100644
--- a/dsh/src/shell.pest
+++ b/dsh/src/shell.pest
@@ -1,4 +1,5 @@
-sp              = _{ " " | "\t" | "\r" }
+sp              = _{ " " | "\t" | "\r" | "\\\n" }
+nl              = _{ sp | "\n" }
 word_char       = _{
     !("|" | "&" | ";" | " " | "\t" | "\r" | "\n" | "`" | "{" | "}" | "<" | ">" | "(" | ")" | "$" | "\"" | "'" | "*" | "?" | "[" | "]" | "\\") ~ ANY
 }
@@ -58,17 +59,17 @@ background_op  = { !("&&") ~ "&" }
 capture_op     = { "|>" }
 struct_pipe_op = { "|:" }
 pipeline_op    = { !("|>" | "|:") ~ "|" }
-sequential_op  = { ";" }
+sequential_op  = { ";" | "\n" }
 and_op         = { "&&" }
 or_op          = { "||" }
 
 command_list_sep    =  { sequential_op | and_op | or_op }
 simple_command      =  { sp* ~ argv0 ~ args* }
 simple_command_bg   =  { simple_command ~ sp* ~ background_op }
-pipe_command        =  { pipeline_op ~ sp* ~ (simple_command_bg | simple_command) ~ sp* }
+pipe_command        =  { pipeline_op ~ nl* ~ (simple_command_bg | simple_command) ~ sp* }
 struct_pipe_command =  { struct_pipe_op ~ sp* ~ lisp_expr ~ sp* }
 lisp_expr           =  { "(" ~ lisp_inner* ~ ")" }
 lisp_inner          = _{ !(")" | "(") ~ ANY | lisp_expr }
 capture_suffix      =  { sp* ~ capture_op ~ sp* }
 command             =  { (sp* ~ simple_command_bg | simple_command)* ~ sp* ~ ((struct_pipe_command | pipe_command | simple_command_bg | simple_command) ~ sp*)* ~ capture_suffix? }
-commands            =  { (sp* ~ command) ~ (command_list_sep ~ sp* ~ command)* }
+commands            =  { (nl* ~ command) ~ (command_list_sep ~ nl* ~ command)* }
-- 
2.43.0


From 87d8f5ce9bd7697f49febc84a9bcd0cb55a53df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 53/72] fix: dmv matches names with characters of several bytes
 and character classes

---
 dsh-builtin/src/dmv.rs | 57 +++++++++++-------------------------------
 1 file changed, 14 insertions(+), 43 deletions(-)

diff --git a/dsh-builtin/src/dmv.rs b/dsh-builtin/src/dmv.rs
index 4ab41d5..c301fc9 100644
--- a/dsh-builtin/src/dmv.rs
+++ b/dsh-builtin/src/dmv.rs
@@ -375,52 +375,23 @@ fn pattern_match(text: &str, pattern: &str) -> bool {
 }
 
 fn pattern_match_impl(text: &str, pattern: &str) -> bool {
-    let mut text_chars = text.chars();
-    let mut pattern_chars = pattern.chars().peekable();
-    let mut text_pos = 0;
-
-    while let Some(&p) = pattern_chars.peek() {
-        match p {
-            '*' => {
-                pattern_chars.next();
-                if pattern_chars.peek().is_none() {
-                    return true; // * at end matches everything
-                }
-
-                // Try matching at each remaining position in text
-                let remaining_text = &text[text_pos..];
-                let remaining_pattern: String = pattern_chars.collect();
+    let text: Vec<char> = text.chars().collect();
+    let pattern: Vec<char> = pattern.chars().collect();
+    match_chars(&text, &pattern)
+}
 
-                for i in 0..=remaining_text.len() {
-                    if pattern_match_impl(&remaining_text[i..], &remaining_pattern) {
-                        return true;
-                    }
-                }
-                return false;
-            }
-            '?' => {
-                pattern_chars.next();
-                if let Some(ch) = text_chars.next() {
-                    text_pos += ch.len_utf8();
-                } else {
-                    return false;
-                }
-            }
-            c => {
-                pattern_chars.next();
-                if let Some(text_ch) = text_chars.next() {
-                    if text_ch != c {
-                        return false;
-                    }
-                    text_pos += text_ch.len_utf8();
-                } else {
-                    return false;
-                }
-            }
+fn match_chars(text: &[char], pattern: &[char]) -> bool {
+    match pattern.first() {
+        None => text.is_empty(),
+        Some('*') => (0..=text.len()).any(|i| match_chars(&text[i..], &pattern[1..])),
+        // What a character class admits is decided by the regular expression
+        Some('[') => {
+            let end = pattern.iter().position(|&c| c == ']');
+            !text.is_empty() && match_chars(&text[1..], &pattern[end.map_or(1, |i| i + 1)..])
         }
+        Some('?') => !text.is_empty() && match_chars(&text[1..], &pattern[1..]),
+        Some(c) => text.first() == Some(c) && match_chars(&text[1..], &pattern[1..]),
     }
-
-    text_chars.next().is_none()
 }
 
 fn generate_replacement(
-- 
2.43.0


From c2e986186b49254cde90dc5c430e8e648a58f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:11 +0000
Subject: [PATCH 54/72] fix: dmv renames with ** and inserts captured text as
 it is

---
 dsh-builtin/src/dmv.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/dsh-builtin/src/dmv.rs b/dsh-builtin/src/dmv.rs
index c301fc9..4ede899 100644
--- a/dsh-builtin/src/dmv.rs
+++ b/dsh-builtin/src/dmv.rs
@@ -190,6 +190,12 @@ fn execute_dmv(
 fn parse_pattern(pattern: &str) -> Result<(String, Regex), String> {
     let mut glob_pattern = String::new();
     let mut regex_pattern = String::from("^");
+    // Folders are searched by the glob pattern; the expression is for file names
+    let mut pattern = pattern;
+    while let Some(rest) = pattern.strip_prefix("**/") {
+        glob_pattern = "**/".to_string();
+        pattern = rest;
+    }
     let mut chars = pattern.chars().peekable();
     let mut _capture_count = 0;
 
@@ -409,16 +415,20 @@ fn generate_replacement(
         None => return Ok(None), // No match
     };
 
-    let mut result = replacement.to_string();
-
-    // Replace $0 with full match
-    result = result.replace("$0", &captures[0]);
-
-    // Replace $1, $2, etc. with capture groups
-    for i in 1..captures.len() {
-        let placeholder = format!("${i}");
-        if let Some(capture) = captures.get(i) {
-            result = result.replace(&placeholder, capture.as_str());
+    // Replace $0 with the full match and $1, $2, etc. with capture groups.
+    // What is inserted is not looked at again.
+    let mut result = String::new();
+    let mut chars = replacement.chars().peekable();
+    while let Some(ch) = chars.next() {
+        let group = (ch == '$')
+            .then(|| chars.peek().and_then(|c| c.to_digit(10)))
+            .flatten()
+            .filter(|&i| (i as usize) < captures.len());
+        if let Some(i) = group {
+            chars.next();
+            result.push_str(captures.get(i as usize).map_or("", |m| m.as_str()));
+        } else {
+            result.push(ch);
         }
     }
 
-- 
2.43.0


From 07af118ec7a0ce89c7feb16c08c6ee93de6ef351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 55/72] fix: dmv loses no file when names are exchanged,
 shifted or spelled differently

---
 dsh-builtin/src/dmv.rs | 114 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 102 insertions(+), 12 deletions(-)

diff --git a/dsh-builtin/src/dmv.rs b/dsh-builtin/src/dmv.rs
index 4ede899..dc40d55 100644
--- a/dsh-builtin/src/dmv.rs
+++ b/dsh-builtin/src/dmv.rs
@@ -2,9 +2,9 @@ use super::ShellProxy;
 use dsh_types::{Context, ExitStatus};
 use getopts::Options;
 use regex::Regex;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fs;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 /// Built-in dmv command description
 pub fn description() -> &'static str {
@@ -141,7 +141,12 @@ fn execute_dmv(
     check_rename_conflicts(&rename_ops, force)?;
 
     // Execute or preview renames
-    let mut count = 0;
+    let count = rename_ops.len();
+    let rename_ops = if dry_run {
+        rename_ops
+    } else {
+        order_renames(rename_ops)?
+    };
     for (old_path, new_path) in rename_ops {
         if verbose {
             if dry_run {
@@ -181,7 +186,6 @@ fn execute_dmv(
                 )
             })?;
         }
-        count += 1;
     }
 
     Ok(count)
@@ -442,20 +446,59 @@ fn generate_replacement(
     Ok(Some(new_path))
 }
 
+/// The place a path stands for: its existing parents resolved, `..` and `.` removed.
+/// A link at the end is not followed.
+fn resolve_place(path: &Path) -> Result<PathBuf, String> {
+    let mut place = PathBuf::new();
+    let mut components = path.components().peekable();
+    while let Some(component) = components.next() {
+        match component {
+            Component::CurDir => {}
+            Component::ParentDir => {
+                place.pop();
+            }
+            other => {
+                place.push(other);
+                if components.peek().is_some() {
+                    match fs::canonicalize(&place) {
+                        Ok(found) if found.is_dir() => place = found,
+                        Ok(_) => return Err(format!("Not a directory: {}", place.display())),
+                        Err(_) if fs::symlink_metadata(&place).is_ok() => {
+                            return Err(format!("Not a directory: {}", place.display()));
+                        }
+                        Err(_) => {}
+                    }
+                }
+            }
+        }
+    }
+    Ok(place)
+}
+
 fn check_rename_conflicts(rename_ops: &[(PathBuf, PathBuf)], force: bool) -> Result<(), String> {
     let mut target_files: HashMap<PathBuf, PathBuf> = HashMap::new();
+    let mut sources: HashSet<PathBuf> = HashSet::new();
+    for (source, _) in rename_ops {
+        sources.insert(resolve_place(source)?);
+    }
 
     for (source, target) in rename_ops {
-        // Check if target already exists
-        if target.exists() && !force {
-            return Err(format!(
-                "Target file already exists: {} (use -f to force)",
-                target.display()
-            ));
+        let place = resolve_place(target)?;
+        if let Ok(metadata) = fs::symlink_metadata(&place) {
+            // Check if target already exists
+            if !force {
+                return Err(format!(
+                    "Target file already exists: {} (use -f to force)",
+                    target.display()
+                ));
+            }
+            if metadata.is_dir() && !sources.contains(&place) {
+                return Err(format!("Target is a directory: {}", target.display()));
+            }
         }
 
         // Check for duplicate targets
-        if let Some(existing_source) = target_files.get(target) {
+        if let Some(existing_source) = target_files.get(&place) {
             return Err(format!(
                 "Multiple files would be renamed to {}: {} and {}",
                 target.display(),
@@ -464,12 +507,59 @@ fn check_rename_conflicts(rename_ops: &[(PathBuf, PathBuf)], force: bool) -> Res
             ));
         }
 
-        target_files.insert(target.clone(), source.clone());
+        target_files.insert(place, source.clone());
+    }
+
+    // A new file cannot be a folder as well
+    for (place, source) in &target_files {
+        if let Some(folder) = place
+            .ancestors()
+            .skip(1)
+            .find(|folder| target_files.contains_key(*folder))
+        {
+            return Err(format!(
+                "{} would be a file and the folder of {}",
+                folder.display(),
+                source.display()
+            ));
+        }
     }
 
     Ok(())
 }
 
+/// Order the renames so that no file is overwritten before it is renamed itself.
+fn order_renames(rename_ops: Vec<(PathBuf, PathBuf)>) -> Result<Vec<(PathBuf, PathBuf)>, String> {
+    let mut pending = Vec::new();
+    for (source, target) in rename_ops {
+        let (source, target) = (resolve_place(&source)?, resolve_place(&target)?);
+        if source != target {
+            pending.push((source, target));
+        }
+    }
+    // What lies in a folder is renamed before the folder
+    pending.sort_by_key(|(source, _)| std::cmp::Reverse(source.components().count()));
+
+    let mut ordered = Vec::new();
+    while !pending.is_empty() {
+        let free =
+            (0..pending.len()).find(|&i| pending.iter().all(|(source, _)| *source != pending[i].1));
+        if let Some(i) = free {
+            ordered.push(pending.remove(i));
+        } else {
+            // Only cycles are left: one file gives way
+            let source = pending[0].0.clone();
+            let aside = (0..)
+                .map(|n| source.with_file_name(format!(".dmv-{}-{n}", std::process::id())))
+                .find(|path| fs::symlink_metadata(path).is_err())
+                .unwrap_or_default();
+            ordered.push((source, aside.clone()));
+            pending[0].0 = aside;
+        }
+    }
+    Ok(ordered)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 241915149fbe8f2496397f7e4bc9543b6b47c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:54 +0000
Subject: [PATCH 56/72] fix: leaving a folder restores the variables its
 settings changed

---
 dsh/src/direnv.rs                | 138 ++++++++++++++++++++-----------
 dsh/src/environment/variables.rs |   3 +
 2 files changed, 91 insertions(+), 50 deletions(-)

diff --git a/dsh/src/direnv.rs b/dsh/src/direnv.rs
index cc2f94b..6e1c0be 100644
--- a/dsh/src/direnv.rs
+++ b/dsh/src/direnv.rs
@@ -5,6 +5,7 @@ use std::fs;
 use std::io::{BufWriter, StdoutLock, Write};
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
+use tracing::warn;
 
 #[derive(Debug, Clone)]
 pub enum Entry {
@@ -30,6 +31,8 @@ pub struct DirEnvironment {
     pub entries: Vec<Entry>,
     pub env_path: String,
     loaded: bool,
+    /// What the variables were before this folder was loaded
+    saved: Vec<(String, Option<String>)>,
 }
 
 impl DirEnvironment {
@@ -40,29 +43,45 @@ impl DirEnvironment {
             entries: Vec::new(),
             env_path,
             loaded: false,
+            saved: Vec::new(),
         })
     }
 
-    pub fn set_env(&self, env: &mut Environment, out: &mut BufWriter<StdoutLock>) -> Result<()> {
+    pub fn set_env(
+        &mut self,
+        env: &mut Environment,
+        out: &mut BufWriter<StdoutLock>,
+    ) -> Result<()> {
         if self.loaded {
             return Ok(());
         }
 
-        let mut env_path = env.system_env_vars.get("PATH").cloned().unwrap_or_default();
+        let before = env.child_process_env();
+        let mut env_path = before.get("PATH").cloned().unwrap_or_default();
+        let mut path_added = false;
         for entry in &self.entries {
             match entry {
                 Entry::Env(env_entry) => {
+                    self.saved
+                        .push((env_entry.key.clone(), before.get(&env_entry.key).cloned()));
+                    if env_entry.key == "PATH" {
+                        env_path = env_entry.value.clone();
+                    }
                     env.set_system_env_var(env_entry.key.clone(), env_entry.value.clone());
                     out.write_fmt(format_args!("+{} ", &env_entry.key)).ok();
                 }
                 Entry::PathAdd(path_entry) => {
-                    let mut path = path_entry.path.clone();
-                    path.push_str(&env_path);
-                    env_path = path;
+                    let path = Path::new(&self.path).join(path_entry.path.trim_end_matches(':'));
+                    env_path = format!("{}:{}", path.display(), env_path);
+                    path_added = true;
                 }
             }
         }
-        env.set_system_env_var("PATH".to_string(), env_path);
+        if path_added {
+            self.saved
+                .push(("PATH".to_string(), before.get("PATH").cloned()));
+            env.set_system_env_var("PATH".to_string(), env_path);
+        }
 
         Ok(())
     }
@@ -71,20 +90,12 @@ impl DirEnvironment {
         if !self.loaded {
             return;
         }
-        let mut require_reset = false;
-        for entry in &self.entries {
-            match entry {
-                Entry::Env(env_entry) => {
-                    env.unset_system_env_var(&env_entry.key);
-                }
-                Entry::PathAdd(_) => {
-                    require_reset = true;
-                }
+        for (key, value) in self.saved.drain(..) {
+            match value {
+                Some(value) => env.set_system_env_var(key, value),
+                None => env.unset_system_env_var(&key),
             }
         }
-        if require_reset {
-            env.set_system_env_var("PATH".to_string(), self.env_path.clone());
-        }
         self.entries = Vec::new();
     }
 
@@ -115,13 +126,23 @@ impl DirEnvironment {
     }
 }
 
+/// The two parts of a line that sets something
+fn setting(line: &str, separator: char) -> Option<(String, String)> {
+    let (key, value) = line.split_once(separator)?;
+    let key = key.trim().to_uppercase();
+    if key.is_empty() || key.starts_with('#') {
+        return None;
+    }
+    Some((key, value.trim().to_string()))
+}
+
 fn read_env_config_file(file: &str) -> Result<Vec<Entry>> {
     let mut ret: Vec<Entry> = Vec::new();
     let contents = fs::read_to_string(file)?;
     for line in contents.lines() {
-        let parts: Vec<&str> = line.splitn(2, '=').collect();
-        let key = parts[0].trim().to_uppercase().to_string();
-        let value = parts[1].trim().to_string();
+        let Some((key, value)) = setting(line, '=') else {
+            continue;
+        };
         ret.push(Entry::Env(EnvEntry { key, value }));
     }
     Ok(ret)
@@ -133,9 +154,9 @@ fn read_envrc_config_file(file: &str) -> Result<Vec<Entry>> {
     let current_path = std::env::var("PATH")?;
 
     for line in contents.lines() {
-        let parts: Vec<&str> = line.splitn(2, ' ').collect();
-        let cmd = parts[0].trim().to_uppercase().to_string();
-        let value = parts[1].trim().to_string();
+        let Some((cmd, value)) = setting(line.trim(), ' ') else {
+            continue;
+        };
 
         match cmd.as_str() {
             "PATH_ADD" => ret.push(Entry::PathAdd(PathAddEntry {
@@ -143,9 +164,9 @@ fn read_envrc_config_file(file: &str) -> Result<Vec<Entry>> {
                 old: current_path.clone(),
             })),
             "EXPORT" => {
-                let parts: Vec<&str> = value.splitn(2, '=').collect();
-                let key = parts[0].trim().to_uppercase().to_string();
-                let mut value = parts[1].trim().to_string();
+                let Some((key, mut value)) = setting(&value, '=') else {
+                    continue;
+                };
 
                 // Strip quotes if present
                 if ((value.starts_with('"') && value.ends_with('"'))
@@ -168,38 +189,55 @@ pub fn check_path(pwd: &Path, environment: Arc<RwLock<Environment>>) -> Result<(
     let out = std::io::stdout().lock();
     let mut out = BufWriter::new(out);
 
-    let mut idx = 0;
-    while idx < environment.direnv_roots.len() {
-        let should_load = {
-            let env = &environment.direnv_roots[idx];
-            pwd.starts_with(&env.path) && !env.loaded
-        };
-        let should_unload = {
-            let env = &environment.direnv_roots[idx];
-            !pwd.starts_with(&env.path) && env.loaded
-        };
+    // Outer folders come first
+    let depth = |root: &DirEnvironment| Path::new(&root.path).components().count();
+    let roots = std::mem::take(&mut environment.direnv_roots);
+    let mut order: Vec<usize> = (0..roots.len()).collect();
+    order.sort_by_key(|&idx| depth(&roots[idx]));
+    let mut roots: Vec<Option<DirEnvironment>> = roots.into_iter().map(Some).collect();
 
-        if should_load {
-            let mut dir_env = environment.direnv_roots.remove(idx);
-            dir_env.read_env_file()?;
+    let wanted: Vec<usize> = order
+        .iter()
+        .copied()
+        .filter(|&idx| {
+            roots[idx]
+                .as_ref()
+                .is_some_and(|root| pwd.starts_with(&root.path))
+        })
+        .collect();
+    let loaded: Vec<usize> = order
+        .iter()
+        .copied()
+        .filter(|&idx| roots[idx].as_ref().is_some_and(|root| root.loaded))
+        .collect();
+    let kept = wanted
+        .iter()
+        .zip(&loaded)
+        .take_while(|(a, b)| a == b)
+        .count();
+
+    for &idx in loaded[kept..].iter().rev() {
+        if let Some(dir_env) = roots[idx].as_mut() {
+            out.write_fmt(format_args!("direnv: unloading {}\n", dir_env.path))
+                .ok();
+            dir_env.remove_env(environment);
+            dir_env.loaded = false;
+        }
+    }
+    for &idx in &wanted[kept..] {
+        if let Some(dir_env) = roots[idx].as_mut() {
+            if let Err(err) = dir_env.read_env_file() {
+                warn!("direnv: {}: {}", dir_env.path, err);
+            }
             out.write_fmt(format_args!("direnv: loading {}\n", dir_env.path))
                 .ok();
             out.write_all(b"direnv: export ").ok();
             dir_env.set_env(environment, &mut out)?;
             out.write_all(b"\n").ok();
             dir_env.loaded = true;
-            environment.direnv_roots.insert(idx, dir_env);
-        } else if should_unload {
-            let mut dir_env = environment.direnv_roots.remove(idx);
-            out.write_fmt(format_args!("direnv: unloading {}\n", dir_env.path))
-                .ok();
-            dir_env.remove_env(environment);
-            dir_env.loaded = false;
-            environment.direnv_roots.insert(idx, dir_env);
         }
-
-        idx += 1;
     }
+    environment.direnv_roots = roots.into_iter().flatten().collect();
     out.flush().ok();
     environment.reload_path();
     Ok(())
diff --git a/dsh/src/environment/variables.rs b/dsh/src/environment/variables.rs
index d21d815..0f18da3 100644
--- a/dsh/src/environment/variables.rs
+++ b/dsh/src/environment/variables.rs
@@ -99,6 +99,9 @@ impl Environment {
     /// Remove a process-visible environment variable from the shell snapshot.
     pub fn unset_system_env_var(&mut self, key: &str) {
         self.system_env_vars.remove(key);
+        if self.exported_vars.remove(key) {
+            self.variables.remove(key);
+        }
 
         match key {
             "PATH" => self.reload_path(),
-- 
2.43.0


From aed7ac52fa6df2d329d8e7fb4c60b6896c39ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 57/72] fix: serve decodes the escapes of a request path

---
 dsh-builtin/src/serve/handlers.rs | 33 ++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/dsh-builtin/src/serve/handlers.rs b/dsh-builtin/src/serve/handlers.rs
index 90f3153..7c7c80f 100644
--- a/dsh-builtin/src/serve/handlers.rs
+++ b/dsh-builtin/src/serve/handlers.rs
@@ -3,7 +3,9 @@ use axum::http::header::ToStrError;
 use axum::http::{HeaderMap, StatusCode, Uri, header};
 use axum::response::Response;
 use mime_guess::MimeGuess;
+use std::ffi::OsString;
 use std::fs;
+use std::os::unix::ffi::OsStringExt;
 use std::path::{Path, PathBuf};
 use std::time::SystemTime;
 use tokio::fs as async_fs;
@@ -503,7 +505,7 @@ pub async fn serve_file_handler(
 
     // Remove leading slash and decode URL
     let relative_path = path.strip_prefix('/').unwrap_or(path);
-    let file_path = serve_dir.join(relative_path);
+    let file_path = serve_dir.join(percent_decode(relative_path));
 
     // Security check: ensure the path is within the serve directory
     match file_path.canonicalize() {
@@ -556,6 +558,35 @@ pub async fn serve_file_handler(
     }
 }
 
+/// Decode the percent-escapes of a URL path; what isn't a valid escape stays as it is
+fn percent_decode(path: &str) -> OsString {
+    let bytes = path.as_bytes();
+    let mut decoded = Vec::with_capacity(bytes.len());
+    let mut i = 0;
+    while i < bytes.len() {
+        let escape = if bytes[i] == b'%' {
+            bytes
+                .get(i + 1..i + 3)
+                .filter(|hex| hex.iter().all(u8::is_ascii_hexdigit))
+                .and_then(|hex| std::str::from_utf8(hex).ok())
+                .and_then(|hex| u8::from_str_radix(hex, 16).ok())
+        } else {
+            None
+        };
+        match escape {
+            Some(byte) => {
+                decoded.push(byte);
+                i += 3;
+            }
+            None => {
+                decoded.push(bytes[i]);
+                i += 1;
+            }
+        }
+    }
+    OsString::from_vec(decoded)
+}
+
 /// Serve a single file
 async fn serve_file(file_path: &Path) -> Response<Body> {
     debug!("serving file: {:?}", file_path);
-- 
2.43.0


From 19f1d1b600479b6a9c0bde280a8378c88cb201cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 58/72] fix: serve doesn't hand out an index.html outside the
 folder

---
 dsh-builtin/src/serve/handlers.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dsh-builtin/src/serve/handlers.rs b/dsh-builtin/src/serve/handlers.rs
index 7c7c80f..ccfb2d5 100644
--- a/dsh-builtin/src/serve/handlers.rs
+++ b/dsh-builtin/src/serve/handlers.rs
@@ -484,7 +484,7 @@ pub async fn serve_root_handler(serve_dir: PathBuf, serve_index: bool) -> Respon
     // Try to serve index.html if serve_index is enabled
     if serve_index {
         let index_path = serve_dir.join("index.html");
-        if index_path.exists() && index_path.is_file() {
+        if index_path.is_file() && is_within(&index_path, &serve_dir) {
             return serve_file(&index_path).await;
         }
     }
@@ -535,7 +535,7 @@ pub async fn serve_file_handler(
                 // Try to serve index.html if serve_index is enabled
                 if serve_index {
                     let index_path = canonical_path.join("index.html");
-                    if index_path.exists() && index_path.is_file() {
+                    if index_path.is_file() && is_within(&index_path, &serve_dir) {
                         let mut response = serve_file(&index_path).await;
                         if enable_cors {
                             add_cors_headers(response.headers_mut());
@@ -558,6 +558,14 @@ pub async fn serve_file_handler(
     }
 }
 
+/// Whether a path, with its symbolic links followed, lies below the served directory
+fn is_within(path: &Path, serve_dir: &Path) -> bool {
+    match (path.canonicalize(), serve_dir.canonicalize()) {
+        (Ok(path), Ok(serve_dir)) => path.starts_with(serve_dir),
+        _ => false,
+    }
+}
+
 /// Decode the percent-escapes of a URL path; what isn't a valid escape stays as it is
 fn percent_decode(path: &str) -> OsString {
     let bytes = path.as_bytes();
-- 
2.43.0


From b15826a29638a1e2145fad4ddb65947e0930d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 59/72] fix: serve's listing escapes names and links to its
 entries

---
 dsh-builtin/src/serve/handlers.rs | 45 ++++++++++++++++++++++++-------
 dsh-builtin/src/serve/scanner.rs  |  2 +-
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/dsh-builtin/src/serve/handlers.rs b/dsh-builtin/src/serve/handlers.rs
index ccfb2d5..5600acf 100644
--- a/dsh-builtin/src/serve/handlers.rs
+++ b/dsh-builtin/src/serve/handlers.rs
@@ -1,11 +1,12 @@
+use super::scanner::html_escape;
 use axum::body::Body;
 use axum::http::header::ToStrError;
 use axum::http::{HeaderMap, StatusCode, Uri, header};
 use axum::response::Response;
 use mime_guess::MimeGuess;
-use std::ffi::OsString;
+use std::ffi::{OsStr, OsString};
 use std::fs;
-use std::os::unix::ffi::OsStringExt;
+use std::os::unix::ffi::{OsStrExt, OsStringExt};
 use std::path::{Path, PathBuf};
 use std::time::SystemTime;
 use tokio::fs as async_fs;
@@ -490,7 +491,7 @@ pub async fn serve_root_handler(serve_dir: PathBuf, serve_index: bool) -> Respon
     }
 
     // Otherwise, serve directory listing
-    serve_directory(&serve_dir).await
+    serve_directory(&serve_dir, "/").await
 }
 
 /// Handle requests to specific paths
@@ -545,7 +546,7 @@ pub async fn serve_file_handler(
                 }
 
                 // Serve directory listing
-                let mut response = serve_directory(&canonical_path).await;
+                let mut response = serve_directory(&canonical_path, path).await;
                 if enable_cors {
                     add_cors_headers(response.headers_mut());
                 }
@@ -595,6 +596,19 @@ fn percent_decode(path: &str) -> OsString {
     OsString::from_vec(decoded)
 }
 
+/// Encode a file name as a segment of a URL path
+fn percent_encode(name: &OsStr) -> String {
+    name.as_bytes()
+        .iter()
+        .map(|&byte| match byte {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                (byte as char).to_string()
+            }
+            _ => format!("%{byte:02X}"),
+        })
+        .collect()
+}
+
 /// Serve a single file
 async fn serve_file(file_path: &Path) -> Response<Body> {
     debug!("serving file: {:?}", file_path);
@@ -627,9 +641,13 @@ async fn serve_file(file_path: &Path) -> Response<Body> {
 }
 
 /// Serve directory listing as HTML
-async fn serve_directory(dir_path: &Path) -> Response<Body> {
+async fn serve_directory(dir_path: &Path, request_path: &str) -> Response<Body> {
     debug!("serving directory: {:?}", dir_path);
 
+    // Links are written from the root, so that they hold with and without a trailing slash
+    let base = html_escape(&format!("/{}", request_path.trim_matches('/')));
+    let base = base.trim_end_matches('/');
+
     match fs::read_dir(dir_path) {
         Ok(entries) => {
             let mut html = String::new();
@@ -646,14 +664,20 @@ async fn serve_directory(dir_path: &Path) -> Response<Body> {
             html.push_str(".file { color: #666; }");
             html.push_str("</style></head><body>");
 
-            html.push_str(&format!("<h1>🐕 Directory: {}</h1>", dir_path.display()));
+            html.push_str(&format!(
+                "<h1>🐕 Directory: {}</h1>",
+                html_escape(&dir_path.display().to_string())
+            ));
             html.push_str("<ul>");
 
             // Add parent directory link if not root
             if let Some(parent) = dir_path.parent()
                 && parent != dir_path
             {
-                html.push_str("<li><a href=\"../\" class=\"dir\">📁 ../</a></li>");
+                html.push_str(&format!(
+                    "<li><a href=\"{}/\" class=\"dir\">📁 ../</a></li>",
+                    base.rsplit_once('/').map_or("", |(parent, _)| parent)
+                ));
             }
 
             // Collect and sort entries
@@ -673,16 +697,17 @@ async fn serve_directory(dir_path: &Path) -> Response<Body> {
             // Add entries to HTML
             for entry in entries {
                 let file_name = entry.file_name();
-                let file_name_str = file_name.to_string_lossy();
+                let file_name_str = html_escape(&file_name.to_string_lossy());
+                let link = format!("{base}/{}", percent_encode(&file_name));
                 let path = entry.path();
 
                 if path.is_dir() {
                     html.push_str(&format!(
-                        "<li><a href=\"{file_name_str}\" class=\"dir\">📁 {file_name_str}/</a></li>"
+                        "<li><a href=\"{link}/\" class=\"dir\">📁 {file_name_str}/</a></li>"
                     ));
                 } else {
                     html.push_str(&format!(
-                        "<li><a href=\"{file_name_str}\" class=\"file\">📄 {file_name_str}</a></li>"
+                        "<li><a href=\"{link}\" class=\"file\">📄 {file_name_str}</a></li>"
                     ));
                 }
             }
diff --git a/dsh-builtin/src/serve/scanner.rs b/dsh-builtin/src/serve/scanner.rs
index 69570e0..68339b3 100644
--- a/dsh-builtin/src/serve/scanner.rs
+++ b/dsh-builtin/src/serve/scanner.rs
@@ -519,7 +519,7 @@ impl DirectoryListingGenerator {
 }
 
 /// Escape HTML special characters
-fn html_escape(input: &str) -> String {
+pub(super) fn html_escape(input: &str) -> String {
     input
         .replace('&', "&amp;")
         .replace('<', "&lt;")
-- 
2.43.0


From 6b35e190d9cbeebe7c59e395a2f98547f807a156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 60/72] fix: serve --cors covers the front page

---
 dsh-builtin/src/serve/handlers.rs | 14 +++++++++++++-
 dsh-builtin/src/serve/server.rs   |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/dsh-builtin/src/serve/handlers.rs b/dsh-builtin/src/serve/handlers.rs
index 5600acf..c77eae8 100644
--- a/dsh-builtin/src/serve/handlers.rs
+++ b/dsh-builtin/src/serve/handlers.rs
@@ -479,9 +479,21 @@ fn format_http_date(timestamp: u64) -> String {
 }
 
 /// Handle requests to the root path "/"
-pub async fn serve_root_handler(serve_dir: PathBuf, serve_index: bool) -> Response<Body> {
+pub async fn serve_root_handler(
+    serve_dir: PathBuf,
+    serve_index: bool,
+    enable_cors: bool,
+) -> Response<Body> {
     debug!("serving root directory: {:?}", serve_dir);
 
+    let mut response = serve_root(serve_dir, serve_index).await;
+    if enable_cors {
+        add_cors_headers(response.headers_mut());
+    }
+    response
+}
+
+async fn serve_root(serve_dir: PathBuf, serve_index: bool) -> Response<Body> {
     // Try to serve index.html if serve_index is enabled
     if serve_index {
         let index_path = serve_dir.join("index.html");
diff --git a/dsh-builtin/src/serve/server.rs b/dsh-builtin/src/serve/server.rs
index 2b8233f..46d2782 100644
--- a/dsh-builtin/src/serve/server.rs
+++ b/dsh-builtin/src/serve/server.rs
@@ -42,7 +42,7 @@ impl HttpServer {
                 "/",
                 get({
                     let serve_dir = serve_dir.clone();
-                    move || serve_root_handler(serve_dir, serve_index)
+                    move || serve_root_handler(serve_dir, serve_index, enable_cors)
                 }),
             )
             .route(
-- 
2.43.0


From 74e94aa78a3e154dc04d2f65980a606e393201d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:06 +0000
Subject: [PATCH 61/72] fix: serve reports a port in use and fails

---
 dsh-builtin/src/serve/server.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/dsh-builtin/src/serve/server.rs b/dsh-builtin/src/serve/server.rs
index 46d2782..c1b95d8 100644
--- a/dsh-builtin/src/serve/server.rs
+++ b/dsh-builtin/src/serve/server.rs
@@ -26,9 +26,12 @@ impl HttpServer {
             .parse()
             .map_err(|e| ServeError::NetworkError(format!("Invalid address: {e}")))?;
 
-        let listener = TcpListener::bind(&addr)
-            .await
-            .map_err(|e| ServeError::NetworkError(format!("Failed to bind to {addr}: {e}")))?;
+        let listener = TcpListener::bind(&addr).await.map_err(|e| match e.kind() {
+            std::io::ErrorKind::AddrInUse => ServeError::PortInUse {
+                port: self.config.port,
+            },
+            _ => ServeError::NetworkError(format!("Failed to bind to {addr}: {e}")),
+        })?;
 
         info!("HTTP server listening on http://{}", addr);
 
@@ -162,11 +165,7 @@ async fn run_server_async(ctx: &Context, config: ServeConfig) -> Result<(), Serv
     ctx.write_stdout("").ok();
 
     // Start the server in a background task
-    let server_task = tokio::spawn(async move {
-        if let Err(e) = server.start().await {
-            error!("server error: {}", e);
-        }
-    });
+    let server_task = tokio::spawn(async move { server.start().await });
 
     // Wait for shutdown signal
     let shutdown_task = tokio::spawn(async {
@@ -177,9 +176,13 @@ async fn run_server_async(ctx: &Context, config: ServeConfig) -> Result<(), Serv
     tokio::select! {
         result = server_task => {
             match result {
-                Ok(_) => {
+                Ok(Ok(())) => {
                     info!("server completed successfully");
                 }
+                Ok(Err(e)) => {
+                    error!("server error: {}", e);
+                    return Err(e);
+                }
                 Err(e) => {
                     error!("server task failed: {}", e);
                     return Err(ServeError::ServerError(Box::new(e)));
-- 
2.43.0


From a0e1270959e55e59660523effb768d84f3d9db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:45 +0000
Subject: [PATCH 62/72] fix: every hook runs, also one given by name, when
 another fails

---
 dsh/src/lisp/mod.rs    | 16 +++++++-
 dsh/src/lisp/parser.rs |  5 ---
 dsh/src/proxy/mod.rs   | 16 ++------
 dsh/src/shell/hooks.rs | 91 +++++++++++++-----------------------------
 4 files changed, 47 insertions(+), 81 deletions(-)

diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index fb5c73c..07a3b1a 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -7,7 +7,6 @@ pub use crate::lisp::model::Value;
 pub use crate::lisp::model::{Env, Symbol};
 use crate::lisp::model::{List, RuntimeError};
 use crate::lisp::parser::parse;
-pub(crate) use crate::lisp::parser::string_literal;
 use crate::secrets::SecretManagerSnapshot;
 use crate::suggestion::InputPreferences;
 use anyhow::Context;
@@ -237,6 +236,21 @@ impl LispEngine {
         Ok(())
     }
 
+    /// Run every hook of a list with the given arguments. A hook is a function or the name of one,
+    /// and one that fails doesn't keep the others from running.
+    pub fn run_hooks(&self, hook_var: &str, args: Vec<Value>) {
+        let hooks = self.env.borrow().get(&Symbol::from(hook_var));
+        let Some(Value::List(hooks)) = hooks else {
+            return;
+        };
+        for hook in hooks.into_iter() {
+            let call = Value::List(List::from_iter(args.clone()).cons(hook));
+            if let Err(e) = eval(self.env.clone(), &call) {
+                tracing::warn!("A hook of {} failed: {}", hook_var, e);
+            }
+        }
+    }
+
     /// Get a hook list by name
     #[allow(dead_code)]
     pub fn get_hook_list(&self, hook_name: &str) -> anyhow::Result<Value> {
diff --git a/dsh/src/lisp/parser.rs b/dsh/src/lisp/parser.rs
index 3eb0ace..34fd83a 100644
--- a/dsh/src/lisp/parser.rs
+++ b/dsh/src/lisp/parser.rs
@@ -294,11 +294,6 @@ fn parse_string(code: &str, index: usize) -> ParseResult {
     }))
 }
 
-/// Writes a text as a string literal, which reads back as this text
-pub fn string_literal(text: &str) -> String {
-    format!("\"{}\"", text.replace('\\', "\\\\").replace('"', "\\\""))
-}
-
 fn parse_symbol(code: &str, index: usize) -> ParseResult {
     let (last_index, last_char) = consume_while(code, index, |(index, ch)| {
         (index == 0 && is_symbol_start(ch)) || (index > 0 && is_symbolic(ch))
diff --git a/dsh/src/proxy/mod.rs b/dsh/src/proxy/mod.rs
index 9e15c73..4090718 100644
--- a/dsh/src/proxy/mod.rs
+++ b/dsh/src/proxy/mod.rs
@@ -243,18 +243,10 @@ impl ShellProxy for Shell {
             return Ok(());
         }
 
-        let args_str = args
-            .iter()
-            .map(|a| crate::lisp::string_literal(a))
-            .collect::<Vec<_>>()
-            .join(" ");
-
-        let lisp_code = format!("(map (lambda (hook) (hook {args_str})) {hook_var})");
-
-        if let Err(e) = self.lisp_engine.borrow().run(&lisp_code) {
-            // We use warn! but return Ok because hook failure shouldn't crash the command
-            warn!("Failed to execute hook {}: {}", hook_name, e);
-        }
+        self.lisp_engine.borrow().run_hooks(
+            &hook_var,
+            args.into_iter().map(crate::lisp::Value::String).collect(),
+        );
         Ok(())
     }
 
diff --git a/dsh/src/shell/hooks.rs b/dsh/src/shell/hooks.rs
index cd445dd..4c41caf 100644
--- a/dsh/src/shell/hooks.rs
+++ b/dsh/src/shell/hooks.rs
@@ -1,6 +1,6 @@
 use crate::direnv;
 use crate::environment::Environment;
-use crate::lisp::string_literal;
+use crate::lisp::Value;
 use crate::shell::Shell;
 use anyhow::Result;
 use parking_lot::RwLock;
@@ -22,13 +22,10 @@ pub fn exec_chpwd_hooks(shell: &mut Shell, pwd: &str) -> Result<()> {
     }
 
     // Execute Lisp on-chdir hooks
-    if let Err(e) = shell
+    shell
         .lisp_engine
         .borrow()
-        .run("(when (bound? '*on-chdir-hooks*) (map (lambda (hook) (hook)) *on-chdir-hooks*))")
-    {
-        debug!("Failed to execute on-chdir hooks: {}", e);
-    }
+        .run_hooks("*on-chdir-hooks*", vec![]);
 
     // Check for project context change
     let project_opt = dsh_builtin::project::find_project_by_path(pwd)
@@ -48,13 +45,10 @@ pub fn exec_chpwd_hooks(shell: &mut Shell, pwd: &str) -> Result<()> {
                 .insert("DSH_PROJECT".to_string(), name.clone());
             debug!("Entered project: {}", name);
 
-            let lisp_code = format!(
-                "(when (bound? '*on-project-switch-hooks*) (map (lambda (hook) (hook {})) *on-project-switch-hooks*))",
-                string_literal(name)
+            shell.lisp_engine.borrow().run_hooks(
+                "*on-project-switch-hooks*",
+                vec![Value::String(name.clone())],
             );
-            if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
-                debug!("Failed to execute on-project-switch-hooks: {}", e);
-            }
         } else {
             shell.environment.write().variables.remove("DSH_PROJECT");
             debug!("Left project");
@@ -81,13 +75,10 @@ pub fn exec_pre_prompt_hooks(shell: &Shell) -> Result<()> {
         return Ok(());
     }
 
-    if let Err(e) = shell
+    shell
         .lisp_engine
         .borrow()
-        .run("(map (lambda (hook) (hook)) *pre-prompt-hooks*)")
-    {
-        debug!("Failed to execute pre-prompt hooks: {}", e);
-    }
+        .run_hooks("*pre-prompt-hooks*", vec![]);
     Ok(())
 }
 
@@ -102,14 +93,10 @@ pub fn exec_pre_exec_hooks(shell: &Shell, command: &str) -> Result<()> {
         return Ok(());
     }
 
-    let lisp_code = format!(
-        "(map (lambda (hook) (hook {})) *pre-exec-hooks*)",
-        string_literal(command)
-    );
-
-    if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
-        debug!("Failed to execute pre-exec hooks: {}", e);
-    }
+    shell
+        .lisp_engine
+        .borrow()
+        .run_hooks("*pre-exec-hooks*", vec![Value::String(command.to_string())]);
     Ok(())
 }
 
@@ -124,15 +111,13 @@ pub fn exec_post_exec_hooks(shell: &Shell, command: &str, exit_code: i32) -> Res
         return Ok(());
     }
 
-    let lisp_code = format!(
-        "(map (lambda (hook) (hook {} {})) *post-exec-hooks*)",
-        string_literal(command),
-        exit_code
+    shell.lisp_engine.borrow().run_hooks(
+        "*post-exec-hooks*",
+        vec![
+            Value::String(command.to_string()),
+            Value::Int(i64::from(exit_code)),
+        ],
     );
-
-    if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
-        debug!("Failed to execute post-exec hooks: {}", e);
-    }
     Ok(())
 }
 
@@ -149,24 +134,12 @@ pub fn exec_command_not_found_hooks(shell: &Shell, command: &str) -> bool {
         return false;
     }
 
-    let lisp_code = format!(
-        "(let ((results (map (lambda (hook) (hook {})) *command-not-found-hooks*)))
-          (filter (lambda (r) r) results))",
-        string_literal(command)
+    shell.lisp_engine.borrow().run_hooks(
+        "*command-not-found-hooks*",
+        vec![Value::String(command.to_string())],
     );
-
-    match shell.lisp_engine.borrow().run(&lisp_code) {
-        Ok(_) => {
-            // Check if at least one hook returned true (non-nil)
-            // For now, we always return false to let the normal error flow continue
-            // Hooks can perform side effects like suggesting package installation
-            false
-        }
-        Err(e) => {
-            debug!("Failed to execute command-not-found hooks: {}", e);
-            false
-        }
-    }
+    // The normal error flow continues; hooks can perform side effects like suggesting a package
+    false
 }
 
 /// Execute completion hooks
@@ -181,15 +154,10 @@ pub fn exec_completion_hooks(shell: &Shell, input: &str, cursor: usize) -> Resul
         return Ok(());
     }
 
-    let lisp_code = format!(
-        "(map (lambda (hook) (hook {} {})) *completion-hooks*)",
-        string_literal(input),
-        cursor
+    shell.lisp_engine.borrow().run_hooks(
+        "*completion-hooks*",
+        vec![Value::String(input.to_string()), Value::Int(cursor as i64)],
     );
-
-    if let Err(e) = shell.lisp_engine.borrow().run(&lisp_code) {
-        debug!("Failed to execute completion hooks: {}", e);
-    }
     Ok(())
 }
 
@@ -205,13 +173,10 @@ pub fn exec_input_timeout_hooks(shell: &Shell) -> Result<()> {
         return Ok(());
     }
 
-    if let Err(e) = shell
+    shell
         .lisp_engine
         .borrow()
-        .run("(map (lambda (hook) (hook)) *input-timeout-hooks*)")
-    {
-        debug!("Failed to execute input-timeout hooks: {}", e);
-    }
+        .run_hooks("*input-timeout-hooks*", vec![]);
     Ok(())
 }
 
-- 
2.43.0


From ead0a0ce10297707558827de887622dfb245a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:52 +0000
Subject: [PATCH 63/72] fix: post-exec hooks run after a failed command of a
 structured pipe

---
 dsh/src/shell/eval.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsh/src/shell/eval.rs b/dsh/src/shell/eval.rs
index 2e3ce9a..7dd45cf 100644
--- a/dsh/src/shell/eval.rs
+++ b/dsh/src/shell/eval.rs
@@ -249,6 +249,9 @@ pub async fn eval_str(
             // If command failed and no output, skip Lisp evaluation
             if last_exit_code != 0 && output.is_empty() {
                 debug!("Struct pipe: command failed with no output, skipping Lisp eval");
+                if let Err(e) = shell.exec_post_exec_hooks(&job.cmd, last_exit_code) {
+                    debug!("Error executing post-exec hooks: {}", e);
+                }
                 if ctx.interactive {
                     enable_raw_mode().ok();
                 }
-- 
2.43.0


From 6fc7200f43369e84b83885dfbe35b368ab8e2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 64/72] fix: a command after a background job has a text of its
 own

---
 dsh/src/shell/parse.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dsh/src/shell/parse.rs b/dsh/src/shell/parse.rs
index 8687b9d..86572bb 100644
--- a/dsh/src/shell/parse.rs
+++ b/dsh/src/shell/parse.rs
@@ -479,9 +479,17 @@ fn parse_jobs(
     jobs: &mut Vec<Job>,
 ) -> Result<()> {
     // The blanks before an operator are not part of the command.
-    let job_str = pair.as_str().trim_end().to_string();
+    let whole = pair.as_str();
+    let start = pair.as_span().start();
+    let mut job_str = whole.trim_end().to_string();
 
     for inner_pair in pair.into_inner() {
+        if inner_pair.as_rule() == Rule::simple_command {
+            // A background job before this one is not part of it either.
+            job_str = whole[inner_pair.as_span().start() - start..]
+                .trim()
+                .to_string();
+        }
         debug!(
             "find {:?}:'{:?}'",
             inner_pair.as_rule(),
-- 
2.43.0


From f6b799f068e61874d02a7d0aab029389ba456780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 65/72] fix: a config file with a stray closing parenthesis
 fails to load

---
 dsh/src/lisp/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index 07a3b1a..e54c3e3 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -116,7 +116,12 @@ impl LispEngine {
         }
 
         let wrapped_config = format!("(begin {config_lisp}\n)");
-        let run_result = self.run(&wrapped_config);
+        // A stray ")" ends the form early: what follows it would be left out.
+        let run_result = match parse(&wrapped_config).nth(1) {
+            Some(Err(err)) => Err(anyhow::anyhow!("Parse error: {}", err)),
+            Some(Ok(_)) => Err(anyhow::anyhow!("Parse error: unexpected \")\"")),
+            None => self.run(&wrapped_config),
+        };
 
         match run_result {
             Ok(_) => {
-- 
2.43.0


From a7fdb146d336c5fb829980a9c52bfd9f087745a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:57 +0000
Subject: [PATCH 66/72] fix: a config file that fails leaves no completions
 behind

---
 dsh/src/lisp/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsh/src/lisp/mod.rs b/dsh/src/lisp/mod.rs
index e54c3e3..ccaee57 100644
--- a/dsh/src/lisp/mod.rs
+++ b/dsh/src/lisp/mod.rs
@@ -42,6 +42,7 @@ pub struct LispEngine {
 struct EnvironmentSnapshot {
     alias: HashMap<String, String>,
     abbreviations: HashMap<String, String>,
+    autocompletion: environment::UnsafeSend<Vec<crate::completion::AutoComplete>>,
     paths: Vec<String>,
     variables: HashMap<String, String>,
     exported_vars: HashSet<String>,
@@ -64,6 +65,7 @@ impl EnvironmentSnapshot {
         Self {
             alias: env.alias.clone(),
             abbreviations: env.abbreviations.clone(),
+            autocompletion: env.autocompletion.clone(),
             paths: env.paths.clone(),
             variables: env.variables.clone(),
             exported_vars: env.exported_vars.clone(),
@@ -149,6 +151,7 @@ impl LispEngine {
         let mut env = self.shell_env.write();
         env.alias = snapshot.alias;
         env.abbreviations = snapshot.abbreviations;
+        env.autocompletion = snapshot.autocompletion;
         env.paths = snapshot.paths;
         env.variables = snapshot.variables;
         env.exported_vars = snapshot.exported_vars;
-- 
2.43.0


From ae11a8e3f71688fea88f3703207970dcc80d22fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 67/72] fix: comparing or sorting Lisp values overflows the
 stack

---
 dsh/src/lisp/model/value.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dsh/src/lisp/model/value.rs b/dsh/src/lisp/model/value.rs
index 28bd413..97cb8c0 100644
--- a/dsh/src/lisp/model/value.rs
+++ b/dsh/src/lisp/model/value.rs
@@ -526,9 +526,18 @@ fn int_type_to_float_type(i: &IntType) -> FloatType {
 
 impl Ord for Value {
     fn cmp(&self, other: &Self) -> Ordering {
-        match self.partial_cmp(other) {
-            Some(ordering) => ordering,
-            None => format!("{self:?}").cmp(&format!("{other:?}")),
+        match (self, other) {
+            (Value::Int(this), Value::Int(other)) => this.cmp(other),
+            (Value::Float(this), Value::Float(other)) => this.total_cmp(other),
+            (Value::Int(this), Value::Float(other)) => {
+                int_type_to_float_type(this).total_cmp(other)
+            }
+            (Value::Float(this), Value::Int(other)) => {
+                this.total_cmp(&int_type_to_float_type(other))
+            }
+            (Value::String(this), Value::String(other)) => this.cmp(other),
+            (Value::List(this), Value::List(other)) => this.into_iter().cmp(other),
+            _ => format!("{self:?}").cmp(&format!("{other:?}")),
         }
     }
 }
-- 
2.43.0


From c14ac1ae3b98167ee56ca7f56d016563fc5a1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 68/72] fix: calls in macros, in quoted lists and of native
 functions at the end of a Lisp function

---
 dsh/src/lisp/interpreter.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dsh/src/lisp/interpreter.rs b/dsh/src/lisp/interpreter.rs
index 01883b3..09fa3a5 100644
--- a/dsh/src/lisp/interpreter.rs
+++ b/dsh/src/lisp/interpreter.rs
@@ -91,7 +91,12 @@ fn eval_inner(
             match &list.car()? {
                 // special forms
                 Value::Symbol(Symbol(keyword)) if keyword == "comma" => {
-                    eval_inner(env, &list.cdr().car()?, context.quoting(false))
+                    // A part of a quoted list isn't in tail position.
+                    eval_inner(
+                        env,
+                        &list.cdr().car()?,
+                        context.quoting(false).found_tail(true),
+                    )
                 }
 
                 Value::Symbol(Symbol(keyword)) if keyword == "quote" => {
@@ -414,7 +419,11 @@ fn eval_inner(
                     if matches!(func_or_macro, Value::Macro(_)) {
                         let args = list.into_iter().skip(1).collect::<Vec<Value>>();
 
-                        let expanded = call_function_or_macro(env.clone(), &func_or_macro, args)?;
+                        let mut expanded =
+                            call_function_or_macro(env.clone(), &func_or_macro, args)?;
+                        while let Value::TailCall { func, args } = expanded {
+                            expanded = call_function_or_macro(env.clone(), func.as_ref(), args)?;
+                        }
 
                         eval_inner(env.clone(), &expanded, Context::new())
                     } else {
@@ -424,7 +433,11 @@ fn eval_inner(
                             .map(|car| eval_inner(env.clone(), &car, context.found_tail(true)))
                             .collect::<Result<Vec<Value>, RuntimeError>>()?;
 
-                        if !context.found_tail && context.in_func {
+                        // A native function may look at the environment it is called in.
+                        if !context.found_tail
+                            && context.in_func
+                            && matches!(func_or_macro, Value::Lambda(_))
+                        {
                             Ok(Value::TailCall {
                                 func: Rc::new(func_or_macro),
                                 args,
-- 
2.43.0


From 6f903c08ba46c893308d9a6e103d43fe236059f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 69/72] fix: division by zero, overflow and an empty range end
 the shell

---
 dsh/src/lisp/model/value.rs |  8 ++++----
 dsh/src/lisp/stdlib/math.rs | 13 ++++++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/dsh/src/lisp/model/value.rs b/dsh/src/lisp/model/value.rs
index 97cb8c0..87c3ff1 100644
--- a/dsh/src/lisp/model/value.rs
+++ b/dsh/src/lisp/model/value.rs
@@ -388,7 +388,7 @@ impl Add<&Value> for &Value {
     fn add(self, other: &Value) -> Self::Output {
         match (self, other) {
             // same type
-            (Value::Int(this), Value::Int(other)) => Ok(Value::from(this + other)),
+            (Value::Int(this), Value::Int(other)) => this.checked_add(*other).map(Value::from).ok_or(()),
             (Value::Float(this), Value::Float(other)) => Ok(Value::from(this + other)),
             (Value::String(this), Value::String(other)) => Ok(Value::from(this.clone() + other)),
 
@@ -428,7 +428,7 @@ impl Sub<&Value> for &Value {
 
     fn sub(self, other: &Value) -> Self::Output {
         match (self, other) {
-            (Value::Int(this), Value::Int(other)) => Ok(Value::from(this - other)),
+            (Value::Int(this), Value::Int(other)) => this.checked_sub(*other).map(Value::from).ok_or(()),
             (Value::Float(this), Value::Float(other)) => Ok(Value::from(this - other)),
 
             (Value::Int(this), Value::Float(other)) => {
@@ -456,7 +456,7 @@ impl Mul<&Value> for &Value {
 
     fn mul(self, other: &Value) -> Self::Output {
         match (self, other) {
-            (Value::Int(this), Value::Int(other)) => Ok(Value::from(this * other)),
+            (Value::Int(this), Value::Int(other)) => this.checked_mul(*other).map(Value::from).ok_or(()),
             (Value::Float(this), Value::Float(other)) => Ok(Value::from(this * other)),
 
             (Value::Int(this), Value::Float(other)) => {
@@ -484,7 +484,7 @@ impl Div<&Value> for &Value {
 
     fn div(self, other: &Value) -> Self::Output {
         match (self, other) {
-            (Value::Int(this), Value::Int(other)) => Ok(Value::from(this / other)),
+            (Value::Int(this), Value::Int(other)) => this.checked_div(*other).map(Value::from).ok_or(()),
             (Value::Float(this), Value::Float(other)) => Ok(Value::from(this / other)),
 
             (Value::Int(this), Value::Float(other)) => {
diff --git a/dsh/src/lisp/stdlib/math.rs b/dsh/src/lisp/stdlib/math.rs
index c2764a7..6ab628c 100644
--- a/dsh/src/lisp/stdlib/math.rs
+++ b/dsh/src/lisp/stdlib/math.rs
@@ -79,7 +79,9 @@ pub fn register(env: &mut Env) {
             let b = require_arg("/", &args, 1)?;
 
             (a / b).map_err(|_| RuntimeError {
-                msg: String::from("Function \"/\" requires arguments to be numbers"),
+                msg: String::from(
+                    "Function \"/\" requires arguments to be numbers, and no division by zero",
+                ),
             })
         }),
     );
@@ -94,7 +96,12 @@ pub fn register(env: &mut Env) {
                 TryInto::<IntType>::try_into(a),
                 TryInto::<IntType>::try_into(b),
             ) {
-                return Ok(Value::Int(a / b));
+                return a
+                    .checked_div(b)
+                    .map(Value::Int)
+                    .ok_or_else(|| RuntimeError {
+                        msg: String::from("Function \"truncate\" can't divide by zero"),
+                    });
             }
 
             Err(RuntimeError {
@@ -113,7 +120,7 @@ pub fn register(env: &mut Env) {
 
             Ok(Value::List(
                 std::iter::from_fn(move || {
-                    if current == end {
+                    if current >= end {
                         None
                     } else {
                         #[cfg(feature = "bigint")]
-- 
2.43.0


From 0264cee07f402ad884b5342f3e52433c5ae78cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 70/72] fix: + with a string before a number puts a 0 in front

---
 dsh/src/lisp/stdlib/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsh/src/lisp/stdlib/math.rs b/dsh/src/lisp/stdlib/math.rs
index 6ab628c..7e9d7b7 100644
--- a/dsh/src/lisp/stdlib/math.rs
+++ b/dsh/src/lisp/stdlib/math.rs
@@ -20,7 +20,7 @@ pub fn register(env: &mut Env) {
     env.define(
         Symbol::from("+"),
         Value::NativeFunc(|_env, args| {
-            let first_arg = require_arg("+", &args, 1)?;
+            let first_arg = require_arg("+", &args, 0)?;
 
             let mut total = match first_arg {
                 Value::Int(_) => Ok(Value::Int(IntType::default())),
-- 
2.43.0


From 8975d736745d0be8540d920e37c2d8fa82d39026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 71/72] fix: showing a function with characters of several
 bytes or no body

---
 dsh/src/lisp/model/lambda.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsh/src/lisp/model/lambda.rs b/dsh/src/lisp/model/lambda.rs
index 1047cf9..63e49ab 100644
--- a/dsh/src/lisp/model/lambda.rs
+++ b/dsh/src/lisp/model/lambda.rs
@@ -41,7 +41,10 @@ impl std::fmt::Display for Lambda {
                 .map(|sym| sym.0.as_str())
                 .collect::<Vec<&str>>()
                 .join(" "),
-            &body_str[1..body_str.chars().count() - 1]
+            body_str
+                .strip_prefix('(')
+                .and_then(|body| body.strip_suffix(')'))
+                .unwrap_or_default()
         )
     }
 }
-- 
2.43.0


From a2f4fd6a0ae284f19e5d2448fb9433feda7bf121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 72/72] fix: apply evaluates its arguments twice

---
 dsh/src/lisp/default_environment.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsh/src/lisp/default_environment.rs b/dsh/src/lisp/default_environment.rs
index d94c5b6..148f2d9 100644
--- a/dsh/src/lisp/default_environment.rs
+++ b/dsh/src/lisp/default_environment.rs
@@ -507,6 +507,12 @@ pub fn default_env(environment: Arc<RwLock<Environment>>) -> Env {
             let func = require_arg("apply", &args, 0)?;
             let params = require_typed_arg::<&List>("apply", &args, 1)?;
 
+            // The values of the list are the arguments; they are not evaluated again.
+            let params = params
+                .into_iter()
+                .map(|val| lisp! { (quote {val}) })
+                .collect::<List>();
+
             eval(env, &Value::List(params.cons(func.clone())))
         }),
     );
-- 
2.43.0

