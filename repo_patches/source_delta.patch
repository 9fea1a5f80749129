From 4db6d4ea3a463b01bcf70848a5c55bd371cca16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:39 +0000
Subject: [PATCH 01/19] fix: resume a short write after the bytes already
 written

---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 4efd294..b41176f 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1026,7 +1026,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 break Ok(());
             }
 
-            match write(self.term.out_fd, buf) {
+            match write(self.term.out_fd, &buf[offset..]) {
                 Ok(0) => break Err(io::Error::from(io::ErrorKind::WriteZero)),
                 Ok(n) => offset += n,
                 Err(Errno::EINTR) => continue,
-- 
2.43.0


From a10ccd42215fa3988e061ad9d8dd25ea8cb4165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 02/19] fix: do not underflow on a mouse report with a zero
 coordinate

---
 src/unix/terminal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b41176f..b89c602 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1298,8 +1298,8 @@ fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
 
     let position = Cursor{
         // Parsed line and column begin at 1; we begin at 0
-        line: (line - 1) as usize,
-        column: (column - 1) as usize,
+        line: line.saturating_sub(1) as usize,
+        column: column.saturating_sub(1) as usize,
     };
 
     Some((MouseEvent{
-- 
2.43.0


From e99f6cfdd645952ca8f1df4c7499a96309a1123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 03/19] fix: fill the rest of a line with spaces when a wide
 character wraps

---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 020715e..6c827d8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -195,7 +195,7 @@ impl ScreenBuffer {
                 let mut pos = self.cursor;
 
                 for _ in 0..rem {
-                    self.set_cell(pos, ch);
+                    self.set_cell(pos, ' ');
                     pos.column += 1;
                 }
 
-- 
2.43.0


From d4743bb80ffbb8d064b15d0f6be34d2eb2b8af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 04/19] fix: ignore a character wider than the screen

---
 src/buffer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6c827d8..4058de8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -177,6 +177,13 @@ impl ScreenBuffer {
         } else if is_visible(ch) {
             self.try_cursor()?;
 
+            let width = char_width(ch).unwrap_or(0);
+
+            // No line of the screen can hold the character
+            if width > self.size.columns {
+                return Err(OutOfBounds(()));
+            }
+
             if let Some(prev) = self.cursor.previous(self.size) {
                 let cell = self.cell_mut(prev);
 
@@ -186,7 +193,6 @@ impl ScreenBuffer {
             }
 
             let rem = self.size.columns - self.cursor.column;
-            let width = char_width(ch).unwrap_or(0);
 
             // If insufficient space exists on the current line,
             // fill it with spaces and write the char on the next line.
-- 
2.43.0


From 0193910640e34026241cc6157d6899278e455841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 05/19] fix: attach a combining mark to the wide character
 before the cursor

---
 src/buffer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 4058de8..a01c3d8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -170,8 +170,16 @@ impl ScreenBuffer {
             self.cursor.line += 1;
             self.cursor.column = 0;
         } else if is_combining_mark(ch) {
-            if let Some(prev) = self.cursor.previous(self.size) {
+            if let Some(mut prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
+
+                // The second cell of a wide character is never drawn
+                if let Some(first) = prev.previous(self.size) {
+                    if self.cell_mut(first).is_wide() {
+                        prev = first;
+                    }
+                }
+
                 self.cell_mut(prev).text.push(ch);
             }
         } else if is_visible(ch) {
-- 
2.43.0


From 8f3ddad5038d248caf0999fbe77ba34db63e1bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 06/19] fix: redraw a cell uncovered by a removed wide
 character

---
 src/buffer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index a01c3d8..ad7d85a 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -125,6 +125,12 @@ impl ScreenBuffer {
 
                 self.back_buffer[idx] = cell.clone();
 
+                // The next cell is now covered by this one;
+                // it must be redrawn if it is uncovered later.
+                if width == 2 && idx + 1 < self.back_buffer.len() {
+                    self.back_buffer[idx + 1] = Cell::invalid();
+                }
+
                 return Some((Cursor{line, column}, cell));
             }
         }
-- 
2.43.0


From d5bd6247cbe5c202e254e6b2a7826f249b11b943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 07/19] fix: remove a wide character cut in half by a resize

---
 src/buffer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index ad7d85a..b1de32a 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -551,6 +551,11 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
                 for i in 0..n_cols {
                     swap(&mut new[i], &mut old[i]);
                 }
+
+                // A wide character may have lost its second cell
+                if n_cols != 0 && new[n_cols - 1].is_wide() {
+                    new[n_cols - 1] = Cell::default();
+                }
             }
         }
 
-- 
2.43.0


From 3ba4516d3d22e069d32a167bc1e0abff71a8c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 08/19] fix: clear attributes after styled text that leaves the
 screen

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index b1de32a..6ff47bf 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -266,10 +266,10 @@ impl ScreenBuffer {
         self.bg = bg;
         self.style = style;
 
-        self.write_str(text)?;
+        let res = self.write_str(text);
         self.clear_attributes();
 
-        Ok(())
+        res
     }
 
     pub fn write_styled_at(&mut self, pos: Cursor,
-- 
2.43.0


From ccb3db6cf518228cdbd37954e47b12068356a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 09/19] fix: do not overflow on a very long timeout

---
 src/unix/terminal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b89c602..cd08e9c 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1190,7 +1190,8 @@ fn ti_to_io(e: terminfo::Error) -> io::Error {
 }
 
 fn to_timeval(d: Duration) -> TimeVal {
-    const MAX_SECS: i64 = i64::max_value() / 1_000;
+    // `TimeVal` counts microseconds in an `i64`
+    const MAX_SECS: i64 = i64::max_value() / 1_000_000 - 1;
 
     let secs = match d.as_secs() {
         n if n > MAX_SECS as u64 => MAX_SECS,
-- 
2.43.0


From 6b53feb44d1dc62aa3a750b2b190173b67c0f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 10/19] fix: track both columns of a wide character drawn by
 refresh

---
 src/buffer.rs      | 2 +-
 src/unix/screen.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6ff47bf..cb1d0ae 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -527,7 +527,7 @@ impl Cell {
         self.text.chars().next().expect("empty cell text")
     }
 
-    fn is_wide(&self) -> bool {
+    pub fn is_wide(&self) -> bool {
         self.text.chars().next()
             .and_then(char_width).unwrap_or(0) == 2
     }
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 5597355..fa2e3f9 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -192,7 +192,7 @@ impl<'a> ScreenWriteGuard<'a> {
 
             self.apply_attrs(cell.attrs())?;
             self.writer.write_str(cell.text())?;
-            self.data.real_cursor.column += 1;
+            self.data.real_cursor.column += if cell.is_wide() { 2 } else { 1 };
         }
 
         self.writer.clear_attributes()?;
-- 
2.43.0


From 2d75012a6fcf6f0245c87aceb712c0710e23f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 11/19] fix: restore reported signals along with the previous
 configuration

---
 src/unix/terminal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index cd08e9c..bfd38d6 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -419,6 +419,8 @@ impl<'a> TerminalReadGuard<'a> {
     pub fn restore_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             state: PrepareState) -> io::Result<()> {
         self.reader.resume = state.prev_resume;
+        self.reader.report_signals = state.prev_resume
+            .map_or(SignalSet::new(), |resume| resume.config.report_signals);
 
         if state.restore_mouse {
             writer.disable_mouse()?;
-- 
2.43.0


From cae1527ce52071f2bda5f2f16340ba0323cb0882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 12/19] fix: do not overflow on a cursor at the end of the
 address space

---
 src/buffer.rs   | 4 ++--
 src/terminal.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index cb1d0ae..fe8e26f 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -59,7 +59,7 @@ impl ScreenBuffer {
     }
 
     pub fn next_line(&mut self, column: usize) {
-        self.cursor.line += 1;
+        self.cursor.line = self.cursor.line.saturating_add(1);
         self.cursor.column = column;
     }
 
@@ -173,7 +173,7 @@ impl ScreenBuffer {
         } else if ch == '\r' {
             self.cursor.column = 0;
         } else if ch == '\n' {
-            self.cursor.line += 1;
+            self.cursor.line = self.cursor.line.saturating_add(1);
             self.cursor.column = 0;
         } else if is_combining_mark(ch) {
             if let Some(mut prev) = self.cursor.previous(self.size) {
diff --git a/src/terminal.rs b/src/terminal.rs
index 8c96587..3ee3fc9 100644
--- a/src/terminal.rs
+++ b/src/terminal.rs
@@ -123,11 +123,11 @@ impl Cursor {
     #[inline]
     pub fn next(&self, size: Size) -> Option<Cursor> {
         let mut line = self.line;
-        let mut column = self.column + 1;
+        let mut column = self.column.saturating_add(1);
 
         if column >= size.columns {
             column = 0;
-            line += 1;
+            line = line.saturating_add(1);
         }
 
         if line >= size.lines {
-- 
2.43.0


From 5e789fd393b6813f4492b4a871cf13238c2e9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 13/19] fix: keep keypad and mouse modes of an outer prepare on
 an inner restore

---
 src/unix/terminal.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index bfd38d6..f19eb62 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -88,6 +88,9 @@ struct Reader {
     in_buffer: Vec<u8>,
     resume: Option<Resume>,
     report_signals: SignalSet,
+    // Terminal modes enabled by `prepare` and not yet restored
+    keypad: bool,
+    mouse: Option<MouseTracking>,
 }
 
 struct Writer {
@@ -113,6 +116,8 @@ impl Terminal {
                 in_buffer: Vec::new(),
                 resume: None,
                 report_signals: SignalSet::new(),
+                keypad: false,
+                mouse: None,
             }),
             writer: Mutex::new(Writer::new()),
         })
@@ -335,6 +340,8 @@ impl<'a> TerminalReadGuard<'a> {
             old_sigwinch: None,
             restore_keypad: false,
             restore_mouse: false,
+            prev_keypad: self.reader.keypad,
+            prev_mouse: self.reader.mouse,
             prev_resume: self.reader.resume,
         };
 
@@ -408,6 +415,16 @@ impl<'a> TerminalReadGuard<'a> {
         self.reader.report_signals = config.report_signals;
         self.reader.resume = Some(Resume{config});
 
+        if state.restore_keypad {
+            self.reader.keypad = true;
+        }
+        if state.restore_mouse {
+            let motion = state.prev_mouse.map_or(false, |mouse| mouse.motion);
+            self.reader.mouse = Some(MouseTracking{
+                motion: motion || config.always_track_motion,
+            });
+        }
+
         Ok(state)
     }
 
@@ -424,12 +441,20 @@ impl<'a> TerminalReadGuard<'a> {
 
         if state.restore_mouse {
             writer.disable_mouse()?;
+
+            // An outer `prepare` may still need it
+            if let Some(mouse) = state.prev_mouse {
+                writer.enable_mouse(mouse.motion)?;
+            }
         }
 
-        if state.restore_keypad {
+        if state.restore_keypad && !state.prev_keypad {
             writer.disable_keypad()?;
         }
 
+        self.reader.keypad = state.prev_keypad;
+        self.reader.mouse = state.prev_mouse;
+
         writer.flush()?;
 
         tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into()).map_err(nix_to_io)?;
@@ -1125,6 +1150,8 @@ pub struct PrepareState {
     old_sigwinch: Option<SigAction>,
     restore_keypad: bool,
     restore_mouse: bool,
+    prev_keypad: bool,
+    prev_mouse: Option<MouseTracking>,
     prev_resume: Option<Resume>,
 }
 
@@ -1133,6 +1160,11 @@ struct Resume {
     config: PrepareConfig,
 }
 
+#[derive(Copy, Clone, Debug)]
+struct MouseTracking {
+    motion: bool,
+}
+
 unsafe fn close_fd(fd: RawFd) {
     drop(File::from_raw_fd(fd));
 }
-- 
2.43.0


From 13aea0d8fafcd6d4296425cfa937d767eef96444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:01 +0000
Subject: [PATCH 14/19] fix: discard invalid utf-8 input once it has been
 reported

---
 src/unix/terminal.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index f19eb62..08c1266 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -623,7 +623,12 @@ impl<'a> TerminalReadGuard<'a> {
                     Ok(Some(ev))
                 }
                 Ok(None) => Ok(None),
-                Err(e) => Err(e)
+                Err(e) => {
+                    // Discard the invalid data; what follows can still be read
+                    let n = invalid_prefix_len(in_buffer);
+                    let _ = in_buffer.drain(..n);
+                    Err(e)
+                }
             }
         }
     }
@@ -1396,6 +1401,14 @@ fn utf8_prefix(buf: &[u8]) -> io::Result<&str> {
     }
 }
 
+// Returns the length of the invalid UTF-8 data at the beginning of the buffer
+fn invalid_prefix_len(buf: &[u8]) -> usize {
+    match from_utf8(buf) {
+        Err(ref e) if e.valid_up_to() == 0 => e.error_len().unwrap_or(0),
+        _ => 0
+    }
+}
+
 static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-- 
2.43.0


From c4ca7b42df7207190f2dd1c5d224bb16ba8003dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 15/19] fix: redraw the whole screen after a failed refresh

---
 src/buffer.rs      |  5 +++++
 src/unix/screen.rs | 12 ++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index fe8e26f..3146830 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -54,6 +54,11 @@ impl ScreenBuffer {
         self.size = new_size;
     }
 
+    pub fn invalidate(&mut self) {
+        // All cells will be redrawn
+        new_buffer(&mut self.back_buffer, self.size);
+    }
+
     pub fn set_cursor(&mut self, pos: Cursor) {
         self.cursor = pos;
     }
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index fa2e3f9..4c5efb6 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -178,6 +178,18 @@ impl<'a> ScreenWriteGuard<'a> {
     }
 
     pub fn refresh(&mut self) -> io::Result<()> {
+        let res = self.draw();
+
+        if res.is_err() {
+            // What the terminal shows is not known; redraw all of it next time
+            self.data.buffer.invalidate();
+            self.data.real_cursor = (!0, !0).into();
+        }
+
+        res
+    }
+
+    fn draw(&mut self) -> io::Result<()> {
         if self.data.clear_screen {
             self.writer.clear_screen()?;
             self.data.clear_screen = false;
-- 
2.43.0


From da3de9aa7b87d891ffd18f294047a827189f2cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 16/19] fix: limit terminfo parameters to what an i32 holds

---
 src/unix/terminal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 08c1266..1b8fb01 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1464,8 +1464,11 @@ fn not_supported(op: &str) -> io::Error {
 
 #[cfg(target_pointer_width = "64")]
 fn to_u32(u: usize) -> u32 {
-    if u > u32::max_value() as usize {
-        u32::max_value()
+    // Terminfo parameters are signed and may be incremented
+    const MAX: u32 = i32::max_value() as u32 - 1;
+
+    if u > MAX as usize {
+        MAX
     } else {
         u as u32
     }
-- 
2.43.0


From 5b80f91be6e325f304a59d0e4911f6c01feea3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 17/19] fix: do not take a mouse report with a missing number
 for an event

---
 src/unix/terminal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 1b8fb01..65b913a 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1359,6 +1359,8 @@ fn parse_integer(buf: &mut &[u8]) -> Option<(u32, u8)> {
                 n = n.checked_mul(10)?
                     .checked_add((b - b'0') as u32)?;
             }
+            // A number needs at least one digit
+            _ if iter.len() + 1 == buf.len() => return None,
             _ => {
                 *buf = iter.as_slice();
                 return Some((n, b));
-- 
2.43.0


From 77f8d0a2ee1d279208749f471a10c60306e70a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 18/19] Add a module for verification harnesses, behind
 cfg(mortal_verif)

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2f641d3..66f4f75 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,7 @@
 //! [`term_writeln!`]: macro.term_writeln.html
 
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 #[macro_use] extern crate bitflags;
 extern crate smallstr;
@@ -72,6 +73,14 @@ mod sys;
 #[cfg(unix)]
 pub use crate::sys::ext as unix;
 
+// Gives verification harnesses access to internals; never enabled otherwise
+#[cfg(mortal_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::buffer::{Cell, ScreenBuffer};
+    pub use crate::priv_util::*;
+}
+
 #[cfg(windows)]
 pub use sys::ext as windows;
 
-- 
2.43.0


From 0c54ccc966781fb8912d1458326e3d4fc4fc249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 19/19] fix: an inner prepare without motion tracking does not
 keep the outer one's

---
 src/unix/terminal.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 65b913a..1fc25a8 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -381,6 +381,11 @@ impl<'a> TerminalReadGuard<'a> {
         tcsetattr(self.term.in_fd, SetArg::TCSANOW, &tio).map_err(nix_to_io)?;
 
         if config.enable_mouse {
+            // An outer `prepare` may track motion when this one does not
+            if state.prev_mouse.map_or(false, |mouse| mouse.motion) && !config.always_track_motion {
+                writer.disable_mouse()?;
+            }
+
             if writer.enable_mouse(config.always_track_motion)? {
                 state.restore_mouse = true;
             }
@@ -419,9 +424,8 @@ impl<'a> TerminalReadGuard<'a> {
             self.reader.keypad = true;
         }
         if state.restore_mouse {
-            let motion = state.prev_mouse.map_or(false, |mouse| mouse.motion);
             self.reader.mouse = Some(MouseTracking{
-                motion: motion || config.always_track_motion,
+                motion: config.always_track_motion,
             });
         }
 
-- 
2.43.0

