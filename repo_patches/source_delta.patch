From 5e5398df2d11a5ab79dec51a47bfe69f59062969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 01/29] fix: continue a partial write after the bytes already
 accepted

write_data passed the whole buffer again after the device took part of it,
so output was duplicated and the loop could run past the end forever.
---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 4efd294..b41176f 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1026,7 +1026,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 break Ok(());
             }
 
-            match write(self.term.out_fd, buf) {
+            match write(self.term.out_fd, &buf[offset..]) {
                 Ok(0) => break Err(io::Error::from(io::ErrorKind::WriteZero)),
                 Ok(n) => offset += n,
                 Err(Errno::EINTR) => continue,
-- 
2.43.0


From 4e47075329cd51ae6fa7ca47aa9fe45229134229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 02/29] fix: clear attributes after styled text that does not
 fit

ScreenBuffer::write_styled returned early when the text ran past the end of
the screen, leaving its attributes set for everything written later.
---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 020715e..07afa5f 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -246,10 +246,10 @@ impl ScreenBuffer {
         self.bg = bg;
         self.style = style;
 
-        self.write_str(text)?;
+        let res = self.write_str(text);
         self.clear_attributes();
 
-        Ok(())
+        res
     }
 
     pub fn write_styled_at(&mut self, pos: Cursor,
-- 
2.43.0


From c995a1cd5e190aee05fc3e8a7e40024fc8a7c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 03/29] fix: wrap wide characters with spaces, as documented

The cells left over at the end of the line were filled with the wide
character itself, which then spilled past the edge of the screen. A character
wider than the whole screen was written past the end of its line, or past the
end of the buffer, which panics.
---
 src/buffer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 07afa5f..707697f 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -177,6 +177,13 @@ impl ScreenBuffer {
         } else if is_visible(ch) {
             self.try_cursor()?;
 
+            let width = char_width(ch).unwrap_or(0);
+
+            // A character wider than the screen can't be shown anywhere
+            if width > self.size.columns {
+                return Err(OutOfBounds(()));
+            }
+
             if let Some(prev) = self.cursor.previous(self.size) {
                 let cell = self.cell_mut(prev);
 
@@ -186,7 +193,6 @@ impl ScreenBuffer {
             }
 
             let rem = self.size.columns - self.cursor.column;
-            let width = char_width(ch).unwrap_or(0);
 
             // If insufficient space exists on the current line,
             // fill it with spaces and write the char on the next line.
@@ -195,7 +201,7 @@ impl ScreenBuffer {
                 let mut pos = self.cursor;
 
                 for _ in 0..rem {
-                    self.set_cell(pos, ch);
+                    self.set_cell(pos, ' ');
                     pos.column += 1;
                 }
 
-- 
2.43.0


From dae9e139143a8a17311043407aafaa40f558266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 04/29] fix: give spacing combining marks their own cell

Marks whose width is not zero advance the terminal's cursor, but were appended
to the previous cell as though they did not.
---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 707697f..578c51f 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -169,7 +169,7 @@ impl ScreenBuffer {
         } else if ch == '\n' {
             self.cursor.line += 1;
             self.cursor.column = 0;
-        } else if is_combining_mark(ch) {
+        } else if is_combining_mark(ch) && char_width(ch).unwrap_or(0) == 0 {
             if let Some(prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
                 self.cell_mut(prev).text.push(ch);
-- 
2.43.0


From cc47364ce4a0c18dbd22cc0f222e7dfc6180a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 05/29] fix: attach combining marks to the wide character they
 follow

The mark was appended to the hidden second cell of the wide character and
never shown. Looking for the character which covers a cell also handles the
characters which are three columns wide.
---
 src/buffer.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 578c51f..6d12c3c 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -9,6 +9,9 @@ use crate::util::{char_width, is_combining_mark};
 
 const TAB_STOP: usize = 8;
 
+// Greatest possible value of `char_width`
+const MAX_CHAR_WIDTH: usize = 3;
+
 pub struct ScreenBuffer {
     buffer: Vec<Cell>,
     back_buffer: Vec<Cell>,
@@ -172,7 +175,8 @@ impl ScreenBuffer {
         } else if is_combining_mark(ch) && char_width(ch).unwrap_or(0) == 0 {
             if let Some(prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
-                self.cell_mut(prev).text.push(ch);
+                let pos = self.char_at(prev);
+                self.cell_mut(pos).text.push(ch);
             }
         } else if is_visible(ch) {
             self.try_cursor()?;
@@ -184,12 +188,10 @@ impl ScreenBuffer {
                 return Err(OutOfBounds(()));
             }
 
-            if let Some(prev) = self.cursor.previous(self.size) {
-                let cell = self.cell_mut(prev);
+            let pos = self.char_at(self.cursor);
 
-                if cell.is_wide() {
-                    *cell = Cell::default();
-                }
+            if pos != self.cursor {
+                *self.cell_mut(pos) = Cell::default();
             }
 
             let rem = self.size.columns - self.cursor.column;
@@ -267,6 +269,15 @@ impl ScreenBuffer {
         self.write_styled(fg, bg, style, text)
     }
 
+    /// Returns the position of the character which covers the given cell;
+    /// this is different from `pos` when a wide character precedes it.
+    fn char_at(&self, pos: Cursor) -> Cursor {
+        (0..pos.column).rev().take(MAX_CHAR_WIDTH - 1)
+            .map(|column| Cursor{column, .. pos})
+            .find(|&c| self.buffer[c.as_index(self.size)].width() > pos.column - c.column)
+            .unwrap_or(pos)
+    }
+
     fn try_cursor(&self) -> Result<(), OutOfBounds> {
         self.try_cursor_at(self.cursor)
     }
@@ -513,9 +524,9 @@ impl Cell {
         self.text.chars().next().expect("empty cell text")
     }
 
-    fn is_wide(&self) -> bool {
+    pub fn width(&self) -> usize {
         self.text.chars().next()
-            .and_then(char_width).unwrap_or(0) == 2
+            .and_then(char_width).unwrap_or(0)
     }
 }
 
-- 
2.43.0


From 92bc15bf0fcbe4702305026bdfa5d81b4a0b4e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 06/29] fix: redraw cells uncovered by replacing a wide
 character

The cells covered by a wide character kept their previous content in the back
buffer, so that they were not redrawn when the wide character was replaced by
a narrow one.
---
 src/buffer.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6d12c3c..34beace 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -112,12 +112,12 @@ impl ScreenBuffer {
     // interefere with Screen implementations calling `&mut self` methods.
     pub fn next_cell(&mut self, indices: &mut Range<usize>) -> Option<(Cursor, Cell)> {
         while let Some(idx) = indices.next() {
-            let first = self.buffer[idx].first_char();
-            let width = char_width(first).unwrap_or(0);
-
             // Skip cells overlapped by wide characters
-            if width == 2 {
-                let _ = indices.next();
+            for _ in 1..self.buffer[idx].width() {
+                if let Some(idx) = indices.next() {
+                    // These must be redrawn if they become visible
+                    self.back_buffer[idx] = Cell::invalid();
+                }
             }
 
             if self.buffer[idx] != self.back_buffer[idx] {
@@ -520,10 +520,6 @@ impl Cell {
         &self.text
     }
 
-    fn first_char(&self) -> char {
-        self.text.chars().next().expect("empty cell text")
-    }
-
     pub fn width(&self) -> usize {
         self.text.chars().next()
             .and_then(char_width).unwrap_or(0)
-- 
2.43.0


From 3c260a5df5bdec20516748c7642d506d3a830175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 07/29] fix: account for the width of characters when tracking
 the cursor

The cell after a wide character was believed to be under the cursor one
column too early, and was drawn at the wrong place.
---
 src/unix/screen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 5597355..9d10970 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -192,7 +192,7 @@ impl<'a> ScreenWriteGuard<'a> {
 
             self.apply_attrs(cell.attrs())?;
             self.writer.write_str(cell.text())?;
-            self.data.real_cursor.column += 1;
+            self.data.real_cursor.column += cell.width();
         }
 
         self.writer.clear_attributes()?;
-- 
2.43.0


From 73d4e9d2ffeadfb866a71f03cd54ca72628c949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:51 +0000
Subject: [PATCH 08/29] fix: drop wide characters cut off by a narrower screen

A wide character left in the last column is drawn past the end of the line.
---
 src/buffer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 34beace..3c8e01c 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -542,7 +542,10 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
             for (old, new) in buf.chunks_mut(old.columns)
                     .zip(new_buf.chunks_mut(new.columns)) {
                 for i in 0..n_cols {
-                    swap(&mut new[i], &mut old[i]);
+                    // Omit a wide character which no longer fits
+                    if i + old[i].width() <= new.len() {
+                        swap(&mut new[i], &mut old[i]);
+                    }
                 }
             }
         }
-- 
2.43.0


From 7b9af9068186e53f66a187fad57d2d7b8091d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 09/29] fix: don't print terminfo padding specifications

On terminals whose description contains delays, such as vt100, every control
sequence was followed by a literal "$<5>" on the screen.
---
 src/unix/terminal.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b41176f..70bbe12 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1039,10 +1039,15 @@ impl<'a> TerminalWriteGuard<'a> {
 
     fn expand<T: AsRef<[u8]>>(&mut self, exp: Expansion<T>) -> io::Result<()> {
         let writer = &mut *self.writer;
+        let start = writer.out_buffer.len();
+
         exp
             .with(&mut writer.context)
             .to(&mut writer.out_buffer)
-            .map_err(ti_to_io)
+            .map_err(ti_to_io)?;
+
+        strip_padding(&mut writer.out_buffer, start);
+        Ok(())
     }
 }
 
@@ -1066,6 +1071,24 @@ impl Writer {
     }
 }
 
+/// Removes padding specifications, e.g. `$<5>`, from a terminfo string placed
+/// at `start`. They are directions to pause output and must not be printed.
+fn strip_padding(buf: &mut Vec<u8>, mut start: usize) {
+    while let Some(n) = buf[start..].windows(2).position(|w| w == b"$<") {
+        start += n;
+
+        let arg = &buf[start + 2..];
+        let len = arg.iter()
+            .take_while(|&&b| b.is_ascii_digit() || b".*/".contains(&b)).count();
+
+        if len != 0 && arg.get(len) == Some(&b'>') {
+            buf.drain(start..start + len + 3);
+        } else {
+            start += 2;
+        }
+    }
+}
+
 fn is_xterm(name: &str) -> bool {
     // Includes such terminal names as "xterm-256color"
     name == "xterm" || name.starts_with("xterm-")
-- 
2.43.0


From 5c58296f7dbf30cc8b062df494654354d82d44ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 10/29] fix: keep other attributes when removing underline or
 italics

Many terminals, such as vt100 and ansi, leave underline mode with a sequence
that resets all attributes; others have none at all. Treat these like bold and
reverse, by resetting and restoring what remains.
---
 src/unix/terminal.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 70bbe12..fc8c7c0 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -804,8 +804,7 @@ impl<'a> TerminalWriteGuard<'a> {
     pub fn remove_style(&mut self, style: Style) -> io::Result<()> {
         let remove = style & self.writer.cur_style;
 
-        if remove.intersects(Style::BOLD | Style::REVERSE) {
-            // terminfo does not contain entries to remove bold or reverse.
+        if !self.can_remove_style(remove) {
             // Instead, we must reset all attributes.
             let new_style = self.writer.cur_style - remove;
             let fg = self.writer.fg;
@@ -832,8 +831,7 @@ impl<'a> TerminalWriteGuard<'a> {
         let add = style - self.writer.cur_style;
         let remove = self.writer.cur_style - style;
 
-        if remove.intersects(Style::BOLD | Style::REVERSE) {
-            // terminfo does not contain entries to remove bold or reverse.
+        if !self.can_remove_style(remove) {
             // Instead, we must reset all attributes.
             let fg = self.writer.fg;
             let bg = self.writer.bg;
@@ -849,6 +847,22 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
+    /// Returns whether the terminal can remove the given style
+    /// without affecting any other attributes.
+    fn can_remove_style(&self, style: Style) -> bool {
+        // terminfo does not contain entries to remove bold or reverse.
+        if style.intersects(Style::BOLD | Style::REVERSE) {
+            return false;
+        }
+
+        let info = &self.term.info;
+
+        (!style.contains(Style::ITALIC) || info.get::<cap::ExitItalicsMode>()
+                .map_or(false, |cap| !resets_attributes(cap.as_ref()))) &&
+            (!style.contains(Style::UNDERLINE) || info.get::<cap::ExitUnderlineMode>()
+                .map_or(false, |cap| !resets_attributes(cap.as_ref())))
+    }
+
     pub fn set_theme(&mut self, theme: Theme) -> io::Result<()> {
         self.set_attrs(theme.fg, theme.bg, theme.style)
     }
@@ -1071,6 +1085,12 @@ impl Writer {
     }
 }
 
+/// Returns whether a terminfo string used to remove one style
+/// is a sequence which resets all attributes.
+fn resets_attributes(seq: &[u8]) -> bool {
+    seq.starts_with(b"\x1b[m") || seq.starts_with(b"\x1b[0m")
+}
+
 /// Removes padding specifications, e.g. `$<5>`, from a terminfo string placed
 /// at `start`. They are directions to pause output and must not be printed.
 fn strip_padding(buf: &mut Vec<u8>, mut start: usize) {
-- 
2.43.0


From a1f6e1450f184024a52eef0c0f46f9a02df07cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 11/29] fix: don't scroll when moving up from the first line

The terminfo string for moving up by one is "reverse index" on screen and
tmux, which scrolls the whole screen down when the cursor is at the top.
---
 src/unix/terminal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index fc8c7c0..ad8254e 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -921,7 +921,11 @@ impl<'a> TerminalWriteGuard<'a> {
     }
 
     pub fn move_up(&mut self, n: usize) -> io::Result<()> {
-        if n == 1 {
+        // Prefer ParmUpCursor because CursorUp may be "reverse index",
+        // which scrolls the screen from the first line.
+        let parm = self.term.info.get::<cap::ParmUpCursor>().is_some();
+
+        if n == 1 && !parm {
             expand_req!(self, cap::CursorUp, "cursor_up")?;
         } else if n != 0 {
             expand_req!(self, cap::ParmUpCursor, "parm_cursor_up",
-- 
2.43.0


From f72f7e86cffe2572a979df7bd2fc10b10eb7b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 12/29] fix: limit terminfo parameters to the range of i32

A cursor movement by more than i32::MAX was sent as a negative number.
---
 src/unix/terminal.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index ad8254e..5644382 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1461,16 +1461,7 @@ fn not_supported(op: &str) -> io::Error {
         format!("operation not supported: {}", op))
 }
 
-#[cfg(target_pointer_width = "64")]
+// terminfo parameters are signed; greater values would become negative
 fn to_u32(u: usize) -> u32 {
-    if u > u32::max_value() as usize {
-        u32::max_value()
-    } else {
-        u as u32
-    }
-}
-
-#[cfg(any(target_pointer_width = "16", target_pointer_width = "32"))]
-fn to_u32(u: usize) -> u32 {
-    u as u32
+    u.min(i32::max_value() as usize) as u32
 }
-- 
2.43.0


From e70292520f7a84ed708517ce31c9a2d225fd4602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 13/29] fix: don't panic on a mouse report with a zero
 coordinate

Such a report is malformed; without overflow checks it yielded a position
of u32::MAX.
---
 src/unix/terminal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5644382..30f0184 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1345,8 +1345,8 @@ fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
 
     let position = Cursor{
         // Parsed line and column begin at 1; we begin at 0
-        line: (line - 1) as usize,
-        column: (column - 1) as usize,
+        line: line.checked_sub(1)? as usize,
+        column: column.checked_sub(1)? as usize,
     };
 
     Some((MouseEvent{
-- 
2.43.0


From 652bdc2dffa55929dc07edc9c8503230356a2964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 14/29] fix: skip invalid UTF-8 input after reporting it

The invalid bytes stayed at the front of the buffer, so that every later call
to read_event or wait_event failed and no further input could be read.
---
 src/unix/terminal.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 30f0184..14ef83a 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -458,8 +458,10 @@ impl<'a> TerminalReadGuard<'a> {
             return Ok(true);
         }
 
-        if peek_event(&self.reader.in_buffer, &self.term.sequences)?.is_some() {
-            return Ok(true);
+        match peek_event(&self.reader.in_buffer, &self.term.sequences) {
+            Ok(None) => (),
+            // An error will be reported and its cause skipped by `read_event`
+            Ok(Some(_)) | Err(_) => return Ok(true)
         }
 
         let mut timeout = timeout.map(to_timeval);
@@ -596,7 +598,12 @@ impl<'a> TerminalReadGuard<'a> {
                     Ok(Some(ev))
                 }
                 Ok(None) => Ok(None),
-                Err(e) => Err(e)
+                Err(e) => {
+                    // Skip invalid input once it has been reported
+                    let n = invalid_prefix_len(in_buffer);
+                    let _ = in_buffer.drain(..n);
+                    Err(e)
+                }
             }
         }
     }
@@ -1408,6 +1415,15 @@ fn utf8_prefix(buf: &[u8]) -> io::Result<&str> {
     }
 }
 
+/// Returns the number of bytes at the beginning of `buf` which cannot be
+/// part of valid UTF-8 text.
+fn invalid_prefix_len(buf: &[u8]) -> usize {
+    match from_utf8(buf) {
+        Err(ref e) if e.valid_up_to() == 0 => e.error_len().unwrap_or(0),
+        _ => 0
+    }
+}
+
 static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-- 
2.43.0


From bf2431d536ba9d60363e96232c12b5bdb86a6c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 15/29] fix: don't panic on very long timeouts

Converting a timeout such as Duration::MAX exceeded the range of TimeVal.
---
 src/unix/terminal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 14ef83a..3ecf6d3 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1244,7 +1244,8 @@ fn ti_to_io(e: terminfo::Error) -> io::Error {
 }
 
 fn to_timeval(d: Duration) -> TimeVal {
-    const MAX_SECS: i64 = i64::max_value() / 1_000;
+    // Long enough, and within the range supported by TimeVal and the system
+    const MAX_SECS: i64 = i32::max_value() as i64;
 
     let secs = match d.as_secs() {
         n if n > MAX_SECS as u64 => MAX_SECS,
-- 
2.43.0


From 0b56d70688c083f06af9b2a22d7b01cc7164f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 16/29] fix: report all signals received before a read

Only the last signal was remembered, so that for instance a window size
change followed by SIGCONT went unnoticed.
---
 src/unix/terminal.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 3ecf6d3..8ab7ca9 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1425,10 +1425,11 @@ fn invalid_prefix_len(buf: &[u8]) -> usize {
     }
 }
 
-static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
+// Signals received, but not yet handled; contains one bit per signal number
+static PENDING_SIGNALS: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-    LAST_SIGNAL.store(signum as usize, Ordering::Relaxed);
+    PENDING_SIGNALS.fetch_or(1 << signum, Ordering::Relaxed);
 }
 
 fn conv_signal(sig: c_int) -> Option<Signal> {
@@ -1443,11 +1444,19 @@ fn conv_signal(sig: c_int) -> Option<Signal> {
 }
 
 fn get_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.load(Ordering::Relaxed) as c_int)
+    conv_signal(PENDING_SIGNALS.load(Ordering::Relaxed).trailing_zeros() as c_int)
 }
 
 fn take_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.swap(0, Ordering::Relaxed) as c_int)
+    loop {
+        let signum = PENDING_SIGNALS.load(Ordering::Relaxed).trailing_zeros();
+        let sig = conv_signal(signum as c_int)?;
+
+        // Try again if another thread has taken it
+        if PENDING_SIGNALS.fetch_and(!(1 << signum), Ordering::Relaxed) & (1 << signum) != 0 {
+            return Some(sig);
+        }
+    }
 }
 
 fn ascii_str(s: &[u8]) -> Option<&str> {
-- 
2.43.0


From 727608dcd76b0c35a97a674ea4db6e9bb6fe8e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 17/29] fix: wake a waiting reader for a signal arriving just
 before the wait

A signal handled between the check for pending signals and the call to select
did not interrupt the wait, and was not noticed until input arrived or the
timeout elapsed. Block signals and let pselect unblock them atomically.
---
 src/unix/terminal.rs | 65 +++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 8ab7ca9..f81ba36 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -7,7 +7,7 @@ use std::path::Path;
 use std::str::from_utf8;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use libc::{
     ioctl,
@@ -16,16 +16,16 @@ use libc::{
 };
 
 use nix::errno::Errno;
-use nix::sys::select::{select, FdSet};
+use nix::sys::select::{pselect, FdSet};
 use nix::sys::signal::{
     sigaction,
-    SaFlags, SigAction, SigHandler, Signal as NixSignal, SigSet,
+    SaFlags, SigAction, SigHandler, Signal as NixSignal, SigmaskHow, SigSet,
 };
 use nix::sys::termios::{
     tcgetattr, tcsetattr,
     SetArg, InputFlags, LocalFlags,
 };
-use nix::sys::time::{TimeVal, TimeValLike};
+use nix::sys::time::TimeSpec;
 use nix::unistd::{read, write};
 
 use smallstr::SmallString;
@@ -454,6 +454,10 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     pub fn wait_event(&mut self, timeout: Option<Duration>) -> io::Result<bool> {
+        // Signals received from here on are delivered during `pselect`;
+        // otherwise, one arriving just before the wait would not interrupt it.
+        let blocked = BlockSignals::new()?;
+
         if get_signal().is_some() {
             return Ok(true);
         }
@@ -464,9 +468,13 @@ impl<'a> TerminalReadGuard<'a> {
             Ok(Some(_)) | Err(_) => return Ok(true)
         }
 
-        let mut timeout = timeout.map(to_timeval);
+        // When there is no deadline, wait indefinitely
+        let deadline = timeout.and_then(|t| Instant::now().checked_add(t));
 
         let n = loop {
+            let timeout = deadline.map(|d| to_timespec(
+                d.saturating_duration_since(Instant::now())));
+
             let in_fd = self.term.in_fd;
 
             let mut r_fds = FdSet::new();
@@ -476,8 +484,9 @@ impl<'a> TerminalReadGuard<'a> {
             let mut e_fds = FdSet::new();
             e_fds.insert(in_fd);
 
-            match select(in_fd + 1,
-                    Some(&mut r_fds), None, Some(&mut e_fds), timeout.as_mut()) {
+            match pselect(in_fd + 1,
+                    Some(&mut r_fds), None, Some(&mut e_fds),
+                    timeout.as_ref(), Some(&blocked.old_mask)) {
                 Ok(n) => break n,
                 Err(Errno::EINTR) =>
                     if get_signal().is_some() {
@@ -1243,18 +1252,9 @@ fn ti_to_io(e: terminfo::Error) -> io::Error {
     }
 }
 
-fn to_timeval(d: Duration) -> TimeVal {
-    // Long enough, and within the range supported by TimeVal and the system
-    const MAX_SECS: i64 = i32::max_value() as i64;
-
-    let secs = match d.as_secs() {
-        n if n > MAX_SECS as u64 => MAX_SECS,
-        n => n as i64,
-    };
-
-    let millis = d.subsec_millis() as i64;
-
-    TimeVal::milliseconds(secs * 1_000 + millis)
+fn to_timespec(d: Duration) -> TimeSpec {
+    // Long enough, and within the range supported by the system
+    TimeSpec::from_duration(d.min(Duration::from_secs(i32::max_value() as u64)))
 }
 
 fn peek_event(buf: &[u8], sequences: &SeqMap)
@@ -1432,6 +1432,33 @@ extern "C" fn handle_signal(signum: c_int) {
     PENDING_SIGNALS.fetch_or(1 << signum, Ordering::Relaxed);
 }
 
+/// Blocks delivery of signals to the current thread until dropped
+struct BlockSignals {
+    old_mask: SigSet,
+}
+
+impl BlockSignals {
+    fn new() -> io::Result<BlockSignals> {
+        let mut mask = SigSet::empty();
+
+        mask.add(NixSignal::SIGCONT);
+        mask.add(NixSignal::SIGINT);
+        mask.add(NixSignal::SIGQUIT);
+        mask.add(NixSignal::SIGTSTP);
+        mask.add(NixSignal::SIGWINCH);
+
+        let old_mask = mask.thread_swap_mask(SigmaskHow::SIG_BLOCK).map_err(nix_to_io)?;
+
+        Ok(BlockSignals{old_mask})
+    }
+}
+
+impl Drop for BlockSignals {
+    fn drop(&mut self) {
+        let _ = self.old_mask.thread_set_mask();
+    }
+}
+
 fn conv_signal(sig: c_int) -> Option<Signal> {
     match NixSignal::try_from(sig).ok() {
         Some(NixSignal::SIGCONT)  => Some(Signal::Continue),
-- 
2.43.0


From 159d18890b655d7addbef38b1fb560818379e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 18/29] fix: restore the outer configuration after a nested
 prepare

The set of reported signals remained that of the inner prepare, and mouse and
keypad modes were switched off even when an outer prepare had enabled them.
---
 src/unix/terminal.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index f81ba36..587d985 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -336,6 +336,7 @@ impl<'a> TerminalReadGuard<'a> {
             restore_keypad: false,
             restore_mouse: false,
             prev_resume: self.reader.resume,
+            prev_report_signals: self.reader.report_signals,
         };
 
         tio.input_flags.remove(
@@ -406,7 +407,7 @@ impl<'a> TerminalReadGuard<'a> {
         }
 
         self.reader.report_signals = config.report_signals;
-        self.reader.resume = Some(Resume{config});
+        self.reader.resume = Some(Resume{config: config.nested(state.prev_resume)});
 
         Ok(state)
     }
@@ -419,12 +420,24 @@ impl<'a> TerminalReadGuard<'a> {
     pub fn restore_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             state: PrepareState) -> io::Result<()> {
         self.reader.resume = state.prev_resume;
+        self.reader.report_signals = state.prev_report_signals;
+
+        // Modes enabled by a previous `prepare` remain in effect
+        let prev = state.prev_resume.map(|resume| resume.config);
 
         if state.restore_mouse {
             writer.disable_mouse()?;
         }
 
-        if state.restore_keypad {
+        if let Some(ref prev) = prev {
+            if prev.enable_mouse {
+                writer.enable_mouse(prev.always_track_motion)?;
+            }
+        }
+
+        if prev.map_or(false, |prev| prev.enable_keypad) {
+            writer.enable_keypad()?;
+        } else if state.restore_keypad {
             writer.disable_keypad()?;
         }
 
@@ -1187,6 +1200,7 @@ pub struct PrepareState {
     restore_keypad: bool,
     restore_mouse: bool,
     prev_resume: Option<Resume>,
+    prev_report_signals: SignalSet,
 }
 
 #[derive(Copy, Clone, Debug)]
@@ -1194,6 +1208,20 @@ struct Resume {
     config: PrepareConfig,
 }
 
+impl PrepareConfig {
+    /// Adds the modes which are still enabled by a previous `prepare`.
+    fn nested(mut self, prev: Option<Resume>) -> PrepareConfig {
+        if let Some(Resume{config: prev}) = prev {
+            self.always_track_motion = (self.enable_mouse && self.always_track_motion) ||
+                (prev.enable_mouse && prev.always_track_motion);
+            self.enable_mouse |= prev.enable_mouse;
+            self.enable_keypad |= prev.enable_keypad;
+        }
+
+        self
+    }
+}
+
 unsafe fn close_fd(fd: RawFd) {
     drop(File::from_raw_fd(fd));
 }
-- 
2.43.0


From bb60f34877370f7f28d3d5ef494fc88b41b57fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 19/29] fix: undo a partial prepare when it fails

When setting up modes or signal handlers failed after the line settings had
been changed, the terminal was left in raw mode with no way to restore it.
Likewise, restore gave up halfway on a write error, and Screen did not leave
the alternate screen then.
---
 src/unix/screen.rs   |  4 ++-
 src/unix/terminal.rs | 74 +++++++++++++++++++++++++++-----------------
 2 files changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 9d10970..71d3fc0 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -129,7 +129,9 @@ impl Drop for Screen {
             Ok(())
         };
 
-        if let Err(e) = res.and_then(|_| self.term.exit_screen()) {
+        let exit = self.term.exit_screen();
+
+        if let Err(e) = res.and(exit) {
             eprintln!("failed to restore terminal: {}", e);
         }
     }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 587d985..1388163 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -374,10 +374,23 @@ impl<'a> TerminalReadGuard<'a> {
 
         tcsetattr(self.term.in_fd, SetArg::TCSANOW, &tio).map_err(nix_to_io)?;
 
+        if let Err(e) = self.prepare_modes(writer, &config, &mut state) {
+            // Undo whatever has been done so far
+            let _ = self.restore_with_lock(writer, state);
+            return Err(e);
+        }
+
+        self.reader.report_signals = config.report_signals;
+        self.reader.resume = Some(Resume{config: config.nested(state.prev_resume)});
+
+        Ok(state)
+    }
+
+    fn prepare_modes(&mut self, writer: &mut TerminalWriteGuard,
+            config: &PrepareConfig, state: &mut PrepareState) -> io::Result<()> {
         if config.enable_mouse {
-            if writer.enable_mouse(config.always_track_motion)? {
-                state.restore_mouse = true;
-            }
+            state.restore_mouse = self.term.is_xterm();
+            writer.enable_mouse(config.always_track_motion)?;
         }
 
         if config.enable_keypad {
@@ -406,10 +419,7 @@ impl<'a> TerminalReadGuard<'a> {
             state.old_sigquit = Some(unsafe { sigaction(NixSignal::SIGQUIT, &action).map_err(nix_to_io)? });
         }
 
-        self.reader.report_signals = config.report_signals;
-        self.reader.resume = Some(Resume{config: config.nested(state.prev_resume)});
-
-        Ok(state)
+        Ok(())
     }
 
     pub fn restore(&mut self, state: PrepareState) -> io::Result<()> {
@@ -422,6 +432,34 @@ impl<'a> TerminalReadGuard<'a> {
         self.reader.resume = state.prev_resume;
         self.reader.report_signals = state.prev_report_signals;
 
+        // Restore as much as possible, even if some part of it fails
+        let modes = self.restore_modes(writer, &state);
+        let flush = writer.flush();
+        let tio = tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into())
+            .map_err(nix_to_io);
+
+        let mut res = modes.and(flush).and(tio);
+
+        let actions = [
+            (NixSignal::SIGCONT, state.old_sigcont),
+            (NixSignal::SIGINT, state.old_sigint),
+            (NixSignal::SIGTSTP, state.old_sigtstp),
+            (NixSignal::SIGQUIT, state.old_sigquit),
+            (NixSignal::SIGWINCH, state.old_sigwinch),
+        ];
+
+        for (sig, old) in &actions {
+            if let Some(ref old) = *old {
+                let r = unsafe { sigaction(*sig, old).map_err(nix_to_io) };
+                res = res.and(r.map(|_| ()));
+            }
+        }
+
+        res
+    }
+
+    fn restore_modes(&mut self, writer: &mut TerminalWriteGuard,
+            state: &PrepareState) -> io::Result<()> {
         // Modes enabled by a previous `prepare` remain in effect
         let prev = state.prev_resume.map(|resume| resume.config);
 
@@ -441,28 +479,6 @@ impl<'a> TerminalReadGuard<'a> {
             writer.disable_keypad()?;
         }
 
-        writer.flush()?;
-
-        tcsetattr(self.term.in_fd, SetArg::TCSANOW, &state.old_tio.into()).map_err(nix_to_io)?;
-
-        unsafe {
-            if let Some(ref old) = state.old_sigcont {
-                sigaction(NixSignal::SIGCONT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigint {
-                sigaction(NixSignal::SIGINT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigtstp {
-                sigaction(NixSignal::SIGTSTP, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigquit {
-                sigaction(NixSignal::SIGQUIT, old).map_err(nix_to_io)?;
-            }
-            if let Some(ref old) = state.old_sigwinch {
-                sigaction(NixSignal::SIGWINCH, old).map_err(nix_to_io)?;
-            }
-        }
-
         Ok(())
     }
 
-- 
2.43.0


From 5b9a1db4c4b2799ce24e22f42feef1cefa24b91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 20/29] fix: restore the terminal after a panic with a guard
 held

Dropping a Screen or Terminal whose lock was poisoned panicked again. While
unwinding, this aborted the process and left the terminal in raw mode.
---
 src/unix/screen.rs   | 14 ++++++++++----
 src/unix/terminal.rs | 10 +++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 71d3fc0..e984418 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -1,5 +1,5 @@
 use std::io;
-use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
+use std::sync::{LockResult, Mutex, MutexGuard, PoisonError, TryLockResult};
 use std::time::Duration;
 
 use crate::buffer::ScreenBuffer;
@@ -123,13 +123,19 @@ impl Screen {
 
 impl Drop for Screen {
     fn drop(&mut self) {
-        let res = if let Some(state) = self.state.take() {
-            self.term.restore(state)
+        let state = self.state.take();
+
+        // A panic while holding a guard must not prevent this
+        let mut reader = self.term.lock_read().unwrap_or_else(PoisonError::into_inner);
+        let mut writer = self.term.lock_write().unwrap_or_else(PoisonError::into_inner);
+
+        let res = if let Some(state) = state {
+            reader.restore_with_lock(&mut writer, state)
         } else {
             Ok(())
         };
 
-        let exit = self.term.exit_screen();
+        let exit = writer.exit_screen();
 
         if let Err(e) = res.and(exit) {
             eprintln!("failed to restore terminal: {}", e);
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 1388163..1fb4088 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -6,7 +6,7 @@ use std::os::unix::io::{FromRawFd, IntoRawFd, RawFd};
 use std::path::Path;
 use std::str::from_utf8;
 use std::sync::atomic::{AtomicUsize, Ordering};
-use std::sync::{LockResult, Mutex, MutexGuard, TryLockResult};
+use std::sync::{LockResult, Mutex, MutexGuard, PoisonError, TryLockResult};
 use std::time::{Duration, Instant};
 
 use libc::{
@@ -299,7 +299,11 @@ impl Terminal {
 
 impl Drop for Terminal {
     fn drop(&mut self) {
-        if let Err(e) = self.set_cursor_mode(CursorMode::Normal) {
+        // A panic while writing must not prevent this
+        let res = self.lock_write().unwrap_or_else(PoisonError::into_inner)
+            .set_cursor_mode(CursorMode::Normal);
+
+        if let Err(e) = res {
             eprintln!("failed to restore terminal: {}", e);
         }
 
@@ -774,7 +778,7 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
-    fn exit_screen(&mut self) -> io::Result<()> {
+    pub fn exit_screen(&mut self) -> io::Result<()> {
         if let Some(exit) = self.term.info.get::<cap::ExitCaMode>() {
             self.expand(exit.expand())?;
             self.flush()?;
-- 
2.43.0


From 1c3fb8ebcf6f6f2a4ba9af5dab2d07067142a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 21/29] fix: don't break up an input sequence at the end of a
 read

When more input had piled up than fits into one read, a key sequence or mouse
report at the end of the buffer was taken apart into single characters,
although the remainder of it was available.
---
 src/unix/terminal.rs | 65 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 1fb4088..2d6f455 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -16,6 +16,7 @@ use libc::{
 };
 
 use nix::errno::Errno;
+use nix::poll::{poll, PollFd, PollFlags};
 use nix::sys::select::{pselect, FdSet};
 use nix::sys::signal::{
     sigaction,
@@ -45,6 +46,9 @@ use crate::util::prefixes;
 
 const OUT_BUFFER_SIZE: usize = 8192;
 
+// Limit of input read to complete a sequence
+const MAX_SEQUENCE_LEN: usize = 128;
+
 const XTERM_ENABLE_MOUSE: &str = "\x1b[?1006h\x1b[?1002h";
 const XTERM_DISABLE_MOUSE: &str = "\x1b[?1006l\x1b[?1002l";
 const XTERM_ENABLE_MOUSE_MOTION: &str = "\x1b[?1003h";
@@ -534,12 +538,17 @@ impl<'a> TerminalReadGuard<'a> {
     }
 
     pub fn read_event(&mut self, timeout: Option<Duration>) -> io::Result<Option<Event>> {
+        self.complete_sequence()?;
+
         if let Some(ev) = self.try_read()? {
             return Ok(Some(ev));
         }
 
         match self.read_into_buffer(timeout)? {
-            Some(Event::Raw(_)) => self.try_read(),
+            Some(Event::Raw(_)) => {
+                self.complete_sequence()?;
+                self.try_read()
+            }
             Some(Event::Signal(sig)) => {
                 if let Some(ev) = self.handle_signal(sig)? {
                     Ok(Some(ev))
@@ -628,6 +637,34 @@ impl<'a> TerminalReadGuard<'a> {
         }
     }
 
+    /// If the buffer ends within an input sequence, reads the remainder of it,
+    /// as far as it is available. A sequence may be split by the limited size
+    /// of a read.
+    fn complete_sequence(&mut self) -> io::Result<()> {
+        while self.reader.in_buffer.len() < MAX_SEQUENCE_LEN &&
+                is_partial_input(&self.reader.in_buffer, &self.term.sequences) {
+            let mut fds = [PollFd::new(self.term.in_fd, PollFlags::POLLIN)];
+
+            match poll(&mut fds, 0) {
+                Ok(0) => break,
+                Ok(_) => (),
+                Err(Errno::EINTR) => continue,
+                Err(e) => return Err(nix_to_io(e))
+            }
+
+            let mut buf = [0; 128];
+
+            match read(self.term.in_fd, &mut buf) {
+                Ok(0) => break,
+                Ok(n) => self.reader.in_buffer.extend(&buf[..n]),
+                Err(Errno::EINTR) => continue,
+                Err(e) => return Err(nix_to_io(e))
+            }
+        }
+
+        Ok(())
+    }
+
     fn try_read(&mut self) -> io::Result<Option<Event>> {
         let in_buffer = &mut self.reader.in_buffer;
 
@@ -1355,6 +1392,32 @@ fn peek_event(buf: &[u8], sequences: &SeqMap)
     Ok(Some((res, n)))
 }
 
+/// Returns whether `buf` consists of the beginning of an input sequence
+/// or character, which further input may complete.
+fn is_partial_input(buf: &[u8], sequences: &SeqMap) -> bool {
+    let s = match from_utf8(buf) {
+        Ok(s) => s,
+        // An incomplete character
+        Err(ref e) => return e.valid_up_to() == 0 && e.error_len().is_none()
+    };
+
+    match sequences.find(s) {
+        FindResult::Incomplete | FindResult::Undecided(_) => !s.is_empty(),
+        FindResult::Found(_) | FindResult::NotFound => {
+            // Parameters of a mouse report
+            is_xterm_mouse(sequences) && s.starts_with(XTERM_MOUSE_INTRO) &&
+                s[XTERM_MOUSE_INTRO.len()..].bytes().all(|b| b.is_ascii_digit() || b == b';')
+        }
+    }
+}
+
+fn is_xterm_mouse(sequences: &SeqMap) -> bool {
+    match sequences.get(XTERM_MOUSE_INTRO) {
+        Some(SeqData::XTermMouse) => true,
+        _ => false
+    }
+}
+
 fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
     let orig_len = buf.len();
 
-- 
2.43.0


From 620ea0c138742e9a8f3bd1e12653ca8fb29dd9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 22/29] fix: redraw a cell whose text a failed refresh did not
 write

---
 src/buffer.rs      | 6 ++++++
 src/unix/screen.rs | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 3c8e01c..9e804d6 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -135,6 +135,12 @@ impl ScreenBuffer {
         None
     }
 
+    /// Causes the cell at `pos` to be redrawn.
+    pub fn invalidate_cell(&mut self, pos: Cursor) {
+        let idx = pos.as_index(self.size);
+        self.back_buffer[idx] = Cell::invalid();
+    }
+
     #[cfg(test)]
     fn cell(&self, pos: Cursor) -> &Cell {
         &self.buffer[pos.as_index(self.size)]
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index e984418..b8d9809 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -199,7 +199,14 @@ impl<'a> ScreenWriteGuard<'a> {
             self.move_cursor(pos)?;
 
             self.apply_attrs(cell.attrs())?;
-            self.writer.write_str(cell.text())?;
+
+            if let Err(e) = self.writer.write_str(cell.text()) {
+                // The text may not have been written; draw it again next time
+                self.data.buffer.invalidate_cell(pos);
+                self.data.real_cursor = (!0, !0).into();
+                return Err(e);
+            }
+
             self.data.real_cursor.column += cell.width();
         }
 
-- 
2.43.0


From bbb3df7362c57149deb41264a1a326d39e33456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 23/29] fix: keep the output buffer at its size when control
 sequences outgrow it

Whether text fits was judged by the buffer's capacity, which grows whenever a
control sequence is expanded past it. With short styled texts it grew without
bound, and nothing was written before the guard was dropped.
---
 src/unix/terminal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 2d6f455..40e669a 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1104,11 +1104,11 @@ impl<'a> TerminalWriteGuard<'a> {
     }
 
     fn write_bytes(&mut self, buf: &[u8]) -> io::Result<()> {
-        if buf.len() + self.writer.out_buffer.len() > self.writer.out_buffer.capacity() {
+        if buf.len() + self.writer.out_buffer.len() > OUT_BUFFER_SIZE {
             self.flush()?;
         }
 
-        if buf.len() > self.writer.out_buffer.capacity() {
+        if buf.len() > OUT_BUFFER_SIZE {
             self.write_data(buf).1
         } else {
             self.writer.out_buffer.extend(buf);
-- 
2.43.0


From 11851bc04000896da60460a63142548aa5c0d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 24/29] fix: Terminal::name returns the contents of TERM, as
 documented

It returned the first name of the terminfo entry, which differs when TERM
names an alias of it.
---
 src/unix/terminal.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 40e669a..e3aae80 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1,4 +1,5 @@
 use std::convert::TryFrom;
+use std::env;
 use std::fs::File;
 use std::io;
 use std::mem::{replace, zeroed};
@@ -69,6 +70,7 @@ enum SeqData {
 }
 
 pub struct Terminal {
+    name: String,
     info: Database,
     out_fd: RawFd,
     in_fd: RawFd,
@@ -105,9 +107,11 @@ struct Writer {
 impl Terminal {
     fn new(in_fd: RawFd, out_fd: RawFd, owned_fd: bool) -> io::Result<Terminal> {
         let info = Database::from_env().map_err(ti_to_io)?;
+        let name = env::var("TERM").unwrap_or_else(|_| info.name().to_owned());
         let sequences = sequences(&info);
 
         Ok(Terminal{
+            name,
             info,
             in_fd,
             out_fd,
@@ -143,11 +147,11 @@ impl Terminal {
     }
 
     pub fn name(&self) -> &str {
-        self.info.name()
+        &self.name
     }
 
     fn is_xterm(&self) -> bool {
-        is_xterm(self.name())
+        is_xterm(self.info.name())
     }
 
     pub fn size(&self) -> io::Result<Size> {
-- 
2.43.0


From f5936fa34a66e729dfdde89383edeb1ccf48c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 25/29] fix: clear attributes left by a failed refresh when a
 Screen is dropped

---
 src/unix/screen.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index b8d9809..cdee962 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -135,9 +135,11 @@ impl Drop for Screen {
             Ok(())
         };
 
+        // A refresh which failed may have left some set
+        let attrs = writer.clear_attributes();
         let exit = writer.exit_screen();
 
-        if let Err(e) = res.and(exit) {
+        if let Err(e) = res.and(attrs).and(exit) {
             eprintln!("failed to restore terminal: {}", e);
         }
     }
-- 
2.43.0


From b09aa99aa423a8318d7d596750a0c04b0a97a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 26/29] fix: write_styled clears attributes even if the text
 could not be written

---
 src/unix/terminal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index e3aae80..0351780 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1103,8 +1103,11 @@ impl<'a> TerminalWriteGuard<'a> {
             -> io::Result<()> {
         self.set_attrs(fg, bg, style)?;
 
-        self.write_str(text)?;
-        self.clear_attributes()
+        // Attributes are cleared even if the text could not be written
+        let res = self.write_str(text);
+        let clear = self.clear_attributes();
+
+        res.and(clear)
     }
 
     fn write_bytes(&mut self, buf: &[u8]) -> io::Result<()> {
-- 
2.43.0


From 4526e086a6d697588521aee43c1474b4ca18f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 27/29] fix: resizing a screen buffer to zero columns does not
 panic

---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 9e804d6..0b53ecb 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -542,7 +542,7 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
     if old != new {
         let mut new_buf = vec![Cell::default(); new.area()];
 
-        if !buf.is_empty() {
+        if !buf.is_empty() && !new_buf.is_empty() {
             let n_cols = old.columns.min(new.columns);
 
             for (old, new) in buf.chunks_mut(old.columns)
-- 
2.43.0


From f88dabfb9146a198a834a3ba6b586b77b654398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 28/29] fix: Cursor::last and Cursor::previous do not underflow
 for a size of zero

---
 src/terminal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/terminal.rs b/src/terminal.rs
index 8c96587..d3614f6 100644
--- a/src/terminal.rs
+++ b/src/terminal.rs
@@ -146,7 +146,7 @@ impl Cursor {
             if self.line == 0 {
                 None
             } else {
-                Some(Cursor{line: self.line - 1, column: size.columns - 1})
+                Some(Cursor{line: self.line - 1, column: size.columns.saturating_sub(1)})
             }
         } else {
             Some(Cursor{line: self.line, column: self.column - 1})
@@ -166,8 +166,8 @@ impl Cursor {
     #[inline]
     pub fn last(size: Size) -> Cursor {
         Cursor{
-            line: size.lines - 1,
-            column: size.columns - 1,
+            line: size.lines.saturating_sub(1),
+            column: size.columns.saturating_sub(1),
         }
     }
 
-- 
2.43.0


From a9a61745db253de7c9d46f2c06510dfe0afa713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 29/29] fix: a Screen can be created on a terminal which
 reports zero lines

---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 0351780..2739666 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -806,7 +806,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 }
 
                 self.expand(scroll.expand()
-                    .parameters(0, to_u32(size.lines - 1)))?;
+                    .parameters(0, to_u32(size.lines.saturating_sub(1))))?;
                 self.expand(home.expand())?;
             }
             (_, None, _) => return Err(not_supported("change_scroll_region")),
-- 
2.43.0

