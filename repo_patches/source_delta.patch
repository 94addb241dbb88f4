From 06571a4107da10b70da5f47a732efe006da8b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 01/11] fix: D2R is a five bit field of registers 0xC0-0xFF,
 keep its top bit

---
 src/vgm/ym2151/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index b4e51e8..8119a23 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -141,7 +141,7 @@ class State:
                 cmd.value >> 6
             ) & 0x03
             self._channel_configs[channel].operators[operator].second_decay_rate = (
-                cmd.value & 0x0F
+                cmd.value & 0x1F
             )
         elif cmd.reg & 0xE0 == 0xE0:
             self._channel_configs[channel].operators[operator].first_decay_level = (
-- 
2.43.0


From 262cb354320362557e691e34aad3faf91ab25f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 02/11] fix: record key events when the first key on happens at
 sample 0

---
 src/vgm/ym2151/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vgm/ym2151/state.py b/src/vgm/ym2151/state.py
index 8119a23..342d354 100644
--- a/src/vgm/ym2151/state.py
+++ b/src/vgm/ym2151/state.py
@@ -65,10 +65,10 @@ class State:
                 else:
                     config_id = -1
 
-            if op and not self._first_beat:
+            if op and self._first_beat is None:
                 self._first_beat = self._samples
 
-            if self._first_beat:
+            if self._first_beat is not None:
                 note = Note(config_id, self._note_configs[ch], self._samples)
                 self._channel_key_presses[cmd.value & 0x7].append(note)
             if config_id >= 0:
-- 
2.43.0


From dfe3ca6bd79a89a5a0624af6b69e88e411ff093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 03/11] fix: keep the chip clocks per opened file, not shared
 by all of them

---
 src/vgm/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 1f9e365..84de712 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -44,10 +44,10 @@ def _read_bcd(file: Union[BinaryIO, gzip.GzipFile]) -> int:
 
 class Vgm:
     data_start = 0x40
-    clocks: Dict[str, int] = {}
 
     def __init__(self, f: Union[BinaryIO, gzip.GzipFile]):
         self.file = f
+        self.clocks: Dict[str, int] = {}
         self.eof_offset = _read32(self.file)
         self.version = _read_bcd(self.file)
         _read32(self.file)
-- 
2.43.0


From 166d23aae41deb8d4f811a23769141722b5e670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 04/11] fix: read header and wait operands as little endian on
 every host

---
 src/vgm/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index 84de712..df98e61 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -12,14 +12,14 @@ def _read32(file: Union[BinaryIO, gzip.GzipFile]) -> int:
     b = file.read(4)
     if b is None or len(b) != 4:
         raise EOFError
-    return struct.unpack("I", b)[0]
+    return struct.unpack("<I", b)[0]
 
 
 def _read16(file: Union[BinaryIO, gzip.GzipFile]) -> int:
     b = file.read(2)
     if b is None or len(b) != 2:
         raise EOFError
-    return struct.unpack("H", b)[0]
+    return struct.unpack("<H", b)[0]
 
 
 def _read8(file: Union[BinaryIO, gzip.GzipFile]) -> int:
-- 
2.43.0


From 59fa60c19fe6bb872c05bb941e41f26ab3fde935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 05/11] fix: commands 0x80-0x8F wait for the number of samples
 in their low nibble

---
 src/vgm/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vgm/core.py b/src/vgm/core.py
index df98e61..0ff3ccc 100644
--- a/src/vgm/core.py
+++ b/src/vgm/core.py
@@ -88,7 +88,6 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         or (cmd_id == 0x60)
         or (0x64 <= cmd_id <= 0x65)
         or (0x69 <= cmd_id < 0x70)
-        or (0x80 <= cmd_id < 0x90)
         or (0x96 <= cmd_id < 0xA0)
     ):
         return VgmCommand(cmd_id)
@@ -132,6 +131,9 @@ def command(cmd_id: int, f: BinaryIO) -> VgmCommand:
         return VgmCommand(cmd_id, f.read(ss))
     elif cmd_id < 0x80:
         return WaitCommand(cmd_id)
+    elif cmd_id < 0x90:
+        # YM2612 DAC write from the data bank, then a wait of 0 to 15 samples
+        return WaitCommand(cmd_id, cmd_id & 0x0F)
     elif cmd_id < 0x92:
         return VgmCommand(cmd_id, f.read(4))
     elif cmd_id == 0x92:
-- 
2.43.0


From 4b2203c1a3c53a4a6b7b66a6c600bcdc281bfabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 06/11] fix: ignore what follows the end of sound data command,
 such as the GD3 tag

---
 src/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.py b/src/main.py
index 4c01507..b83c874 100644
--- a/src/main.py
+++ b/src/main.py
@@ -16,6 +16,8 @@ def process_vgm_file(cmds):
             st.apply(cmd)
         elif isinstance(cmd, vgm.core.WaitCommand):
             st.beat(cmd.samples)
+        elif isinstance(cmd, vgm.core.EOSCommand):
+            break
 
     return st
 
-- 
2.43.0


From d5d8e8afaa66a03ee1e53f863bb20599e5605749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 07/11] fix: main() names its own argument, not a global only
 the script defines

---
 src/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.py b/src/main.py
index b83c874..d73de82 100644
--- a/src/main.py
+++ b/src/main.py
@@ -29,7 +29,7 @@ def main(
     ticks_per_note: int = None,
 ):
     with smart_open(vgm_filename, "rb") as f:
-        print("Opening file: {}".format(args.file))
+        print("Opening file: {}".format(vgm_filename))
         cmds = vgm.core.reader(f)
 
         s = process_vgm_file(cmds)
-- 
2.43.0


From 31e1c01540dae1a36bf07609f6ad3a17fd0f605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 08/11] fix: report a file that is not a VGM instead of
 iterating over None

---
 src/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.py b/src/main.py
index d73de82..9174100 100644
--- a/src/main.py
+++ b/src/main.py
@@ -31,6 +31,8 @@ def main(
     with smart_open(vgm_filename, "rb") as f:
         print("Opening file: {}".format(vgm_filename))
         cmds = vgm.core.reader(f)
+        if cmds is None:
+            raise SystemExit("{}: not a VGM file".format(vgm_filename))
 
         s = process_vgm_file(cmds)
 
-- 
2.43.0


From 74876943383df4a4365165cf89232a2b9105d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 09/11] fix: standard streams opened in binary mode give bytes

---
 src/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools.py b/src/tools.py
index 37c2f18..11fa50f 100644
--- a/src/tools.py
+++ b/src/tools.py
@@ -7,14 +7,14 @@ def smart_open(filename: str, mode: str):
     if filename and filename != "-":
         fh = open(filename, mode)
     elif mode.startswith("w"):
-        fh = sys.stdout
+        fh = sys.stdout.buffer if "b" in mode else sys.stdout
     elif mode.startswith("r"):
-        fh = sys.stdin
+        fh = sys.stdin.buffer if "b" in mode else sys.stdin
     else:
         raise Exception("Unknown mode")
 
     try:
         yield fh
     finally:
-        if fh is not sys.stdout and fh is not sys.stdin:
+        if filename and filename != "-":
             fh.close()
-- 
2.43.0


From 4c51e1bd8b3567700301aac1754b7b3aecddc4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 10/11] fix: write the last row of notes to the track listing

---
 src/extractors.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/extractors.py b/src/extractors.py
index 42c2d1e..13803f9 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -112,6 +112,16 @@ def extract_tracks(s, track_filename, ticks_per_note):
                     except StopIteration:
                         del channel_notes[ch]
 
+        if any(note_row):
+            row = [
+                str(current_sample),
+                str(total_row % line_count),
+                str(total_row // line_count),
+                str(total_row),
+                "{:.2}".format((current_sample / ticks_per_note) % 1),
+            ] + note_row
+            fo.write(f'{",".join(row)}\n')
+
 
 def extract_instruments(instr_filename, s):
     print(f"Writing instruments to {instr_filename}...")
-- 
2.43.0


From 53c4c0c6d2937a63b39f1febf3b5e170bd539a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:06 +0000
Subject: [PATCH 11/11] fix: list the time of a row's own events, not of the
 next row's

---
 src/extractors.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/extractors.py b/src/extractors.py
index 13803f9..d145aba 100644
--- a/src/extractors.py
+++ b/src/extractors.py
@@ -71,6 +71,7 @@ def extract_tracks(s, track_filename, ticks_per_note):
         line_count = 64
         total_row = 0
         note_row = [""] * channel_count
+        row_sample = 0
 
         while len(channel_notes):
             samples = [n.sample for n in channel_notes.values()]
@@ -78,11 +79,11 @@ def extract_tracks(s, track_filename, ticks_per_note):
             current_row = current_sample // ticks_per_note
             if current_row != total_row:
                 row = [
-                    str(current_sample),
+                    str(row_sample),
                     str(total_row % line_count),
                     str(total_row // line_count),
                     str(total_row),
-                    "{:.2}".format((current_sample / ticks_per_note) % 1),
+                    "{:.2}".format((row_sample / ticks_per_note) % 1),
                 ] + note_row
                 fo.write(f'{",".join(row)}\n')
 
@@ -100,6 +101,9 @@ def extract_tracks(s, track_filename, ticks_per_note):
                 total_row = current_row
                 note_row = [""] * channel_count
 
+            if not any(note_row):
+                row_sample = current_sample
+
             for ch in range(channel_count):
                 if (
                     ch in channel_notes
@@ -114,11 +118,11 @@ def extract_tracks(s, track_filename, ticks_per_note):
 
         if any(note_row):
             row = [
-                str(current_sample),
+                str(row_sample),
                 str(total_row % line_count),
                 str(total_row // line_count),
                 str(total_row),
-                "{:.2}".format((current_sample / ticks_per_note) % 1),
+                "{:.2}".format((row_sample / ticks_per_note) % 1),
             ] + note_row
             fo.write(f'{",".join(row)}\n')
 
-- 
2.43.0

