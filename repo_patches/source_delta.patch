From 4ef873efdb222c61a8f850dcea0d650fbab2ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 01/47] fix: saturate CSI parameters instead of letting them
 overflow

---
 escapes.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index a70bc01..957d6ad 100644
--- a/escapes.go
+++ b/escapes.go
@@ -19,6 +19,10 @@ var colorModes = [7]Mode{
 	ModeInvisible, // SGR 8
 }
 
+// maxCSIParam is the value at which CSI parameters stop accumulating digits, so
+// that absurdly long numbers can't overflow.
+const maxCSIParam = 1 << 24
+
 func (t *terminal) ptyReadLoop() {
 	reader := bufio.NewReader(t.backend)
 	gr := NewGraphemeReaderWithMode(reader, t.textReadMode)
@@ -294,7 +298,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			paramSet = false
 			sawSeparator = true
 		} else {
-			param = param*10 + int(b-'0')
+			if param < maxCSIParam {
+				param = param*10 + int(b-'0')
+			}
 			paramSet = true
 			sawSeparator = false
 		}
-- 
2.43.0


From 649f28ec1d9a6ef68a16917859d09087c7628f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 02/47] fix: CUD stops at the bottom row instead of scrolling

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 957d6ad..84f4f63 100644
--- a/escapes.go
+++ b/escapes.go
@@ -341,7 +341,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().moveCursor(0, params[0], false, true)
+			t.screen().moveCursor(0, params[0], false, false)
 		case 'C': // Move cursor forward
 			if paramCount == 0 {
 				paramStore[0] = 1
-- 
2.43.0


From b03560ccd8bae0f722e2995cfac77121978ad68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 03/47] fix: keep CSI parameters beyond the eighth

---
 escapes.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/escapes.go b/escapes.go
index 84f4f63..f64ee24 100644
--- a/escapes.go
+++ b/escapes.go
@@ -281,6 +281,8 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	// This cannot escape to the heap! Use append([]int(nil), params...) instead of params to make a copy if needed, such as to debug calls
 	var paramStore [8]int
 	paramCount := 0
+	// more than 8 parameters spill over to the heap
+	var moreParams []int
 	param := 0
 	paramSet := false
 	sawSeparator := false
@@ -293,6 +295,8 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if paramCount < len(paramStore) {
 				paramStore[paramCount] = value
 				paramCount++
+			} else {
+				moreParams = append(moreParams, value)
 			}
 			param = 0
 			paramSet = false
@@ -321,10 +325,15 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		if paramCount < len(paramStore) {
 			paramStore[paramCount] = value
 			paramCount++
+		} else {
+			moreParams = append(moreParams, value)
 		}
 	}
 
 	params := paramStore[:paramCount]
+	if len(moreParams) > 0 {
+		params = append(append([]int(nil), params...), moreParams...)
+	}
 
 	if prefix == 0 {
 		switch b {
-- 
2.43.0


From 9c5709f8b9063ae8acdfdee2c1d1f4d95982839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:14 +0000
Subject: [PATCH 04/47] fix: consume CSI sequences with intermediates or
 sub-parameters whole

---
 escapes.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/escapes.go b/escapes.go
index f64ee24..0c16f1b 100644
--- a/escapes.go
+++ b/escapes.go
@@ -335,6 +335,22 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		params = append(append([]int(nil), params...), moreParams...)
 	}
 
+	if b >= 0x20 && b <= 0x3f {
+		// Sub-parameters, misplaced private markers and intermediate bytes only
+		// occur in sequences we don't know: consume up to the final byte.
+		for b >= 0x20 && b <= 0x3f {
+			b, err = r.ReadByte()
+			if err != nil {
+				if err != io.EOF {
+					debugPrintln(debugErrors, "ERR ReadByteCSI:", err)
+				}
+				break
+			}
+		}
+		debugPrintf(debugTodo, "TODO: Unhandled CSI Command: %#v %v, %#v\n", string(prefix), append([]int(nil), params...), string(b))
+		return true
+	}
+
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
@@ -733,14 +749,6 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				debugPrintln(debugTodo, "TODO: Unhandled DSR params: ", append([]int(nil), params...))
 			}
 
-		case '%': // Select character set (ignored)
-			// ignored
-
-		case '<': // SGR mouse or other private mode (ignored)
-			if *debugCmd {
-				debugPrintf(debugCmd, "CSI < params: %v\n", append([]int(nil), params...))
-			}
-
 		default:
 			debugPrintf(debugTodo, "TODO: Unhandled CSI Command: %v %#v\n", append([]int(nil), params...), string(b))
 			return true
-- 
2.43.0


From aff4bddb212298330cbad4871598ae2783b17e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 05/47] fix: answer CSI c without a parameter

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 0c16f1b..01046c8 100644
--- a/escapes.go
+++ b/escapes.go
@@ -392,7 +392,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 		case 'c': // Send Device Attributes
 			if paramCount == 0 {
-				paramStore[0] = 1
+				paramStore[0] = 0
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-- 
2.43.0


From 7cb6e75a6faac5325f98eb52202de28dff055ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 06/47] fix: consume malformed and ESC \ terminated OSC strings
 whole and keep UTF-8 in OSC/DCS payloads

---
 escapes.go | 63 +++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/escapes.go b/escapes.go
index 01046c8..598ff88 100644
--- a/escapes.go
+++ b/escapes.go
@@ -957,30 +957,35 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 	param, _ := strconv.Atoi(string(paramBytes))
 
 	param2 := []byte{}
+	hasNumber := b == ';' || b == 7 || b == 0x9c || b == 27
 
 	if b == ';' {
 		// skip the ';'
-		for {
-			b, err = r.ReadByte()
-			if err != nil {
-				if err != io.EOF {
-					debugPrintln(debugErrors, "ERR ReadByte9:", err)
-				}
-				return false
-			}
-			if b == 7 || b == 0x9c { // BEL , ST
-				break
-			}
-			if len(param2) > 0 && param2[len(param2)-1] == 27 && b == '\\' { // ESC \ is also ST
-				param2 = param2[:len(param2)-1]
-				break
+		b, err = r.ReadByte()
+	}
+	pending := 0 // continuation bytes missing from the current UTF-8 character
+	for {
+		if err != nil {
+			if err != io.EOF {
+				debugPrintln(debugErrors, "ERR ReadByte9:", err)
 			}
-
-			param2 = append(param2, byte(b))
+			return false
 		}
-	} else if b != 7 && b != 0x9c { // BEL, ST
-		debugPrintln(debugErrors, "OSC command number not followed by ;, BEL, or ST?", b)
-		return false
+		if b == 7 || b == 0x9c && pending == 0 { // BEL , ST
+			break
+		}
+		if len(param2) > 0 && param2[len(param2)-1] == 27 && b == '\\' { // ESC \ is also ST
+			param2 = param2[:len(param2)-1]
+			break
+		}
+
+		param2 = append(param2, byte(b))
+		pending = utf8Pending(pending, b)
+		b, err = r.ReadByte()
+	}
+	if !hasNumber {
+		debugPrintln(debugErrors, "OSC command number not followed by ;, BEL, or ST?", string(param2))
+		return true
 	}
 
 	switch param {
@@ -1023,8 +1028,25 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 	return true
 }
 
+// utf8Pending returns how many continuation bytes are missing after b from the
+// current UTF-8 character, given how many were missing before it.
+func utf8Pending(pending int, b byte) int {
+	switch {
+	case b >= 0xc2 && b <= 0xdf:
+		return 1
+	case b >= 0xe0 && b <= 0xef:
+		return 2
+	case b >= 0xf0 && b <= 0xf4:
+		return 3
+	case b >= 0x80 && b <= 0xbf && pending > 0:
+		return pending - 1
+	}
+	return 0
+}
+
 func (t *terminal) handleDCS(r escapeReader) bool {
 	prev := byte(0)
+	pending := 0 // continuation bytes missing from the current UTF-8 character
 	var payload []byte
 	for {
 		b, err := r.ReadByte()
@@ -1034,7 +1056,7 @@ func (t *terminal) handleDCS(r escapeReader) bool {
 			}
 			return false
 		}
-		if b == 0x9c {
+		if b == 0x9c && pending == 0 {
 			if *debugCmd {
 				debugPrintf(debugCmd, "DCS payload: %q\n", string(payload))
 			}
@@ -1053,5 +1075,6 @@ func (t *terminal) handleDCS(r escapeReader) bool {
 			payload = append(payload, b)
 		}
 		prev = b
+		pending = utf8Pending(pending, b)
 	}
 }
-- 
2.43.0


From f9c8ae44720418299370c38c0653c98c312070cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 07/47] fix: consume ESC sequences with intermediate bytes
 whole

---
 escapes.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/escapes.go b/escapes.go
index 598ff88..254e32b 100644
--- a/escapes.go
+++ b/escapes.go
@@ -218,21 +218,18 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 	case ']': // OSC Operating System Commands
 		return t.handleCmdOSC(r)
 
-	case '(': // G0
-		fallthrough
-	case ')': // G1
-		fallthrough
-	case '*': // G2
-		fallthrough
-	case '+': // G3
-		C, err := r.ReadByte()
-		if err != nil {
-			if err != io.EOF {
-				debugPrintln(debugErrors, "ERR ReadByte4:", err)
+	case ' ', '!', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '.', '/':
+		// Character set designations and other sequences with intermediate bytes
+		C := b
+		for C >= 0x20 && C <= 0x2f {
+			C, err = r.ReadByte()
+			if err != nil {
+				if err != io.EOF {
+					debugPrintln(debugErrors, "ERR ReadByte4:", err)
+				}
+				return false
 			}
-			return false
 		}
-		_ = C
 		return true
 
 	case '=': // Application Keypad
-- 
2.43.0


From b1dd03456bbf6cc7cf2f9f9ebce94defb6645df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:22 +0000
Subject: [PATCH 08/47] fix: ?1049h/l select a screen instead of toggling it

---
 escapes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 254e32b..d7194f3 100644
--- a/escapes.go
+++ b/escapes.go
@@ -838,7 +838,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 					debugPrintf(debugTodo, "TODO: Interpret Meta key = %v\n", value)
 
 				case 1049: // Save/Restore cursor and alternate screen
-					t.switchScreen()
+					if t.onAltScreen != value {
+						t.switchScreen()
+					}
 
 				case 2004: // Bracketed paste
 					t.setViewFlag(VFBracketedPaste, value)
-- 
2.43.0


From 931b6f9d6f9964f4a0dd76c8279d6606aec091f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 09/47] fix: announce the cursor and style when switching
 screens

---
 terminal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/terminal.go b/terminal.go
index 245d013..3c6c2e0 100644
--- a/terminal.go
+++ b/terminal.go
@@ -330,6 +330,10 @@ func (t *terminal) switchScreen() {
 	t.onAltScreen = !t.onAltScreen
 	size := t.screen().Size()
 	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: size.X, Y2: size.Y}, CRScreenSwitch)
+	// the cursor and style of the other screen are in effect now
+	cursorPos := t.screen().CursorPos()
+	t.frontend.CursorMoved(cursorPos.X, cursorPos.Y)
+	t.frontend.StyleChanged(t.screen().Style())
 }
 
 // testHandleCommand is only for testing.
-- 
2.43.0


From facedc20c06883d010f6fd7ceec795f49e023d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 10/47] fix: EL 1 erases the cursor cell too

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index d7194f3..e6b4630 100644
--- a/escapes.go
+++ b/escapes.go
@@ -595,7 +595,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				t.screen().eraseRegion(Region{
 					X:  0,
 					Y:  t.screen().CursorPos().Y,
-					X2: t.screen().CursorPos().X,
+					X2: t.screen().CursorPos().X + 1,
 					Y2: t.screen().CursorPos().Y + 1,
 				}, CRClear)
 			case params[0] == 2: // Erase entire line
-- 
2.43.0


From 1c970e4c43735d043280ff42168309fdc5c484bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 11/47] fix: IL and DL do nothing outside the scroll region

---
 escapes.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index e6b4630..37889f5 100644
--- a/escapes.go
+++ b/escapes.go
@@ -253,6 +253,12 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 	return true
 }
 
+// cursorInMargins reports whether the cursor is inside the scroll region.
+func (t *terminal) cursorInMargins() bool {
+	y := t.screen().CursorPos().Y
+	return y >= t.screen().TopMargin() && y <= t.screen().BottomMargin()
+}
+
 func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	b, err := r.ReadByte()
@@ -670,7 +676,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			if t.cursorInMargins() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			}
 
 		case 'M': // Delete lines, scroll up
 			if paramCount == 0 {
@@ -678,7 +686,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			if t.cursorInMargins() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			}
 
 		case 'S': // Scroll up
 			if paramCount == 0 {
-- 
2.43.0


From db24e7a3915fea5d0ec6c24642ae4baac8faaa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 12/47] fix: ignore DECSTBM with top below bottom and default
 its zero parameters

---
 escapes.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index 37889f5..302ba57 100644
--- a/escapes.go
+++ b/escapes.go
@@ -730,12 +730,16 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		case 'r': // Set Scroll margins
 			top := 1
 			bottom := t.screen().Size().Y
-			if len(params) >= 1 {
+			if len(params) >= 1 && params[0] > 0 {
 				top = params[0]
 			}
-			if len(params) >= 2 {
+			if len(params) >= 2 && params[1] > 0 {
 				bottom = params[1]
 			}
+			if top > bottom {
+				debugPrintln(debugTodo, "TODO: Scroll margins out of order: ", top, bottom)
+				return true
+			}
 			// debugPrintf("cursor home: %v, %v\n", x, y)
 			t.screen().setScrollMarginTopBottom(top-1, bottom-1)
 
-- 
2.43.0


From a939a291ce92ff4614d8879967c0bafe024112ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 13/47] fix: clamp a region's bottom against the height, not
 the width

---
 region.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region.go b/region.go
index ae93c48..b809c1e 100644
--- a/region.go
+++ b/region.go
@@ -43,6 +43,6 @@ func (r Region) Clamp(rc Region) Region {
 		X:  nx,
 		X2: clamp(r.X2, nx, rc.X2),
 		Y:  ny,
-		Y2: clamp(r.Y2, ny, rc.X2),
+		Y2: clamp(r.Y2, ny, rc.Y2),
 	}
 }
-- 
2.43.0


From 422d987162bf616747a79a29259332d45af39065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 14/47] fix: limit scroll distances to the height of the region

---
 screen.go      | 2 ++
 screen_grid.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/screen.go b/screen.go
index 4d652f9..52c0606 100644
--- a/screen.go
+++ b/screen.go
@@ -436,7 +436,9 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 	y2 = clamp(y2, 0, s.size.Y-1)
 	if y1 > y2 {
 		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		return
 	}
+	dy = clamp(dy, y1-y2-1, y2+1-y1) // the height of the region
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/screen_grid.go b/screen_grid.go
index 634d210..3f35b78 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -580,7 +580,9 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 	// }
 	if y1 > y2 {
 		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		return
 	}
+	dy = clamp(dy, y1-y2-1, y2+1-y1) // the height of the region
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
-- 
2.43.0


From 3ac6e46d446eb1049711f254c10f604fac1617bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 15/47] fix: scroll only when the cursor leaves the scroll
 region, and keep it on the screen

---
 screen.go      |  9 +++++----
 screen_grid.go | 15 +++++----------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/screen.go b/screen.go
index 52c0606..0c50c8e 100644
--- a/screen.go
+++ b/screen.go
@@ -467,6 +467,7 @@ func (s *spanScreen) clampRegion(r Region) Region {
 }
 
 func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	prevY := s.cursorPos.Y
 	if wrap && s.autoWrap {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
@@ -484,17 +485,17 @@ func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		// only leaving the scroll region scrolls it
+		if s.cursorPos.Y < s.topMargin && prevY >= s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if s.cursorPos.Y > s.bottomMargin && prevY <= s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
diff --git a/screen_grid.go b/screen_grid.go
index 3f35b78..b9524ac 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -631,6 +631,7 @@ func (s *gridScreen) clampRegion(r Region) Region {
 }
 
 func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	prevY := s.cursorPos.Y
 	if wrap && s.autoWrap {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
@@ -648,23 +649,17 @@ func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		// only leaving the scroll region scrolls it
+		if s.cursorPos.Y < s.topMargin && prevY >= s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if s.cursorPos.Y > s.bottomMargin && prevY <= s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		/*for s.cursorPos.Y < 0 {
-			s.cursorPos.Y += s.size.Y
-		}
-		for s.cursorPos.Y >= s.size.Y {
-			s.cursorPos.Y -= s.size.Y
-		}*/
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
-- 
2.43.0


From 4149da640d2722dd6bd7eaf766e8852ac0fd0382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 16/47] fix: bring cursors and scroll region inside the screen
 on resize

---
 screen.go      | 15 ++++++++-------
 screen_grid.go | 16 ++++++++--------
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/screen.go b/screen.go
index 0c50c8e..d7a31f3 100644
--- a/screen.go
+++ b/screen.go
@@ -274,19 +274,20 @@ func (s *spanScreen) setSize(w, h int) {
 
 	s.lines = newLines
 
-	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	// keep the scroll region a non-empty part of the screen
+	s.bottomMargin = clamp(h-(s.size.Y-s.bottomMargin), 0, h-1)
+	if s.topMargin > s.bottomMargin {
+		s.topMargin, s.bottomMargin = 0, h-1
+	}
 
 	s.size = Pos{X: w, Y: h}
 
 	// Resize buffers
 	s.renderBuffer = make([]rune, w)
 
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.savedCursorPos.X = clamp(s.savedCursorPos.X, 0, w-1)
+	s.savedCursorPos.Y = clamp(s.savedCursorPos.Y, 0, h-1)
+	s.setCursorPos(s.cursorPos.X, s.cursorPos.Y)
 
 	s.setStyle(s.style)
 }
diff --git a/screen_grid.go b/screen_grid.go
index b9524ac..1ca9455 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -267,17 +267,17 @@ func (s *gridScreen) setSize(w, h int) {
 	}
 	s.cellStyles = styleRect
 
-	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	// keep the scroll region a non-empty part of the screen
+	s.bottomMargin = clamp(h-(s.size.Y-s.bottomMargin), 0, h-1)
+	if s.topMargin > s.bottomMargin {
+		s.topMargin, s.bottomMargin = 0, h-1
+	}
 
 	s.size = Pos{X: w, Y: h}
 
-	// TODO: Logic for cursor position on resize?
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.savedCursorPos.X = clamp(s.savedCursorPos.X, 0, w-1)
+	s.savedCursorPos.Y = clamp(s.savedCursorPos.Y, 0, h-1)
+	s.setCursorPos(s.cursorPos.X, s.cursorPos.Y)
 
 	s.setStyle(s.style)
 }
-- 
2.43.0


From 6cff533dac08a2d15cc8e30080d119756bd4f11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 17/47] fix: Resize takes the lock and announces the active
 screen's state last

---
 terminal.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index 3c6c2e0..e2fc4af 100644
--- a/terminal.go
+++ b/terminal.go
@@ -144,8 +144,17 @@ type winsize struct {
 }
 
 func (t *terminal) Resize(w, h int) error {
-	t.mainScreen.setSize(w, h)
-	t.altScreen.setSize(w, h)
+	t.WithLock(func() {
+		// the active screen goes last so that its cursor and style are the ones
+		// the frontend was told about most recently
+		if t.onAltScreen {
+			t.mainScreen.setSize(w, h)
+			t.altScreen.setSize(w, h)
+		} else {
+			t.altScreen.setSize(w, h)
+			t.mainScreen.setSize(w, h)
+		}
+	})
 
 	if t.backend == nil {
 		return nil
-- 
2.43.0


From 26d987366006f67c68d6917296d6426cf25f314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 18/47] fix: replacing part of a row keeps the rest of the row

---
 screen.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index d7a31f3..a31b9bf 100644
--- a/screen.go
+++ b/screen.go
@@ -839,8 +839,11 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		pos = endPos
 	}
 
-	// Clamp to total width (tracked by pos after the scan).
+	// Clamp to total width (pos after the scan plus the spans it didn't reach).
 	totalWidth := pos
+	for j := i + 1; j < len(spans); j++ {
+		totalWidth += spans[j].Width
+	}
 	if x > totalWidth {
 		x = totalWidth
 	}
-- 
2.43.0


From 560449dfdbd55282c307398b0864bda3c4ae4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 19/47] fix: compare whole styles before reusing a span

---
 screen.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/screen.go b/screen.go
index a31b9bf..e8947da 100644
--- a/screen.go
+++ b/screen.go
@@ -877,12 +877,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 			line.width = totalWidth - n + insert.Width
 			return
 		}
-		// Compare styles
-		spFG, _, _ := sp.Style.GetColor(ComponentFG)
-		insertFG, _, _ := insert.Style.GetColor(ComponentFG)
-		spBG, _, _ := sp.Style.GetColor(ComponentBG)
-		insertBG, _, _ := insert.Style.GetColor(ComponentBG)
-		if insert.Width == n && spFG == insertFG && spBG == insertBG {
+		if insert.Width == n && sp.Style == insert.Style {
 			if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
 				return
 			}
-- 
2.43.0


From 780ce4495dce2b340bcf5fde49376529e22ad9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 20/47] fix: deleting a whole span leaves no zero-width span
 behind

---
 screen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index e8947da..850d3dc 100644
--- a/screen.go
+++ b/screen.go
@@ -854,7 +854,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 			endOffset = spans[endIdx].Width
 		}
 	}
-	if x == 0 && n >= totalWidth {
+	if x == 0 && n >= totalWidth && insert.Width > 0 {
 		line.spans = append(line.spans[:0], insert)
 		line.width = insert.Width
 		return
@@ -872,7 +872,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	// Fast paths for in-place replacements inside a single span.
 	if startIdx == endIdx {
 		sp := spans[startIdx]
-		if startOffset == 0 && endOffset == sp.Width {
+		if startOffset == 0 && endOffset == sp.Width && insert.Width > 0 {
 			spans[startIdx] = insert
 			line.width = totalWidth - n + insert.Width
 			return
-- 
2.43.0


From b63e8da93a8da86ef838c164e77eee66e984afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 21/47] fix: never cut wide characters in half or let a row
 outgrow the screen

---
 screen.go | 103 ++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 101 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index 850d3dc..f103506 100644
--- a/screen.go
+++ b/screen.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"strings"
+	"unicode/utf8"
 )
 
 type screen interface {
@@ -300,6 +301,9 @@ func (s *spanScreen) eraseRegion(r Region, cr ChangeReason) {
 
 	for i := r.Y; i < r.Y2; i++ {
 		debugPrintln(debugErase, "erase: ", r.X, i, emptySpan.Width)
+		if emptySpan.Width > 0 {
+			s.breakWide(i, r.X)
+		}
 		s.rawWriteSpan(r.X, i, emptySpan, cr)
 	}
 }
@@ -321,6 +325,24 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 		s.mergeIntoPreviousCell(text)
 		return
 	}
+	start, _ := cellAt(&s.lines[s.cursorPos.Y], s.cursorPos.X, mode)
+	if s.cursorPos.X+width <= s.size.X && start == s.cursorPos.X {
+		s.writeCells(text, width)
+		return
+	}
+
+	// The text reaches the edge of the screen or starts inside of a wide
+	// character, so every character has to find its place on its own.
+	run := spanLine{spans: []Span{{Text: text, Width: width}}, width: width}
+	for x := 0; x < width; {
+		_, cell := cellAt(&run, x, mode)
+		s.writeCells(cell.Text, cell.Width)
+		x += cell.Width
+	}
+}
+
+// writeCells writes text that doesn't have to be broken up to fit on the screen.
+func (s *spanScreen) writeCells(text string, width int) {
 	if width < 1 {
 		width = 1
 	}
@@ -367,10 +389,35 @@ func (s *spanScreen) rawWriteSpan(x int, y int, sp Span, cr ChangeReason) {
 	if y >= s.size.Y || x+sp.Width > s.size.X {
 		panic(fmt.Sprintf("rawWriteSpan out of range: %v  %v,%v,%v %v\n", s.size, x, y, x+sp.Width, sp.Width))
 	}
+	if start, wide := cellAt(&s.lines[y], x, s.textMode); start < x {
+		if end := start + wide.Width; end+sp.Width <= s.size.X {
+			// keep the wide character and insert after it
+			n := max(0, x+sp.Width-end)
+			s.breakWide(y, end+n)
+			replaceRange(&s.lines[y], end, n, sp, s.textMode)
+			resizeLine(&s.lines[y], s.size.X, s.style, s.textMode)
+			s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: start, X2: s.size.X}, cr)
+			return
+		}
+		s.breakWide(y, x)
+	}
+	s.breakWide(y, x+sp.Width)
 	replaceRange(&s.lines[y], x, sp.Width, sp, s.textMode)
 	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + sp.Width}, cr)
 }
 
+// breakWide blanks the wide character that a change starting or ending at column
+// x would cut in half.
+func (s *spanScreen) breakWide(y int, x int) {
+	start, wide := cellAt(&s.lines[y], x, s.textMode)
+	if start == x {
+		return
+	}
+	blank := Span{Style: s.style, Rune: ' ', Width: wide.Width}
+	replaceRange(&s.lines[y], start, wide.Width, blank, s.textMode)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: start, X2: start + wide.Width}, CRClear)
+}
+
 func (s *spanScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
 	if width < 1 {
 		width = 1
@@ -405,6 +452,8 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
+	s.breakWide(y, x)
+	s.breakWide(y, x+n)
 	line := &s.lines[y]
 	// Delete characters from x to x+n, shift remaining chars left, and append spaces at the end
 	replaceRange(line, x, n, Span{}, s.textMode)
@@ -579,6 +628,10 @@ func blankSpanLine(width int, style Style) spanLine {
 func resizeLine(line *spanLine, width int, style Style, mode TextReadMode) {
 	cur := lineCellWidth(line)
 	if cur > width {
+		if start, wide := cellAt(line, width, mode); start < width {
+			// this wide character doesn't fit anymore
+			replaceRange(line, start, wide.Width, Span{Style: style, Rune: ' ', Width: wide.Width}, mode)
+		}
 		truncateLine(line, width, mode)
 		return
 	}
@@ -588,6 +641,52 @@ func resizeLine(line *spanLine, width int, style Style, mode TextReadMode) {
 	line.width = width
 }
 
+// cellAt finds the character that covers column x. It returns the column where
+// the character starts and the character as a span of its own.
+func cellAt(line *spanLine, x int, mode TextReadMode) (int, Span) {
+	pos := 0
+	for _, sp := range line.spans {
+		end := pos + sp.Width
+		if x >= end {
+			pos = end
+			continue
+		}
+		cell := sp
+		if sp.Text == "" {
+			cell.Width = 1
+			return x, cell
+		}
+		if isSimpleText(sp) {
+			cell.Text = sp.Text[x-pos : x-pos+1]
+			cell.Width = 1
+			return x, cell
+		}
+		state := -1
+		for {
+			_, consumed, width, newState, ok := stepTextCluster([]byte(cell.Text), state, mode)
+			if !ok || consumed == len(cell.Text) || pos+width >= end {
+				// the last character fills the rest of the span
+				cell.Width = end - pos
+				return pos, cell
+			}
+			if x < pos+width {
+				cell.Text = cell.Text[:consumed]
+				cell.Width = width
+				return pos, cell
+			}
+			cell.Text = cell.Text[consumed:]
+			pos += width
+			state = newState
+		}
+	}
+	return x, Span{}
+}
+
+// isSimpleText reports whether every byte of the span's text is a cell.
+func isSimpleText(sp Span) bool {
+	return sp.Width == len(sp.Text) && sp.Width == utf8.RuneCountInString(sp.Text)
+}
+
 func lineCellWidth(line *spanLine) int {
 	if line == nil {
 		return 0
@@ -622,7 +721,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		return left, right, Span{}
 	}
 
-	if mode == TextReadModeRune && sp.Width == len(sp.Text) {
+	if mode == TextReadModeRune && isSimpleText(sp) {
 		// Simple mode where each rune is one cell - can't have wide clusters
 		leftText := sp.Text[:cellOffset]
 		rightText := sp.Text[cellOffset:]
@@ -881,7 +980,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 			if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
 				return
 			}
-			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && sp.Width == len(sp.Text) && insert.Width == len(insert.Text) {
+			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && isSimpleText(sp) && isSimpleText(insert) {
 				sp.Text = sp.Text[:startOffset] + insert.Text + sp.Text[startOffset+n:]
 				spans[startIdx] = sp
 				line.width = totalWidth
-- 
2.43.0


From 4935c576be88866c1714eeec03aca09311323e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 22/47] fix: store invalid UTF-8 as U+FFFD

---
 screen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/screen.go b/screen.go
index f103506..ca35b0d 100644
--- a/screen.go
+++ b/screen.go
@@ -321,6 +321,9 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 		return
 	}
 	s.textMode = mode
+	if !utf8.ValidString(text) {
+		text = string([]rune(text)) // show invalid bytes as U+FFFD
+	}
 	if merge {
 		s.mergeIntoPreviousCell(text)
 		return
-- 
2.43.0


From a546920e6f7442566c0ad6e4f94fe941e471ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 23/47] fix: partial StyledLine pads wide characters cut at its
 edges

---
 screen.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/screen.go b/screen.go
index ca35b0d..e1133bf 100644
--- a/screen.go
+++ b/screen.go
@@ -202,13 +202,22 @@ func (s *spanScreen) StyledLine(x, w, y int) Line {
 			} else {
 				// We need a sub-span
 				_, sub, _ := splitSpan(sp, offset, s.textMode) // skip left part
+				// blanks stand in for the halves of wide characters that were cut
+				pad := min(sp.Width-offset-sub.Width, width)
+				if pad > 0 {
+					spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: pad})
+					width -= pad
+				}
 				// now sub is from offset to end. we might need to truncate it if it's too long
 				if sub.Width > width {
-					keep, _, _ := splitSpan(sub, width, s.textMode)
-					spans = append(spans, keep)
-				} else {
+					sub, _, _ = splitSpan(sub, width, s.textMode)
+				}
+				if sub.Width > 0 {
 					spans = append(spans, sub)
 				}
+				if sub.Width < width {
+					spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: width - sub.Width})
+				}
 			}
 		}
 
-- 
2.43.0


From 1c6a6c6ebca9122f9bc10466dd39fadecabc52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 24/47] fix: announce combining characters merged into a grid
 cell

---
 screen_grid.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/screen_grid.go b/screen_grid.go
index 1ca9455..f17c134 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -378,6 +378,7 @@ func (s *gridScreen) mergeIntoPreviousCell(text string) {
 		x--
 	}
 	s.cellText[y][x] += text
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + int(s.cellWidth[y][x])}, CRText)
 }
 
 // This is like writeRunes, but it moves existing runes to the right
-- 
2.43.0


From d4fdd29f393a66875fce37196b99817f62ddb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 25/47] fix: merge combining characters into the whole
 character before the cursor

---
 screen.go | 59 ++++++++-----------------------------------------------
 1 file changed, 8 insertions(+), 51 deletions(-)

diff --git a/screen.go b/screen.go
index e1133bf..90c27d5 100644
--- a/screen.go
+++ b/screen.go
@@ -829,29 +829,6 @@ func byteIndexForCell(text []byte, cellOffset int, mode TextReadMode) (int, int)
 	return idx, width
 }
 
-// findSpanAtX returns the span index at position x and the offset within that span.
-// It does NOT modify the line. The returned index points to the span that contains x.
-// If x exactly matches a span boundary, it returns the index of the span after the boundary.
-func findSpanAtX(line *spanLine, x int) (int, int) {
-	if x <= 0 {
-		return 0, 0
-	}
-	pos := 0
-	for i := 0; i < len(line.spans); i++ {
-		sp := line.spans[i]
-		next := pos + sp.Width
-		if x == next {
-			return i + 1, 0
-		}
-		if x < next {
-			offset := x - pos
-			return i, offset
-		}
-		pos = next
-	}
-	return len(line.spans), 0
-}
-
 // func mergeAdjacent(line *spanLine) {
 // 	if len(line.spans) < 2 {
 // 		return
@@ -1141,40 +1118,20 @@ func (s *spanScreen) mergeIntoPreviousCell(text string) {
 	}
 	y := s.cursorPos.Y
 	line := &s.lines[y]
-	cell := s.cursorPos.X - 1
 
-	// Find the span at cell position
-	idx, offset := findSpanAtX(line, cell)
-	if idx >= len(line.spans) {
+	// Give the character its own span, since it no longer measures its width
+	start, cell := cellAt(line, s.cursorPos.X-1, s.textMode)
+	if cell.Width <= 0 {
 		return
 	}
-
-	sp := &line.spans[idx]
-
-	// If we're at an offset within the span, we need to split it first
-	if offset > 0 {
-		left, right, _ := splitSpan(*sp, offset, s.textMode)
-
-		// Update spans: replace current span with left and right
-		newSpans := make([]Span, 0, len(line.spans)+1)
-		newSpans = append(newSpans, line.spans[:idx]...)
-		newSpans = append(newSpans, left, right)
-		newSpans = append(newSpans, line.spans[idx+1:]...)
-		line.spans = newSpans
-
-		// Now the cell we want to merge into is at idx+1
-		idx++
-	}
-
-	// Convert repeat to text if needed and merge
-	sp = &line.spans[idx]
-	if sp.Text == "" {
-		sp.Text = strings.Repeat(string(sp.Rune), sp.Width)
+	if cell.Text == "" {
+		cell.Text = string(cell.Rune)
 	}
-	sp.Text += text
+	cell.Text += text
 	// Width doesn't change for merge
+	replaceRange(line, start, cell.Width, cell, s.textMode)
 
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: cell, X2: cell + 1}, CRText)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: start, X2: start + cell.Width}, CRText)
 }
 
 func max(a, b int) int {
-- 
2.43.0


From 155cc99f0219ba2721119f213098434ba328da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 26/47] fix: announce lines scrolled off the main screen
 through ScrollLines

---
 screen.go      |  3 +++
 screen_grid.go |  3 +++
 terminal.go    | 10 ++++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index 90c27d5..b792e36 100644
--- a/screen.go
+++ b/screen.go
@@ -501,6 +501,9 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 		return
 	}
 	dy = clamp(dy, y1-y2-1, y2+1-y1) // the height of the region
+	if y1 == 0 && dy < 0 {
+		s.frontend.ScrollLines(-dy)
+	}
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/screen_grid.go b/screen_grid.go
index f17c134..3985e63 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -584,6 +584,9 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 		return
 	}
 	dy = clamp(dy, y1-y2-1, y2+1-y1) // the height of the region
+	if y1 == 0 && dy < 0 {
+		s.frontend.ScrollLines(-dy)
+	}
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/terminal.go b/terminal.go
index e2fc4af..53cadef 100644
--- a/terminal.go
+++ b/terminal.go
@@ -83,7 +83,7 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 	return &terminal{
 		frontend:     f,
 		mainScreen:   newScreen(f),
-		altScreen:    newScreen(f),
+		altScreen:    newScreen(altFrontend{f}),
 		backend:      backend,
 		viewFlags:    make([]bool, viewFlagCount),
 		viewInts:     make([]int, viewIntCount),
@@ -92,10 +92,16 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 	}
 }
 
+// altFrontend is the frontend of the alternate screen, whose lines never go to
+// the scrollback.
+type altFrontend struct{ Frontend }
+
+func (altFrontend) ScrollLines(y int) {}
+
 func (t *terminal) SetFrontend(f Frontend) {
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
-	t.altScreen.SetFrontend(f)
+	t.altScreen.SetFrontend(altFrontend{f})
 }
 
 // func NewNoPTY(f Frontend) Terminal {
-- 
2.43.0


From 07d8a07108dd428f5d8e5d7fe7b4c3347ea4ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 27/47] fix: never cut wide characters in half in the grid
 screen

---
 screen_grid.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index 3985e63..d7a766e 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -206,6 +206,10 @@ func (s *gridScreen) setSize(w, h int) {
 		minH = prevH
 	}
 
+	for y := 0; y < minH && w < prevW; y++ {
+		s.breakWide(y, w) // this wide character doesn't fit anymore
+	}
+
 	rect := make([][]rune, h)
 	raw := make([]rune, w*h)
 	for i := range rect {
@@ -406,6 +410,10 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 	if y >= s.size.Y || x+len(b) > s.size.X {
 		panic(fmt.Sprintf("rawWriteBytes out of range: %v  %v,%v,%v %v %#v, %v,%v\n", s.size, x, y, x+len(b), len(b), string(b), len(s.chars), len(s.chars[0])))
 	}
+	if len(b) > 0 {
+		s.breakWide(y, x)
+		s.breakWide(y, x+len(b))
+	}
 	textRow := s.cellText[y]
 	widthRow := s.cellWidth[y]
 	contRow := s.cellCont[y]
@@ -430,9 +438,8 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 	if y >= s.size.Y || x+width > s.size.X {
 		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
 	}
-	if s.cellCont[y][x] {
-		s.clearWideAt(y, x)
-	}
+	s.breakWide(y, x)
+	s.breakWide(y, x+width)
 
 	prevWidth := int(s.cellWidth[y][x])
 	if prevWidth < 1 {
@@ -471,6 +478,14 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: end}, cr)
 }
 
+// breakWide blanks the wide character that a change starting or ending at column
+// x would cut in half.
+func (s *gridScreen) breakWide(y int, x int) {
+	if x < s.size.X && s.cellCont[y][x] {
+		s.clearWideAt(y, x)
+	}
+}
+
 func (s *gridScreen) clearWideAt(y int, x int) {
 	base := x
 	for base > 0 && s.cellCont[y][base] {
@@ -526,6 +541,8 @@ func (s *gridScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
+	s.breakWide(y, x)
+	s.breakWide(y, x+n)
 	line := s.chars[y]
 	copy(line[x:], line[x+n:])
 	textLine := s.cellText[y]
-- 
2.43.0


From 74e171144bf8a664df0f728448fa2917434cbbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 28/47] fix: grid rows are read back with whole characters,
 including combining ones

---
 screen_grid.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index d7a766e..fd05716 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -121,7 +121,7 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 		isRepeat := true
 		for k := 0; k < width; k++ {
 			idx := start + k
-			if text[idx] != firstRune || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
+			if cellText[idx] != string(firstRune) || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
 				isRepeat = false
 				break
 			}
@@ -135,6 +135,16 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 			spanWidth := 0
 			for k := 0; k < width; k++ {
 				idx := start + k
+				base := idx
+				for base > 0 && s.cellCont[y][base] {
+					base--
+				}
+				if base < x || base+int(s.cellWidth[y][base]) > x+w {
+					// blanks stand in for the halves of wide characters that were cut
+					sb.WriteRune(' ')
+					spanWidth++
+					continue
+				}
 				if s.cellCont[y][idx] {
 					// continuation cell, don't add text, it's part of previous
 					spanWidth++ // visual width increases
@@ -164,7 +174,7 @@ func (s *gridScreen) StyledLines(r Region) []Line {
 }
 
 func (s *gridScreen) renderLineANSI(y int) string {
-	line := s.getLine(y)
+	line := s.cellText[y]
 	styles := s.cellStyles[y]
 	buf := bytes.NewBuffer(make([]byte, 0, len(line)+10))
 	x := 0
@@ -173,9 +183,7 @@ func (s *gridScreen) renderLineANSI(y int) string {
 		buf.Write(currentStyle.ANSIEscape())
 
 		for x < len(line) && styles[x] == currentStyle {
-			if line[x] != 0 {
-				buf.WriteRune(line[x])
-			}
+			buf.WriteString(line[x])
 			x++
 		}
 	}
-- 
2.43.0


From db7e29c0c0118035c9346b68fa662a2a34085ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 29/47] fix: the grid screen keeps grapheme clusters in one
 cell

---
 screen_grid.go | 61 ++++++++++++++++++--------------------------------
 1 file changed, 22 insertions(+), 39 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index fd05716..d1bffbb 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -337,46 +337,23 @@ func (s *gridScreen) writeTokens(tokens []GraphemeToken) {
 			s.mergeIntoPreviousCell(text)
 			continue
 		}
-		if utf8.RuneCountInString(text) == 1 {
-			r, _ := utf8.DecodeRuneInString(text)
-			width := tok.Width
-			if width < 1 {
-				width = 1
-			}
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
-			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
-			continue
+		text = string([]rune(text)) // show invalid bytes as U+FFFD
+		width := tok.Width
+		if width < 1 {
+			width = 1
 		}
-		for len(text) > 0 {
-			r, size := utf8.DecodeRuneInString(text)
-			if size == 0 || r == utf8.RuneError && size == 1 {
-				break
-			}
-			text = text[size:]
-			width := runeCellWidth(r)
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
+		if width > s.size.X {
+			width = s.size.X
+		}
+		if s.cursorPos.X+width > s.size.X {
+			if s.autoWrap {
+				s.moveCursor(-s.cursorPos.X, 1, false, true)
+			} else {
+				s.cursorPos.X = s.size.X - width
 			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
 		}
+		s.rawWriteCell(s.cursorPos.X, s.cursorPos.Y, text, width, CRText)
+		s.moveCursor(width, 0, true, true)
 	}
 }
 
@@ -440,11 +417,17 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 }
 
 func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
+	s.rawWriteCell(x, y, string(r), width, cr)
+}
+
+// rawWriteCell writes a character that may consist of several runes.
+func (s *gridScreen) rawWriteCell(x int, y int, text string, width int, cr ChangeReason) {
+	r, _ := utf8.DecodeRuneInString(text)
 	if width < 1 {
 		width = 1
 	}
 	if y >= s.size.Y || x+width > s.size.X {
-		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
+		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, text))
 	}
 	s.breakWide(y, x)
 	s.breakWide(y, x+width)
@@ -455,7 +438,7 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 	}
 
 	s.chars[y][x] = r
-	s.cellText[y][x] = string(r)
+	s.cellText[y][x] = text
 	s.cellWidth[y][x] = uint8(width)
 	s.cellCont[y][x] = false
 	for i := 1; i < width; i++ {
-- 
2.43.0


From e745fe76823d6bdea086eec405c4fad2e7aeb52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:18 +0000
Subject: [PATCH 30/47] fix: empty reads neither end the input nor lose
 characters

---
 grapheme_reader.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index ff06e11..f221f8b 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -237,11 +237,16 @@ func (r *GraphemeReader) fill() error {
 		copy(newBuf, r.data[:r.end])
 		r.data = newBuf
 	}
-	n, err := r.src.Read(r.data[r.end:])
-	if n > 0 {
-		r.end += n
+	for {
+		n, err := r.src.Read(r.data[r.end:])
+		if n > 0 {
+			r.end += n
+		}
+		if n > 0 || err != nil {
+			return err
+		}
+		// a read of 0 bytes without an error means nothing happened: try again
 	}
-	return err
 }
 
 func isPrintableByte(b byte) bool {
-- 
2.43.0


From 86a64e1be93cd8bb6d51bf462b5e962716750e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 31/47] fix: grapheme segmentation restarts at control bytes
 and at the end of a read

---
 grapheme_reader.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index f221f8b..227127b 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -64,6 +64,10 @@ func (r *GraphemeReader) ReadByte() (byte, error) {
 	}
 	b := r.data[r.start]
 	r.start++
+	// text after a control byte is segmented on its own
+	r.state = -1
+	r.forceMergeNext = false
+	r.lastWasRI = false
 	return b, nil
 }
 
@@ -125,7 +129,7 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 			}
 			break
 		}
-		if mergeRun && !merge {
+		if mergeRun && !merge || merge && widthUsed > 0 {
 			break
 		}
 
@@ -284,7 +288,13 @@ func stepGraphemeCluster(buf []byte, state int) ([]byte, int, int, int, bool) {
 	if cluster == nil {
 		return nil, 0, 0, state, false
 	}
+	if !utf8.FullRune(rest) {
+		newState = -1 // it depends on text that is not there yet
+	}
 	width := boundaries >> uniseg.ShiftWidth
+	if width <= 0 {
+		width = 1
+	}
 	consumed := len(buf) - len(rest)
 	return cluster, consumed, width, newState, true
 }
@@ -327,7 +337,9 @@ func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI
 	case isVariationSelectorOnly(cluster):
 		merge = true
 	case isRegionalIndicator(cluster):
-		if nextLastWasRI {
+		if utf8.RuneCount(cluster) > 1 {
+			nextLastWasRI = false
+		} else if nextLastWasRI {
 			merge = true
 			nextLastWasRI = false
 		} else {
-- 
2.43.0


From bc009154d134cfa6d16d4c117dba96db4a3752ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 32/47] fix: never read from the backend again after it
 reported an error

---
 escapes.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 302ba57..8f1bbf7 100644
--- a/escapes.go
+++ b/escapes.go
@@ -24,7 +24,7 @@ var colorModes = [7]Mode{
 const maxCSIParam = 1 << 24
 
 func (t *terminal) ptyReadLoop() {
-	reader := bufio.NewReader(t.backend)
+	reader := bufio.NewReader(&stickyErrorReader{r: t.backend})
 	gr := NewGraphemeReaderWithMode(reader, t.textReadMode)
 
 	for {
@@ -34,6 +34,21 @@ func (t *terminal) ptyReadLoop() {
 	}
 }
 
+// stickyErrorReader stops reading once a read has reported an error.
+type stickyErrorReader struct {
+	r   io.Reader
+	err error
+}
+
+func (s *stickyErrorReader) Read(p []byte) (int, error) {
+	if s.err != nil {
+		return 0, s.err
+	}
+	n, err := s.r.Read(p)
+	s.err = err
+	return n, err
+}
+
 func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 	bw, useBytes := t.screen().(interface {
 		writeString(string, int, bool, TextReadMode)
-- 
2.43.0


From fc996e6bade3cc9edad14786a78db3531b95916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 33/47] fix: release the lock while waiting for the rest of an
 escape sequence

---
 escapes.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/escapes.go b/escapes.go
index 8f1bbf7..d330bdd 100644
--- a/escapes.go
+++ b/escapes.go
@@ -55,12 +55,14 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 	})
 	if useBytes {
 		maxWidth := 0
-		if t.screen().AutoWrap() {
-			maxWidth = t.screen().Size().X - t.screen().CursorPos().X
-			if maxWidth < 1 {
-				maxWidth = 1
+		t.WithLock(func() {
+			if t.screen().AutoWrap() {
+				maxWidth = t.screen().Size().X - t.screen().CursorPos().X
+				if maxWidth < 1 {
+					maxWidth = 1
+				}
 			}
-		}
+		})
 		data, width, merge, err := gr.ReadPrintableBytes(maxWidth)
 		if err != nil {
 			if err != io.EOF {
@@ -153,11 +155,11 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 		})
 
 	case 27: // ESC ^[ Escape Character
-
+		cmdReader := &unlockingReader{t: t, r: gr}
 		t.WithLock(func() {
 			if *debugCmd || *debugTodo {
 				var cmdBytes bytes.Buffer
-				cmdReader := &captureReader{r: gr, buf: &cmdBytes}
+				cmdReader := &captureReader{r: cmdReader, buf: &cmdBytes}
 				success := t.handleCommand(cmdReader)
 				cmd := cmdBytes.Bytes()
 
@@ -167,7 +169,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 					debugPrintf(debugTodo, "TODO: Unhandled command: %#v\n", string(cmd))
 				}
 			} else {
-				_ = t.handleCommand(gr)
+				_ = t.handleCommand(cmdReader)
 			}
 		})
 
@@ -186,6 +188,20 @@ type escapeReader interface {
 	// Buffered() int
 }
 
+// unlockingReader releases the terminal lock while it waits for more input.
+type unlockingReader struct {
+	t *terminal
+	r *GraphemeReader
+}
+
+func (u *unlockingReader) ReadByte() (byte, error) {
+	if u.r.Buffered() == 0 {
+		u.t.Unlock()
+		defer u.t.Lock()
+	}
+	return u.r.ReadByte()
+}
+
 type captureReader struct {
 	r   escapeReader
 	buf *bytes.Buffer
-- 
2.43.0


From 3d1d7d15a9f936a365ddcd430ea000a2ca24fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:36 +0000
Subject: [PATCH 34/47] fix: read the mouse mode and encoding under the lock

---
 terminal.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index 53cadef..b704e4b 100644
--- a/terminal.go
+++ b/terminal.go
@@ -243,7 +243,13 @@ const (
 // x and y should start at 1
 // wheel events should use btn1 for wheel up, btn2 for wheel down, true for press, and M_wheel for mods
 func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y int) error {
-	switch t.viewInts[VIMouseMode] {
+	var mouseMode, mouseEncoding int
+	t.WithLock(func() {
+		mouseMode = t.viewInts[VIMouseMode]
+		mouseEncoding = t.viewInts[VIMouseEncoding]
+	})
+
+	switch mouseMode {
 	case MMNone:
 		return nil
 	case MMPress:
@@ -261,7 +267,6 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMPressReleaseMoveAll:
 	}
 
-	mouseEncoding := t.viewInts[VIMouseEncoding]
 	switch mouseEncoding {
 	case MEX10:
 		btnByte := (byte(btn) & mWhichBtn) | byte(mods)
-- 
2.43.0


From a4bce86e7434e460063f244052d48f3533ad43df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:38 +0000
Subject: [PATCH 35/47] fix: filter mouse motion the tracking mode excludes

---
 terminal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index b704e4b..815dc06 100644
--- a/terminal.go
+++ b/terminal.go
@@ -253,7 +253,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMNone:
 		return nil
 	case MMPress:
-		if !press {
+		if !press || mods&MMotion != 0 {
 			return nil
 		}
 	case MMPressRelease:
@@ -261,7 +261,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			return nil
 		}
 	case MMPressReleaseMove:
-		if byte(mods)&mWhichBtn == byte(MRelease) {
+		if mods&MMotion != 0 && byte(btn)&mWhichBtn == byte(MRelease) {
 			return nil
 		}
 	case MMPressReleaseMoveAll:
-- 
2.43.0


From 3a4403e0acbe93005e2f9405c51315da98aa3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 36/47] fix: X10 mouse reports are single bytes and return
 write errors

---
 terminal.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/terminal.go b/terminal.go
index 815dc06..b3712ad 100644
--- a/terminal.go
+++ b/terminal.go
@@ -267,6 +267,8 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMPressReleaseMoveAll:
 	}
 
+	x = max(x, 1)
+	y = max(y, 1)
 	switch mouseEncoding {
 	case MEX10:
 		btnByte := (byte(btn) & mWhichBtn) | byte(mods)
@@ -281,11 +283,8 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			y = 255 - 32
 		}
 
-		mouseCmd := []byte("\033[M" + string(32+btnByte) + string(byte(32+x)) + string(byte(32+y)))
+		mouseCmd := []byte{'\033', '[', 'M', 32 + btnByte, byte(32 + x), byte(32 + y)}
 		_, err := t.Write(mouseCmd)
-		if err != nil {
-			panic(fmt.Sprintf("error %v", err))
-		}
 		return err
 
 	case MEUTF8:
-- 
2.43.0


From b4b5c7b4cc76e5f1a4910476ef9501880c594b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 37/47] fix: SendKey reads the keyboard modes under the lock

---
 keys.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index a30d8e9..9878582 100644
--- a/keys.go
+++ b/keys.go
@@ -185,7 +185,10 @@ type KeyEvent struct {
 }
 
 func (t *terminal) SendKey(ev KeyEvent) (int, error) {
-	seq := t.encodeKey(ev)
+	var seq []byte
+	t.WithLock(func() {
+		seq = t.encodeKey(ev)
+	})
 	if len(seq) == 0 {
 		return 0, nil
 	}
-- 
2.43.0


From f436f46f27400a6ce3912ffeb4f5880e6137a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 38/47] fix: encode keys as keyboard-protocol.rst defines

Release events send nothing unless event reporting is on (and nothing
for text keys, Enter, Tab and Backspace unless all keys are reported),
lock modifiers are left out of legacy and text keys, the C0 and ctrl
tables are complete, super/hyper/meta and ctrl+shift are kept, text
keypad keys still send text when disambiguated, F3 is not sent as a
cursor position report and modifier keys alone send nothing unless all
keys are reported.
---
 keys.go | 222 +++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 132 insertions(+), 90 deletions(-)

diff --git a/keys.go b/keys.go
index 9878582..3e7bcfa 100644
--- a/keys.go
+++ b/keys.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 // KeyMod is a bitmask of active modifier keys.
@@ -19,6 +20,8 @@ const (
 	ModMeta
 	ModCapsLock
 	ModNumLock
+
+	modLocks = ModCapsLock | ModNumLock
 )
 
 // KeyEventType is press/repeat/release. Zero is treated as press.
@@ -197,23 +200,36 @@ func (t *terminal) SendKey(ev KeyEvent) (int, error) {
 
 func (t *terminal) encodeKey(ev KeyEvent) []byte {
 	flags := t.keyboardFlags()
+	if flags&int(KbdReportEvents) == 0 && normalizeEventType(ev.Event) == KeyRelease {
+		return nil
+	}
+	if flags&int(KbdReportAllKeys) == 0 && isModifierKey(ev.Code) {
+		return nil
+	}
+	modifyOtherKeys := t.viewInts[VIModifyOtherKeys]
 	if flags != 0 {
 		if seq := t.encodeKittyKey(ev, flags); seq != nil {
 			return seq
 		}
+		// What is left is sent as in legacy mode, which has no release events.
+		if normalizeEventType(ev.Event) == KeyRelease {
+			return nil
+		}
+		modifyOtherKeys = 0
 	}
-	return t.encodeLegacyKey(ev)
+	return t.encodeLegacyKey(ev, modifyOtherKeys)
 }
 
-func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
+func (t *terminal) encodeLegacyKey(ev KeyEvent, modifyOtherKeys int) []byte {
 	if isKeypadKey(ev.Code) {
 		if mapped, ok := keypadEquivalent(ev); ok {
-			return t.encodeLegacyKey(mapped)
+			return t.encodeLegacyKey(mapped, modifyOtherKeys)
 		}
 	}
+	ev.Mod &^= modLocks
 	switch ev.Code {
 	case KeyRune:
-		return t.encodeRuneKey(ev.Rune, ev.Mod)
+		return encodeRuneKey(ev, modifyOtherKeys)
 	case KeyUp:
 		return t.encodeCursorKey('A', ev.Mod)
 	case KeyDown:
@@ -235,18 +251,25 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	case KeyPageDown:
 		return encodeTildeKey(6, ev.Mod)
 	case KeyBackspace:
-		return t.encodeBackspaceKey(ev.Mod)
+		if ev.Mod&ModCtrl != 0 {
+			return encodeC0Key(127, 0x08, ev.Mod, modifyOtherKeys)
+		}
+		return encodeC0Key(127, 0x7f, ev.Mod, modifyOtherKeys)
 	case KeyTab:
-		return t.encodeTabKey(ev.Mod)
+		return encodeTabKey(ev.Mod, modifyOtherKeys)
 	case KeyEnter:
-		return t.encodeEnterKey(ev.Mod)
+		return encodeC0Key(13, '\r', ev.Mod, modifyOtherKeys)
 	case KeyEscape:
-		return t.encodeEscapeKey(ev.Mod)
+		return encodeC0Key(27, 0x1b, ev.Mod, modifyOtherKeys)
 	case KeyF1:
 		return encodeFunctionKey('P', ev.Mod)
 	case KeyF2:
 		return encodeFunctionKey('Q', ev.Mod)
 	case KeyF3:
+		if ev.Mod != 0 {
+			// CSI 1;m R would be a cursor position report.
+			return encodeTildeKey(13, ev.Mod)
+		}
 		return encodeFunctionKey('R', ev.Mod)
 	case KeyF4:
 		return encodeFunctionKey('S', ev.Mod)
@@ -266,6 +289,10 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 		return encodeTildeKey(23, ev.Mod)
 	case KeyF12:
 		return encodeTildeKey(24, ev.Mod)
+	case KeyMenu:
+		return encodeTildeKey(29, ev.Mod)
+	case KeyKPBegin:
+		return t.encodeCursorKey('E', ev.Mod)
 	default:
 		if code, ok := kittyFunctionalCode(ev.Code); ok {
 			return kittyCSIu(kittyKeyField(code, ev, 0), kittyModField(ev.Mod, ev.Event, 0), "")
@@ -275,11 +302,17 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
-	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate) == 0 {
+	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate|KbdReportAllKeys) == 0 {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeKittyKey(mapped, flags)
 		}
 	}
+	if flags&int(KbdReportAllKeys) == 0 && isTextKeypadKey(ev.Code) && ev.Mod&^(ModShift|modLocks) == 0 {
+		return nil
+	}
+	if flags&int(KbdReportAllKeys) == 0 && (ev.Code == KeyRune || isTextKeypadKey(ev.Code)) {
+		ev.Mod &^= modLocks
+	}
 	modField := kittyModField(ev.Mod, ev.Event, flags)
 	switch ev.Code {
 	case KeyRune:
@@ -309,7 +342,7 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF2:
 		return kittyCSI1('Q', modField)
 	case KeyF3:
-		return kittyCSI1('R', modField)
+		return kittyCSITilde(13, modField)
 	case KeyF4:
 		return kittyCSI1('S', modField)
 	case KeyF5:
@@ -328,6 +361,8 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 		return kittyCSITilde(23, modField)
 	case KeyF12:
 		return kittyCSITilde(24, modField)
+	case KeyKPBegin:
+		return kittyCSI1('E', modField)
 	case KeyEscape:
 		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 {
 			return kittyCSIu(kittyKeyField(27, ev, flags), modField, kittyTextField(ev, flags))
@@ -360,17 +395,49 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	if ev.Rune == 0 {
 		return nil
 	}
+	code := int(unshifted(ev.Rune))
 	if flags&int(KbdReportAllKeys) != 0 {
-		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
+		return kittyCSIu(kittyKeyField(code, ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
 	}
 	if flags&int(KbdDisambiguate) != 0 {
-		if ev.Mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) != 0 {
-			return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
+		if ev.Mod&^(ModShift|modLocks) != 0 {
+			return kittyCSIu(kittyKeyField(code, ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
 		}
 	}
 	return nil
 }
 
+// unshifted is the key code of a key, which is always the lower-case one.
+func unshifted(r rune) rune {
+	if lower := unicode.ToLower(r); unicode.ToUpper(lower) == r {
+		return lower
+	}
+	return r
+}
+
+// shiftedRune is the character the key of ev produces together with shift.
+func shiftedRune(ev KeyEvent) rune {
+	if ev.Shifted != 0 {
+		return ev.Shifted
+	}
+	return unicode.ToUpper(ev.Rune)
+}
+
+func isModifierKey(code KeyCode) bool {
+	return code >= KeyLeftShift && code <= KeyISOLevel5Shift
+}
+
+// isTextKeypadKey reports whether a keypad key produces text.
+func isTextKeypadKey(code KeyCode) bool {
+	switch code {
+	case KeyKP0, KeyKP1, KeyKP2, KeyKP3, KeyKP4, KeyKP5, KeyKP6, KeyKP7, KeyKP8, KeyKP9,
+		KeyKPDecimal, KeyKPDivide, KeyKPMultiply, KeyKPSubtract, KeyKPAdd, KeyKPEqual, KeyKPSeparator:
+		return true
+	default:
+		return false
+	}
+}
+
 func isKeypadKey(code KeyCode) bool {
 	switch code {
 	case KeyKP0, KeyKP1, KeyKP2, KeyKP3, KeyKP4, KeyKP5, KeyKP6, KeyKP7, KeyKP8, KeyKP9,
@@ -442,8 +509,6 @@ func keypadEquivalent(ev KeyEvent) (KeyEvent, bool) {
 		mapped.Code = KeyInsert
 	case KeyKPDelete:
 		mapped.Code = KeyDelete
-	case KeyKPBegin:
-		mapped.Code, mapped.Rune = KeyRune, '5'
 	default:
 		return KeyEvent{}, false
 	}
@@ -627,20 +692,25 @@ func kittyFunctionalCode(code KeyCode) (int, bool) {
 	}
 }
 
-func (t *terminal) encodeRuneKey(r rune, mod KeyMod) []byte {
+func encodeRuneKey(ev KeyEvent, modifyOtherKeys int) []byte {
+	r, mod := ev.Rune, ev.Mod
 	if r == 0 {
 		return nil
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 && mod != 0 {
+	if modifyOtherKeys > 0 && mod != 0 {
 		return encodeModifyOtherKeys(int(r), mod)
 	}
 	if mod&ModCtrl != 0 {
+		if r > unicode.MaxASCII || !isLegacyMod(mod) || mod&ModShift != 0 && (r != ' ' || mod&ModAlt != 0) {
+			return kittyCSIu(strconv.Itoa(int(unshifted(r))), kittyModField(mod, KeyPress, 0), "")
+		}
 		if b, ok := ctrlByte(r); ok {
-			if mod&ModAlt != 0 {
-				return []byte{0x1b, b}
-			}
-			return []byte{b}
+			r = rune(b)
 		}
+	} else if !isLegacyMod(mod) {
+		return kittyCSIu(strconv.Itoa(int(unshifted(r))), kittyModField(mod, KeyPress, 0), "")
+	} else if mod&ModShift != 0 {
+		r = shiftedRune(ev)
 	}
 	out := []byte(string(r))
 	if mod&ModAlt != 0 {
@@ -656,7 +726,7 @@ func (t *terminal) encodeCursorKey(final byte, mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x1b, '[', final}
 	}
-	return []byte(fmt.Sprintf("\033[1;%d%c", xtermModParam(mod), final))
+	return []byte(fmt.Sprintf("\033[1;%d%c", kittyModParam(mod), final))
 }
 
 func (t *terminal) encodeHomeEndKey(final byte, mod KeyMod) []byte {
@@ -666,77 +736,58 @@ func (t *terminal) encodeHomeEndKey(final byte, mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x1b, '[', final}
 	}
-	return []byte(fmt.Sprintf("\033[1;%d%c", xtermModParam(mod), final))
+	return []byte(fmt.Sprintf("\033[1;%d%c", kittyModParam(mod), final))
 }
 
-func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
-	if mod == 0 {
-		return []byte{0x7f}
+// encodeC0Key encodes a key that sends the control byte b in legacy mode.
+func encodeC0Key(code int, b byte, mod KeyMod, modifyOtherKeys int) []byte {
+	if modifyOtherKeys > 0 && mod != 0 {
+		return encodeModifyOtherKeys(code, mod)
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
-		return encodeModifyOtherKeys(127, mod)
+	if !isLegacyMod(mod) {
+		return kittyCSIu(strconv.Itoa(code), kittyModField(mod, KeyPress, 0), "")
 	}
 	if mod&ModAlt != 0 {
-		return []byte{0x1b, 0x7f}
+		return []byte{0x1b, b}
 	}
-	return []byte{0x7f}
+	return []byte{b}
 }
 
-func (t *terminal) encodeTabKey(mod KeyMod) []byte {
-	if mod == 0 {
-		return []byte{'\t'}
-	}
+func encodeTabKey(mod KeyMod, modifyOtherKeys int) []byte {
 	if mod == ModShift {
 		return []byte{0x1b, '[', 'Z'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
-		return encodeModifyOtherKeys(9, mod)
-	}
-	if mod&ModAlt != 0 {
-		return []byte{0x1b, '\t'}
+	if mod&ModShift != 0 && modifyOtherKeys <= 0 && isLegacyMod(mod) {
+		if mod&ModAlt != 0 {
+			return []byte{0x1b, 0x1b, '[', 'Z'}
+		}
+		return []byte{0x1b, '[', 'Z'}
 	}
-	return []byte{'\t'}
+	return encodeC0Key(9, '\t', mod, modifyOtherKeys)
 }
 
-func (t *terminal) encodeEnterKey(mod KeyMod) []byte {
-	if mod == 0 {
-		return []byte{'\r'}
-	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
-		return encodeModifyOtherKeys(13, mod)
-	}
-	if mod&ModAlt != 0 {
-		return []byte{0x1b, '\r'}
-	}
-	return []byte{'\r'}
-}
-
-func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
-	if mod == 0 {
-		return []byte{0x1b}
-	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
-		return encodeModifyOtherKeys(27, mod)
-	}
-	return []byte{0x1b}
+// isLegacyMod reports whether the legacy encoding of text and control keys
+// covers the combination of modifiers.
+func isLegacyMod(mod KeyMod) bool {
+	return mod&^(ModShift|ModAlt|ModCtrl) == 0 && mod != ModShift|ModAlt|ModCtrl
 }
 
 func encodeTildeKey(code int, mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte(fmt.Sprintf("\033[%d~", code))
 	}
-	return []byte(fmt.Sprintf("\033[%d;%d~", code, xtermModParam(mod)))
+	return []byte(fmt.Sprintf("\033[%d;%d~", code, kittyModParam(mod)))
 }
 
 func encodeFunctionKey(final byte, mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x1b, 'O', final}
 	}
-	return []byte(fmt.Sprintf("\033[1;%d%c", xtermModParam(mod), final))
+	return []byte(fmt.Sprintf("\033[1;%d%c", kittyModParam(mod), final))
 }
 
 func encodeModifyOtherKeys(code int, mod KeyMod) []byte {
-	return []byte(fmt.Sprintf("\033[27;%d;%d~", xtermModParam(mod), code))
+	return []byte(fmt.Sprintf("\033[27;%d;%d~", kittyModParam(mod), code))
 }
 
 func kittyModParam(mod KeyMod) int {
@@ -784,16 +835,21 @@ func kittyTextField(ev KeyEvent, flags int) string {
 	if flags&int(KbdReportAllKeys) == 0 || flags&int(KbdReportText) == 0 {
 		return ""
 	}
+	if normalizeEventType(ev.Event) == KeyRelease {
+		return ""
+	}
 	text := ev.Text
-	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 {
+	if len(text) == 0 && ev.Code == KeyRune && ev.Mod&^(ModShift|modLocks) == 0 {
 		text = []rune{ev.Rune}
-	}
-	if len(text) == 0 {
-		return ""
+		if ev.Mod&ModShift != 0 {
+			text[0] = shiftedRune(ev)
+		}
 	}
 	parts := make([]string, 0, len(text))
 	for _, r := range text {
-		parts = append(parts, strconv.Itoa(int(r)))
+		if !unicode.IsControl(r) {
+			parts = append(parts, strconv.Itoa(int(r)))
+		}
 	}
 	return strings.Join(parts, ":")
 }
@@ -826,20 +882,6 @@ func kittyCSIu(keyField, modField, textField string) []byte {
 	return []byte("\033[" + strings.Join(params, ";") + "u")
 }
 
-func xtermModParam(mod KeyMod) int {
-	param := 1
-	if mod&ModShift != 0 {
-		param += 1
-	}
-	if mod&ModAlt != 0 {
-		param += 2
-	}
-	if mod&ModCtrl != 0 {
-		param += 4
-	}
-	return param
-}
-
 func normalizeEventType(event KeyEventType) KeyEventType {
 	if event == 0 {
 		return KeyPress
@@ -855,19 +897,19 @@ func ctrlByte(r rune) (byte, bool) {
 		return byte(r - 'A' + 1), true
 	}
 	switch r {
-	case '@':
+	case ' ', '@', '2':
 		return 0, true
-	case '[':
+	case '[', '3':
 		return 27, true
-	case '\\':
+	case '\\', '4':
 		return 28, true
-	case ']':
+	case ']', '5':
 		return 29, true
-	case '^':
+	case '^', '~', '6':
 		return 30, true
-	case '_':
+	case '_', '/', '7':
 		return 31, true
-	case '?':
+	case '?', '8':
 		return 127, true
 	default:
 		return 0, false
-- 
2.43.0


From 5fa12101a6642fa1fce3aa0165b03996bcf61249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 39/47] fix: TTYFrontend.Attach takes the terminal lock before
 its own

---
 tty_frontend.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index b31ba12..8aca5a4 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -49,21 +49,33 @@ func (t *TTYFrontend) SetTerminal(term Terminal) {
 // Attach starts updating the provided region.
 func (t *TTYFrontend) Attach(r Region) {
 	t.mu.Lock()
-	defer t.mu.Unlock()
+	term := t.term
+	t.mu.Unlock()
+
+	attach := func() {
+		t.mu.Lock()
+		defer t.mu.Unlock()
+
+		t.region = r
+		t.attached = true
+		if !t.showCur {
+			t.showCur = true
+		}
 
-	t.region = r
-	t.attached = true
-	if !t.showCur {
-		t.showCur = true
+		if t.term == nil {
+			return
+		}
+		t.renderRegionLocked(t.region)
 	}
 
-	if t.term == nil {
+	if term == nil {
+		attach()
 		return
 	}
 
-	t.term.WithLock(func() {
-		t.renderRegionLocked(t.region)
-	})
+	// Callbacks arrive with the terminal locked and then take mu, so the
+	// terminal lock has to come first here too.
+	term.WithLock(attach)
 }
 
 // Detach stops updating the attached region.
-- 
2.43.0


From 7a4d6dd54f824c5fbbe9aefe359efadbb39205f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 40/47] fix: a detached TTYFrontend writes nothing and Attach
 keeps a hidden cursor hidden

---
 tty_frontend.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index 8aca5a4..dde9662 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -58,9 +58,6 @@ func (t *TTYFrontend) Attach(r Region) {
 
 		t.region = r
 		t.attached = true
-		if !t.showCur {
-			t.showCur = true
-		}
 
 		if t.term == nil {
 			return
@@ -160,6 +157,7 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 	w, h := t.term.Size()
 	r = clampRegion(r, w, h)
 	if r.Empty() {
+		t.renderCursorLocked()
 		return
 	}
 
@@ -180,10 +178,10 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 }
 
 func (t *TTYFrontend) renderCursorLocked() {
-	if t.term == nil || t.out == nil {
+	if t.term == nil || t.out == nil || !t.attached {
 		return
 	}
-	if !t.attached || !t.showCur || !t.focused {
+	if !t.showCur || !t.focused {
 		_, _ = t.out.Write([]byte(ansiCursorHide))
 		return
 	}
-- 
2.43.0


From a7aae50d649615ea233f4e81483ae24e7f84d1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 41/47] fix: TTYFrontend writes its output one callback at a
 time

---
 tty_frontend.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index dde9662..1d152ad 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -78,11 +78,10 @@ func (t *TTYFrontend) Attach(r Region) {
 // Detach stops updating the attached region.
 func (t *TTYFrontend) Detach() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.attached = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
@@ -97,11 +96,10 @@ func (t *TTYFrontend) Focus() {
 // Blur disables cursor updates and restores cursor visibility.
 func (t *TTYFrontend) Blur() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.focused = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
-- 
2.43.0


From 6838e95a77856d7e49daf08bda4f79edefab0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:35 +0000
Subject: [PATCH 42/47] fix: splitting a span at the left edge of a wide
 character doesn't break it

---
 screen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index b792e36..87ae171 100644
--- a/screen.go
+++ b/screen.go
@@ -765,7 +765,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		}
 
 		clusterEnd := cellPos + width
-		if cellOffset >= cellPos && cellOffset < clusterEnd {
+		if cellOffset > cellPos && cellOffset < clusterEnd {
 			// Split point is within this cluster
 			if width > 1 {
 				// We're breaking a wide cluster - return the wide char we're splitting
-- 
2.43.0


From 97287f799bbf2f6bddf84595e1ca03ca4acdedc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 43/47] fix: concurrent writes to the backend don't overlap

Replies of the read loop and Write, SendKey or mouse reports of other
goroutines reached the backend's Write at the same time, and the parts of a
short write could be interleaved with another sequence.
---
 terminal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terminal.go b/terminal.go
index b3712ad..87e289b 100644
--- a/terminal.go
+++ b/terminal.go
@@ -38,6 +38,7 @@ type terminal struct {
 	altScreen   screen
 
 	backend Backend
+	writeMu sync.Mutex // held while something is written to the backend
 
 	viewFlags   []bool
 	viewInts    []int
@@ -120,6 +121,8 @@ func (t *terminal) Write(b []byte) (int, error) {
 	if t.backend == nil {
 		return 0, errors.New("backend is nil")
 	}
+	t.writeMu.Lock()
+	defer t.writeMu.Unlock()
 	total := 0
 	for len(b) > 0 {
 		n, err := t.backend.Write(b)
-- 
2.43.0


From 2548783aa59a1926b18f8a25c2446865ae712236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 44/47] fix: concurrent Resize calls leave the screen and the
 backend with the same size

---
 terminal.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index 87e289b..cbe4177 100644
--- a/terminal.go
+++ b/terminal.go
@@ -37,8 +37,9 @@ type terminal struct {
 	mainScreen  screen
 	altScreen   screen
 
-	backend Backend
-	writeMu sync.Mutex // held while something is written to the backend
+	backend  Backend
+	writeMu  sync.Mutex // held while something is written to the backend
+	resizeMu sync.Mutex // held until both the screens and the backend are resized
 
 	viewFlags   []bool
 	viewInts    []int
@@ -153,6 +154,9 @@ type winsize struct {
 }
 
 func (t *terminal) Resize(w, h int) error {
+	t.resizeMu.Lock()
+	defer t.resizeMu.Unlock()
+
 	t.WithLock(func() {
 		// the active screen goes last so that its cursor and style are the ones
 		// the frontend was told about most recently
-- 
2.43.0


From 6f7753e51972f7bb22c885c7b25017d3366fb735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 45/47] fix: an omitted first parameter counts as 1 when more
 parameters follow

---
 escapes.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/escapes.go b/escapes.go
index d330bdd..a4a28c9 100644
--- a/escapes.go
+++ b/escapes.go
@@ -320,8 +320,12 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	param := 0
 	paramSet := false
 	sawSeparator := false
+	firstOmitted := false
 	for b == ';' || (b >= '0' && b <= '9') {
 		if b == ';' {
+			if paramCount == 0 && !paramSet {
+				firstOmitted = true
+			}
 			value := 0
 			if paramSet || sawSeparator || paramCount > 0 {
 				value = param
@@ -386,6 +390,14 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	}
 
 	if prefix == 0 {
+		if firstOmitted {
+			switch b {
+			case 'A', 'B', 'C', 'D', 'G', 'd', 'L', 'M', 'P', 'S', 'T', 'X':
+				// an omitted count or position is 1, even if others follow
+				params[0] = 1
+			}
+		}
+
 		switch b {
 		case 'A': // Move cursor up
 			if paramCount == 0 {
-- 
2.43.0


From 27417109d7eeee02c6f65177fa83f336455cd09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 46/47] fix: the grid screen counts the columns of graphemes
 wider than 255 cells

---
 screen_grid.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index d1bffbb..1c6a369 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -13,7 +13,7 @@ import (
 type gridScreen struct {
 	chars      [][]rune
 	cellText   [][]string
-	cellWidth  [][]uint8
+	cellWidth  [][]int
 	cellCont   [][]bool
 	cellStyles [][]Style
 	frontend   Frontend
@@ -139,7 +139,7 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 				for base > 0 && s.cellCont[y][base] {
 					base--
 				}
-				if base < x || base+int(s.cellWidth[y][base]) > x+w {
+				if base < x || base+s.cellWidth[y][base] > x+w {
 					// blanks stand in for the halves of wide characters that were cut
 					sb.WriteRune(' ')
 					spanWidth++
@@ -238,7 +238,7 @@ func (s *gridScreen) setSize(w, h int) {
 	// fmt.Println("setSize", w, h, s.chars, s.chars[0], len(s.chars[0]))
 
 	cellText := makeStringGrid(w, h, " ")
-	cellWidth := makeUint8Grid(w, h, 1)
+	cellWidth := makeIntGrid(w, h, 1)
 	cellCont := makeBoolGrid(w, h, false)
 
 	if len(s.cellText) > 0 {
@@ -367,7 +367,7 @@ func (s *gridScreen) mergeIntoPreviousCell(text string) {
 		x--
 	}
 	s.cellText[y][x] += text
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + int(s.cellWidth[y][x])}, CRText)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + s.cellWidth[y][x]}, CRText)
 }
 
 // This is like writeRunes, but it moves existing runes to the right
@@ -432,14 +432,14 @@ func (s *gridScreen) rawWriteCell(x int, y int, text string, width int, cr Chang
 	s.breakWide(y, x)
 	s.breakWide(y, x+width)
 
-	prevWidth := int(s.cellWidth[y][x])
+	prevWidth := s.cellWidth[y][x]
 	if prevWidth < 1 {
 		prevWidth = 1
 	}
 
 	s.chars[y][x] = r
 	s.cellText[y][x] = text
-	s.cellWidth[y][x] = uint8(width)
+	s.cellWidth[y][x] = width
 	s.cellCont[y][x] = false
 	for i := 1; i < width; i++ {
 		idx := x + i
@@ -482,7 +482,7 @@ func (s *gridScreen) clearWideAt(y int, x int) {
 	for base > 0 && s.cellCont[y][base] {
 		base--
 	}
-	width := int(s.cellWidth[y][base])
+	width := s.cellWidth[y][base]
 	if width <= 1 {
 		return
 	}
@@ -719,9 +719,9 @@ func makeStringGrid(w, h int, fill string) [][]string {
 	return grid
 }
 
-func makeUint8Grid(w, h int, fill uint8) [][]uint8 {
-	grid := make([][]uint8, h)
-	raw := make([]uint8, w*h)
+func makeIntGrid(w, h int, fill int) [][]int {
+	grid := make([][]int, h)
+	raw := make([]int, w*h)
 	for i := range grid {
 		grid[i], raw = raw[:w], raw[w:]
 		for x := 0; x < w; x++ {
-- 
2.43.0


From ac66490c4352fcb4529ecbc3dd89a6704c800937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 47/47] fix: reading part of a character wider than the screen
 returns that many columns

---
 screen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index 87ae171..0435cbe 100644
--- a/screen.go
+++ b/screen.go
@@ -778,7 +778,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 
 				right := sp
 				right.Text = rightText
-				right.Width = sp.Width - clusterEnd
+				right.Width = max(sp.Width-clusterEnd, 0) // a character wider than the screen is stored narrower
 
 				// Return the wide character that was split
 				wideChar := sp
-- 
2.43.0

