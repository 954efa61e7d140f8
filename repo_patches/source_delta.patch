From c6cb9dba6bcffbe4b2a8ddb00df3bbed9ed59040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 01/18] fix: report read errors instead of returning a
 truncated beatmap

---
 beatmap/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 7d394c3..bf79270 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -216,6 +216,10 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
+
 	beatMap.FinalizePoints()
 
 	if beatMap.Title+beatMap.Artist+beatMap.Creator == "" || counter == 0 {
-- 
2.43.0


From 967f04a9eed559297e47262d72314ac7dbd365ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 02/18] fix: read the difficulty name from the Version metadata
 key

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index bf79270..02f81bb 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -55,7 +55,7 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 		beatMap.ArtistUnicode = line[1]
 	case "Creator":
 		beatMap.Creator = line[1]
-	case "FileVersion":
+	case "Version":
 		beatMap.Version = line[1]
 	case "Source":
 		beatMap.Source = line[1]
-- 
2.43.0


From 75224ad9e15dfe5ef6ab52b9cd3b2d5324971b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 03/18] fix: ParseMods panicked on text with an odd number of
 letters

---
 beatmap/difficulty/mods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/difficulty/mods.go b/beatmap/difficulty/mods.go
index 229656a..ede6d60 100644
--- a/beatmap/difficulty/mods.go
+++ b/beatmap/difficulty/mods.go
@@ -210,7 +210,7 @@ func (mods Modifier) StringFull() (s []string) {
 }
 
 func ParseMods(mods string) (m Modifier) {
-	modsSl := make([]string, len(mods)/2)
+	modsSl := make([]string, (len(mods)+1)/2)
 	for n, modPart := range mods {
 		modsSl[n/2] += string(modPart)
 	}
-- 
2.43.0


From ceaebe60fc748e204c94e1095dcef59601abb669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 04/18] fix: event lines with missing fields made the parser
 panic

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 02f81bb..cd1e426 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -180,7 +180,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				parseDifficulty(arr, beatMap)
 			}
 		case "Events":
-			if arr := tokenize(line, ","); len(arr) > 1 {
+			if arr := tokenize(line, ","); len(arr) > 2 {
 				parseEvents(arr, beatMap)
 			}
 		case "TimingPoints":
-- 
2.43.0


From fd9ffed8ab5d38652a2bf8a8829fbffd7731aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 05/18] fix: skip hit object lines with missing fields instead
 of panicking

---
 beatmap/objects/util.go | 26 ++++++++++++++++++++++++++
 beatmap/parser.go       |  2 +-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index c045af7..5dd0f20 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -2,7 +2,33 @@ package objects
 
 import "strconv"
 
+// HasRequiredFields checks if data has all the fields that are needed to create an object of its type
+func HasRequiredFields(data []string) bool {
+	if len(data) < 5 {
+		return false
+	}
+
+	objTypeI, _ := strconv.Atoi(data[3])
+	objType := Type(objTypeI)
+
+	if (objType & CIRCLE) > 0 {
+		return true
+	} else if (objType & SPINNER) > 0 {
+		return len(data) > 5
+	} else if (objType & SLIDER) > 0 {
+		return len(data) > 7
+	} else if (objType & LONGNOTE) > 0 {
+		return len(data) > 5
+	}
+
+	return true
+}
+
 func CreateObject(data []string) IHitObject {
+	if !HasRequiredFields(data) {
+		return nil
+	}
+
 	objTypeI, _ := strconv.Atoi(data[3])
 	objType := Type(objTypeI)
 
diff --git a/beatmap/parser.go b/beatmap/parser.go
index cd1e426..aadd492 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -189,7 +189,7 @@ func ParseFromReader(reader io.Reader) (*BeatMap, error) {
 				counter++
 			}
 		case "HitObjects":
-			if arr := tokenize(line, ","); arr != nil {
+			if arr := tokenize(line, ","); objects.HasRequiredFields(arr) {
 				var time string
 
 				objTypeI, _ := strconv.Atoi(arr[3])
-- 
2.43.0


From a0a82fc08a2f9cb4340a413d25335b136c8c57c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 06/18] fix: malformed slider points and surplus edge sounds
 made the parser panic

---
 beatmap/objects/slider.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 0513d24..b487ca5 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -51,6 +51,10 @@ func NewSlider(data []string) *Slider {
 
 	for i := 1; i < len(list); i++ {
 		list2 := strings.Split(list[i], ":")
+		if len(list2) < 2 {
+			continue
+		}
+
 		x, _ := strconv.ParseFloat(list2[0], 32)
 		y, _ := strconv.ParseFloat(list2[1], 32)
 		points = append(points, vector.NewVec2f(float32(x), float32(y)))
@@ -72,6 +76,10 @@ func NewSlider(data []string) *Slider {
 	if len(data) > 8 {
 		subData := strings.Split(data[8], "|")
 		for i, v := range subData {
+			if i >= len(slider.sounds) {
+				break
+			}
+
 			sound, _ := strconv.Atoi(v)
 			slider.sounds[i] = audio.HitSound(sound)
 		}
-- 
2.43.0


From 4067f39677f34802bdbc5ad39a196be1fb8b575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 07/18] fix: sliders with a non-positive or huge repeat count
 made the parser or the calculator panic

---
 beatmap/objects/slider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index b487ca5..72d6e44 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -13,6 +13,9 @@ import (
 	"strings"
 )
 
+// maxRepeatCount is the biggest span count accepted by osu!
+const maxRepeatCount = 9000
+
 type TickPoint struct {
 	Time      float64
 	IsReverse bool
@@ -45,6 +48,7 @@ func NewSlider(data []string) *Slider {
 
 	slider.pixelLength, _ = strconv.ParseFloat(data[7], 64)
 	slider.RepeatCount, _ = strconv.ParseInt(data[6], 10, 64)
+	slider.RepeatCount = mutils.ClampI64(slider.RepeatCount, 1, maxRepeatCount)
 
 	list := strings.Split(data[5], "|")
 	points := []vector.Vector2f{slider.StartPosRaw}
-- 
2.43.0


From 7d7d7158cb483211c60d1f3b0a81f1f4c503043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 08/18] fix: calculating a beatmap without hit objects panicked

---
 performance/osu/difficulty.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/performance/osu/difficulty.go b/performance/osu/difficulty.go
index e551640..6e807e7 100644
--- a/performance/osu/difficulty.go
+++ b/performance/osu/difficulty.go
@@ -168,7 +168,9 @@ func calculateSingle(objects []objects.IHitObject, diff *difficulty.Difficulty)
 
 	attr := Attributes{}
 
-	addObjectToAttribs(objects[0], &attr)
+	if len(objects) > 0 {
+		addObjectToAttribs(objects[0], &attr)
+	}
 
 	for i, o := range diffObjects {
 		addObjectToAttribs(objects[i+1], &attr)
@@ -211,6 +213,10 @@ func calculateStep(objects []objects.IHitObject, diff *difficulty.Difficulty) ([
 		flashlightSkill = skills.NewFlashlightSkill(diff)
 	}
 
+	if len(objects) == 0 {
+		return nil, aimSkill, speedSkill, flashlightSkill
+	}
+
 	stars := make([]Attributes, 1, len(objects))
 
 	addObjectToAttribs(objects[0], &stars[0])
-- 
2.43.0


From 23ff55fa7d6049425d72da011e6d4c3ad55021c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 09/18] fix: binomial coefficients were truncated before being
 multiplied

---
 math/curves/bezier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/curves/bezier.go b/math/curves/bezier.go
index dc70393..ce1d08f 100644
--- a/math/curves/bezier.go
+++ b/math/curves/bezier.go
@@ -90,7 +90,7 @@ func BinomialCoefficient(n, k int64) int64 {
 
 	c := int64(1)
 	for i := int64(1); i <= k; i++ {
-		c *= (n + 1 - i) / (i)
+		c = c * (n + 1 - i) / i
 	}
 
 	return c
-- 
2.43.0


From 5ad9501acf4c4e7ba9b899cc8e99cad7e54f1297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 10/18] fix: degenerate circular arcs made the parser panic

---
 math/curves/approximation.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/math/curves/approximation.go b/math/curves/approximation.go
index 79ad53e..d91676d 100644
--- a/math/curves/approximation.go
+++ b/math/curves/approximation.go
@@ -4,6 +4,9 @@ import (
 	"github.com/Wieku/gosu-pp/math/vector"
 )
 
+// maxArcSegments is bigger than anything a slider inside of the coordinate limits needs
+const maxArcSegments = 1 << 20
+
 func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Linear {
 	arc := NewCirArc(pt1, pt2, pt3)
 
@@ -11,7 +14,14 @@ func ApproximateCircularArc(pt1, pt2, pt3 vector.Vector2f, detail float32) []Lin
 		return []Linear{NewLinear(pt1, pt2), NewLinear(pt2, pt3)}
 	}
 
-	segments := int(arc.r * arc.totalAngle * detail)
+	arcSegments := arc.r * arc.totalAngle * detail
+
+	// The centre of a nearly straight arc may be too far away to be represented //nolint:misspell
+	if !(arcSegments >= 0 && arcSegments <= maxArcSegments) {
+		return []Linear{NewLinear(pt1, pt2), NewLinear(pt2, pt3)}
+	}
+
+	segments := int(arcSegments)
 
 	lines := make([]Linear, segments)
 
-- 
2.43.0


From 3448035c4553428f04f129297367356c02320781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 11/18] fix: slider ticks were generated forever when the tick
 distance was not positive

---
 beatmap/objects/slider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 72d6e44..c5d412b 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -135,7 +135,7 @@ func (slider *Slider) SetTiming(timings *timing.Timings) {
 		reversed := span%2 == 1
 
 		// skip ticks if timingPoint has NaN beatLength
-		for d := tickDistance; d <= cLength && !nanTimingPoint; d += tickDistance {
+		for d := tickDistance; tickDistance > 0 && d <= cLength && !nanTimingPoint; d += tickDistance {
 			if d >= cLength-minDistanceFromEnd {
 				break
 			}
-- 
2.43.0


From 0c6f63ed8736d4d80a1f3809e19d47b7bcef1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 12/18] fix: difficulty settings given as NaN were not forced
 into range

---
 beatmap/parser.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index aadd492..4f190f9 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -68,26 +68,32 @@ func parseMetadata(line []string, beatMap *BeatMap) {
 	}
 }
 
+// parseSetting parses a difficulty setting and forces it to be in the given range, malformed values count as 0
+func parseSetting(value string, min, max float64) float64 {
+	parsed, _ := strconv.ParseFloat(value, 64)
+	if math.IsNaN(parsed) {
+		parsed = 0
+	}
+
+	return mutils.ClampF64(parsed, min, max)
+}
+
 func parseDifficulty(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "SliderMultiplier":
 		beatMap.SliderMultiplier, _ = strconv.ParseFloat(line[1], 64)
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetAR(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetAR(parseSetting(line[1], 0, 10))
 		beatMap.arSpecified = true
 	case "CircleSize":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetCS(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetCS(parseSetting(line[1], 0, 10))
 	case "SliderTickRate":
 		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)
 	case "HPDrainRate":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetHP(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetHP(parseSetting(line[1], 0, 10))
 	case "OverallDifficulty":
-		parsed, _ := strconv.ParseFloat(line[1], 64)
-		beatMap.Difficulty.SetOD(mutils.ClampF64(parsed, 0, 10))
+		beatMap.Difficulty.SetOD(parseSetting(line[1], 0, 10))
 
 		if !beatMap.arSpecified {
 			beatMap.Difficulty.SetAR(beatMap.Difficulty.GetOD())
-- 
2.43.0


From 591c301284d36d94e154daf92efd9d5e80f1cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 13/18] fix: force slider multiplier and tick rate into the
 ranges osu! allows, tiny ones made the parser hang

---
 beatmap/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 4f190f9..8a091b9 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -81,7 +81,7 @@ func parseSetting(value string, min, max float64) float64 {
 func parseDifficulty(line []string, beatMap *BeatMap) {
 	switch line[0] {
 	case "SliderMultiplier":
-		beatMap.SliderMultiplier, _ = strconv.ParseFloat(line[1], 64)
+		beatMap.SliderMultiplier = parseSetting(line[1], 0.4, 3.6)
 		beatMap.Timings.SliderMult = beatMap.SliderMultiplier
 	case "ApproachRate":
 		beatMap.Difficulty.SetAR(parseSetting(line[1], 0, 10))
@@ -89,7 +89,7 @@ func parseDifficulty(line []string, beatMap *BeatMap) {
 	case "CircleSize":
 		beatMap.Difficulty.SetCS(parseSetting(line[1], 0, 10))
 	case "SliderTickRate":
-		beatMap.Timings.TickRate, _ = strconv.ParseFloat(line[1], 64)
+		beatMap.Timings.TickRate = parseSetting(line[1], 0.5, 8)
 	case "HPDrainRate":
 		beatMap.Difficulty.SetHP(parseSetting(line[1], 0, 10))
 	case "OverallDifficulty":
-- 
2.43.0


From 10307b834c1bcec37f333eadfa47d601006ca46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 14/18] fix: hit objects with huge or non-finite coordinates
 and times made the parser or the calculator hang

---
 beatmap/objects/baseobject.go |  6 +++---
 beatmap/objects/slider.go     |  6 +++---
 beatmap/objects/spinner.go    |  3 +--
 beatmap/objects/util.go       | 22 +++++++++++++++++++++-
 4 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/beatmap/objects/baseobject.go b/beatmap/objects/baseobject.go
index a8be52f..32bb4db 100644
--- a/beatmap/objects/baseobject.go
+++ b/beatmap/objects/baseobject.go
@@ -7,9 +7,9 @@ import (
 )
 
 func commonParse(data []string) *HitObject {
-	x, _ := strconv.ParseFloat(data[0], 32)
-	y, _ := strconv.ParseFloat(data[1], 32)
-	time, _ := strconv.ParseFloat(data[2], 64)
+	x := parseFloat(data[0], 32, maxCoordinate)
+	y := parseFloat(data[1], 32, maxCoordinate)
+	time := parseFloat(data[2], 64, maxTime)
 	objType, _ := strconv.Atoi(data[3])
 
 	startPos := vector.NewVec2f(float32(x), float32(y))
diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index c5d412b..622da85 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -46,7 +46,7 @@ func NewSlider(data []string) *Slider {
 
 	slider.PositionDelegate = slider.PositionAt
 
-	slider.pixelLength, _ = strconv.ParseFloat(data[7], 64)
+	slider.pixelLength = parseFloat(data[7], 64, maxCoordinate)
 	slider.RepeatCount, _ = strconv.ParseInt(data[6], 10, 64)
 	slider.RepeatCount = mutils.ClampI64(slider.RepeatCount, 1, maxRepeatCount)
 
@@ -59,8 +59,8 @@ func NewSlider(data []string) *Slider {
 			continue
 		}
 
-		x, _ := strconv.ParseFloat(list2[0], 32)
-		y, _ := strconv.ParseFloat(list2[1], 32)
+		x := parseFloat(list2[0], 32, maxCoordinate)
+		y := parseFloat(list2[1], 32, maxCoordinate)
 		points = append(points, vector.NewVec2f(float32(x), float32(y)))
 	}
 
diff --git a/beatmap/objects/spinner.go b/beatmap/objects/spinner.go
index 1fcbb38..48b9a7f 100644
--- a/beatmap/objects/spinner.go
+++ b/beatmap/objects/spinner.go
@@ -2,7 +2,6 @@ package objects
 
 import (
 	"github.com/Wieku/gosu-pp/beatmap/timing"
-	"strconv"
 )
 
 type Spinner struct {
@@ -16,7 +15,7 @@ func NewSpinner(data []string) *Spinner {
 		HitObject: commonParse(data),
 	}
 
-	spinner.EndTime, _ = strconv.ParseFloat(data[5], 64)
+	spinner.EndTime = parseFloat(data[5], 64, maxTime)
 
 	return spinner
 }
diff --git a/beatmap/objects/util.go b/beatmap/objects/util.go
index 5dd0f20..c1d7d6b 100644
--- a/beatmap/objects/util.go
+++ b/beatmap/objects/util.go
@@ -1,6 +1,26 @@
 package objects
 
-import "strconv"
+import (
+	"github.com/Wieku/gosu-pp/math/mutils"
+	"math"
+	"strconv"
+)
+
+// Limits osu! puts on values of hit objects
+const (
+	maxCoordinate = 131072
+	maxTime       = math.MaxInt32
+)
+
+// parseFloat parses a number and forces its absolute value to be under the limit, malformed values count as 0
+func parseFloat(value string, bitSize int, limit float64) float64 {
+	parsed, _ := strconv.ParseFloat(value, bitSize)
+	if math.IsNaN(parsed) {
+		return 0
+	}
+
+	return mutils.ClampF64(parsed, -limit, limit)
+}
 
 // HasRequiredFields checks if data has all the fields that are needed to create an object of its type
 func HasRequiredFields(data []string) bool {
-- 
2.43.0


From 984765ed407d9ec1b1ae44f44e7f77060d2aa8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 15/18] fix: timing points with a fractional time were moved to
 the start of the beatmap

---
 beatmap/beatmap.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index 78c5a7f..c1a9a88 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -69,7 +69,11 @@ func NewBeatMap() *BeatMap {
 
 func (beatMap *BeatMap) ParsePoint(point string) {
 	line := strings.Split(point, ",")
-	pointTime, _ := strconv.ParseInt(line[0], 10, 64)
+	pointTime, _ := strconv.ParseFloat(line[0], 64)
+	if math.IsNaN(pointTime) {
+		pointTime = 0
+	}
+
 	bpm, _ := strconv.ParseFloat(line[1], 64)
 
 	if !math.IsNaN(bpm) && bpm >= 0 {
@@ -117,7 +121,7 @@ func (beatMap *BeatMap) ParsePoint(point string) {
 		omitFirstBarLine = (ki & 8) > 0
 	}
 
-	beatMap.Timings.AddPoint(float64(pointTime), bpm, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omitFirstBarLine)
+	beatMap.Timings.AddPoint(pointTime, bpm, sampleSet, sampleIndex, sampleVolume, signature, inherited, kiai, omitFirstBarLine)
 }
 
 func (beatMap *BeatMap) FinalizePoints() {
-- 
2.43.0


From e833fd500f3ebdc7dbee354649f33a802971f8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 16/18] fix: timing points with spaces between their fields
 were misread

---
 beatmap/beatmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beatmap/beatmap.go b/beatmap/beatmap.go
index c1a9a88..3d622ba 100644
--- a/beatmap/beatmap.go
+++ b/beatmap/beatmap.go
@@ -69,6 +69,10 @@ func NewBeatMap() *BeatMap {
 
 func (beatMap *BeatMap) ParsePoint(point string) {
 	line := strings.Split(point, ",")
+	for i, field := range line {
+		line[i] = strings.TrimSpace(field)
+	}
+
 	pointTime, _ := strconv.ParseFloat(line[0], 64)
 	if math.IsNaN(pointTime) {
 		pointTime = 0
-- 
2.43.0


From 28c64b5182fdda60709e3d73c912cb696fcff746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 17/18] fix: a repeated AudioFilename replaces the earlier one

---
 beatmap/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beatmap/parser.go b/beatmap/parser.go
index 8a091b9..86a9442 100644
--- a/beatmap/parser.go
+++ b/beatmap/parser.go
@@ -25,7 +25,7 @@ func parseGeneral(line []string, beatMap *BeatMap) bool {
 			beatMap.StackLeniency = 0.0
 		}
 	case "AudioFilename":
-		beatMap.Audio += line[1]
+		beatMap.Audio = line[1]
 	case "PreviewTime":
 		beatMap.PreviewTime, _ = strconv.ParseInt(line[1], 10, 64)
 		//case "SampleSet":
-- 
2.43.0


From 202419eb4bd0e0c1955fe630bb115530415db04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 18/18] fix: rounding of long paths could make slider tick
 generation hang

---
 beatmap/objects/slider.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beatmap/objects/slider.go b/beatmap/objects/slider.go
index 622da85..f7e0ac7 100644
--- a/beatmap/objects/slider.go
+++ b/beatmap/objects/slider.go
@@ -126,8 +126,9 @@ func (slider *Slider) SetTiming(timings *timing.Timings) {
 	minDistanceFromEnd := velocity * 0.01
 	tickDistance := slider.Timings.GetTickDistance(slider.TPoint)
 
-	if slider.multiCurve.GetLength() > 0 && tickDistance > slider.pixelLength {
-		tickDistance = slider.pixelLength
+	// rounding may leave the path longer than a tiny pixelLength
+	if cLength > 0 && tickDistance > slider.pixelLength {
+		tickDistance = math.Max(slider.pixelLength, cLength)
 	}
 
 	for span := 0; span < int(slider.RepeatCount); span++ {
-- 
2.43.0

