From bbb3b6a84d5dfdae993755915c983874cd600dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:09 +0000
Subject: [PATCH 01/17] fix: DegreeToRal gives a wrong degree part for negative
 angles

Go's % truncates, so for a negative angle the degree part came out negative
(or 30 degrees off once converted back): SuriyaDay positions before the New
Year's Day of the year were a whole rasi away from the true ones.
---
 helpers.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index f4f2f7a..4803c8d 100644
--- a/helpers.go
+++ b/helpers.go
@@ -9,11 +9,13 @@ import (
 // (x; y : z) in Rasi, Angsa (degree), Lipda (minute) means 30*60*x + 60*y + z
 // in arcmins, so x and y are deg originally
 func DegreeToRal(degree float64) (x, y, z int) {
+	whole := int(math.Floor(degree))
+
 	// how many times 30 degrees
-	x = int(math.Floor(degree / 30))
+	x = int(math.Floor(float64(whole) / 30))
 
 	// the remainder degrees
-	y = int(math.Floor(degree)) % 30
+	y = whole - 30*x
 
 	// plus the arcmins
 	z = int(math.Floor((degree - math.Floor(degree)) * 60))
-- 
2.43.0


From 40d6dd609989a16d2c49498672262c549f3315dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:38 +0000
Subject: [PATCH 02/17] fix: keep the Sun and Moon positions of a day within
 360 degrees

NormalizeDegree only handled angles above 360, and the true Moon and the Sun
were not normalized at all: near 0 degrees TrueMoon was negative or over 360,
so that Raek was less than 1 or over 28, and the Sun was out of the circle on
days before New Year's Day or after the end of the solar year.
---
 helpers.go    | 10 ++++++----
 suriya_day.go |  6 +++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/helpers.go b/helpers.go
index 4803c8d..f7ac762 100644
--- a/helpers.go
+++ b/helpers.go
@@ -35,12 +35,14 @@ func RalToDegree(x, y, z int) float64 {
 	return math.Floor(float64(30*x+y)*10000+float64(z*10000)/60) / 10000
 }
 
-// Keep it within 360 deg
+// Keep it within 360 deg, i.e. 0 <= deg < 360
 func NormalizeDegree(deg float64) float64 {
-	if deg <= 360 {
-		return deg
+	deg = deg - math.Floor(deg/360)*360
+	if deg >= 360 {
+		// a tiny negative angle can round up to a full circle
+		return 0
 	}
-	return deg - math.Floor(deg/360)*360
+	return deg
 }
 
 func HorakhunToDate(horakhun int64) time.Time {
diff --git a/suriya_day.go b/suriya_day.go
index 9918355..92d6d0f 100644
--- a/suriya_day.go
+++ b/suriya_day.go
@@ -183,7 +183,7 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 
 	// step 17.
 
-	suDay.TrueMoon = math.Floor((suDay.MeanMoon-b)*10000) / 10000
+	suDay.TrueMoon = math.Floor(NormalizeDegree(suDay.MeanMoon-b)*10000) / 10000
 	// True Moon = 8; 7 : 43
 	// True Moon = 247.716666
 
@@ -194,4 +194,8 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 	// Raek = 0; 19 : 34
 	// Raek = 19.5771
 
+	// The steps above need the continuous Sun, which is negative before and over
+	// 360 after the solar year. As positions, report it within 360 deg.
+	suDay.MeanSun = NormalizeDegree(suDay.MeanSun)
+	suDay.TrueSun = NormalizeDegree(suDay.TrueSun)
 }
-- 
2.43.0


From f574c25aa8dca681020a32539dafb5d9edacd272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 03/17] fix: cycle positions run backwards in early years

The distance from the cycle epoch was taken as an absolute value, so before
1414 (57 year cycle) and 1794 (19 year cycle) the positions were counted in
the wrong direction.
---
 suriya_year.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/suriya_year.go b/suriya_year.go
index 13ea5bb..478265a 100644
--- a/suriya_year.go
+++ b/suriya_year.go
@@ -134,12 +134,17 @@ func (su SuriyaYear) Has_Carried_Adhikavara() bool {
 
 // Determine the position in the 57 year cycle. Assume 1984 = 1, 2040 = 57, 2041 = 1.
 func (su SuriyaYear) AdhikavaraCyclePos() int {
-	return int(math.Abs(float64(1984-57*10-su.Year)))%57 + 1
+	return cyclePos(su.Year-1984, 57)
 }
 
 // Determine the position in the 19 year cycle.
 func (su SuriyaYear) AdhikamasaCyclePos() int {
-	return int(math.Abs(float64(1984-19*10-su.Year)))%19 + 1
+	return cyclePos(su.Year-1984, 19)
+}
+
+// 1-based position of the nth year from the start of a cycle, n may be negative
+func cyclePos(n int, length int) int {
+	return (n%length+length)%length + 1
 }
 
 // Years since last adhikamāsa.
-- 
2.43.0


From 59e154ac2039caea2fb68ac1cece35a39924b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:39 +0000
Subject: [PATCH 04/17] fix: a year without an astro data file hides the moons
 of later years

GetAstroMoons returned at the first missing file, so a range starting before
1900 had no astro moons at all. Skip the year instead.
---
 astro_moon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro_moon.go b/astro_moon.go
index dc1b363..fd09567 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -58,7 +58,7 @@ func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 			if verbose {
 				log.Printf("%v, %s\n", err, filepath)
 			}
-			return moons
+			continue
 		}
 
 		var resp AerisResp
-- 
2.43.0


From dfd7630d9adb8be9ee97f675fe32d82a185c9c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 05/17] fix: utils/years-csv.go does not compile

The field is BE_Year since the rename, and the simple table prints nine
columns but had verbs for seven.
---
 utils/years-csv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index d59d8b8..8e29899 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -37,9 +37,9 @@ func yearsCsvSimple(firstYear int, lastYear int) (csvString string) {
 			dV = strconv.Itoa(su.DeltaAdhikavara())
 		}
 
-		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%s\n",
+		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%d,%d,%d\n",
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.AdhikamasaCyclePos(),
 			dM,
 			su.AdhikavaraCyclePos(),
@@ -159,7 +159,7 @@ func yearsCsv(firstYear int, lastYear int) (csvString string) {
 
 		csvString = csvString + fmt.Sprintf(fmtStr,
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.Kammacubala,
 			su.Avoman,
 			su.Tithi,
-- 
2.43.0


From 656d1c49d61a18ee352537ac4b222728001a9fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:59 +0000
Subject: [PATCH 06/17] =?UTF-8?q?fix:=20M=C4=81gha=20P=C5=ABj=C4=81=20is?=
 =?UTF-8?q?=20missing=20when=20its=20New=20Moon=20is=20in=20the=20previous?=
 =?UTF-8?q?=20solar=20year?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Before 1290 the New Moon of the month can fall in December, and whether the
year is adhikamāsa was then looked up for the wrong year: 128 years between
641 and 1289 had no Māgha Pūjā, or had it in the wrong month.
---
 uposatha_moon.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uposatha_moon.go b/uposatha_moon.go
index cbfa0af..2eac021 100644
--- a/uposatha_moon.go
+++ b/uposatha_moon.go
@@ -62,6 +62,11 @@ func (last_uposatha UposathaMoon) NextUposatha() UposathaMoon {
 
 		// Event: magha, vesakha, asalha, pavarana
 
+		// The New Moon before it can be in the previous solar year, Māgha Pūjā
+		// belongs to the year it falls in.
+		su_year.Init(lu.Date.AddDate(0, 0, nu.U_Days).Year())
+		is_adhikamasa_year = su_year.Is_Adhikamasa()
+
 		// In Adhikamāsa Years the major moons shift with one month
 		if is_adhikamasa_year {
 			switch nu.LunarMonth {
-- 
2.43.0


From fd2c1a332ae53cfbaa8fccd4b930f7246c66b0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:59 +0000
Subject: [PATCH 07/17] fix: calendar ranges given in another timezone lose
 events at the year ends

The years to look in were those of the range ends in the caller's timezone,
while the events are compared with the range as instants in UTC. A range
ending on Dec 31 west of Greenwich could reach into Jan 1 UTC and miss it.
---
 astro_moon.go | 3 +++
 cal_day.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/astro_moon.go b/astro_moon.go
index fd09567..0b46971 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -45,6 +45,9 @@ func (m AstroMoon) IcalEvent() ical.VEvent {
 func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 	var err error
 
+	// The data files are by UTC year
+	fromDate, toDate = fromDate.UTC(), toDate.UTC()
+
 	for year := fromDate.Year(); year <= toDate.Year(); year++ {
 
 		// filenames are astro-YYYY.json
diff --git a/cal_day.go b/cal_day.go
index 2315290..3b515ea 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -160,6 +160,9 @@ func mergeIntoCalDays(cal_days []CalDay, event CalendarEvent) []CalDay {
 func GetCalDays(fromDate time.Time, toDate time.Time) []CalDay {
 	var cal_days []CalDay
 
+	// The dates of the calendar are in UTC, so are the years to look in
+	fromDate, toDate = fromDate.UTC(), toDate.UTC()
+
 	for _, d := range GetAstroMoons(fromDate, toDate) {
 		cal_days = mergeIntoCalDays(cal_days, d)
 	}
-- 
2.43.0


From 63a66faf379f612588d18766942e43c33e9b54ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 08/17] fix: the half moon of a Kattika late in December is
 missing from the next year

---
 cal_day.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cal_day.go b/cal_day.go
index 3b515ea..67594df 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -202,6 +202,11 @@ func GenerateSolarYear(solar_year int) []CalendarEvent {
 		LunarYear:   date.Year() + BEdiff,
 	}
 
+	// The half moon of a late Kattika can be in the next year
+	if d := date.AddDate(0, 0, 8); d.Year() == solar_year {
+		events = append(events, HalfMoon{Date: d, Phase: "waning"})
+	}
+
 	for last_uposatha.Date.Year() <= solar_year {
 		var uposatha UposathaMoon
 		uposatha = last_uposatha.NextUposatha()
-- 
2.43.0


From 004d8539278a86bc441c99c8c02989bd5d762fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:43 +0000
Subject: [PATCH 09/17] fix: tiny negative angles split to 59 arcminutes and
 normalise to the circle

---
 helpers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index f7ac762..4e6c8a0 100644
--- a/helpers.go
+++ b/helpers.go
@@ -19,6 +19,10 @@ func DegreeToRal(degree float64) (x, y, z int) {
 
 	// plus the arcmins
 	z = int(math.Floor((degree - math.Floor(degree)) * 60))
+	if z == 60 {
+		// a tiny negative angle rounds up to the whole degree
+		z = 59
+	}
 
 	// TODO This is rasi, angsa, lipda
 	return x, y, z
@@ -37,7 +41,10 @@ func RalToDegree(x, y, z int) float64 {
 
 // Keep it within 360 deg, i.e. 0 <= deg < 360
 func NormalizeDegree(deg float64) float64 {
-	deg = deg - math.Floor(deg/360)*360
+	deg = math.Mod(deg, 360)
+	if deg < 0 {
+		deg += 360
+	}
 	if deg >= 360 {
 		// a tiny negative angle can round up to a full circle
 		return 0
-- 
2.43.0


From 327a52676f1bc878256711f468a853bf3aab9a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:29 +0000
Subject: [PATCH 10/17] fix: copies of a calendar day no longer share what is
 set on them

Setting a moon on a copy of a CalDay wrote into the slice of the original,
and adding events to two copies could put both into the same place.
---
 cal_day.go     | 21 ++++++---------------
 event.go       |  4 +++-
 major_event.go |  4 +++-
 3 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/cal_day.go b/cal_day.go
index 67594df..43fd74e 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -35,11 +35,8 @@ func (c CalDay) GetUposathaMoon() UposathaMoon {
 }
 
 func (c *CalDay) SetUposathaMoon(m UposathaMoon) {
-	if len(c.UposathaMoon) != 0 {
-		c.UposathaMoon[0] = m
-	} else {
-		c.UposathaMoon = append(c.UposathaMoon, m)
-	}
+	// A slice of its own, copies of the day keep what they have
+	c.UposathaMoon = UposathaMoonSliceSingle{m}
 }
 
 func (c CalDay) GetAstroMoon() AstroMoon {
@@ -53,11 +50,8 @@ func (c CalDay) GetAstroMoon() AstroMoon {
 }
 
 func (c *CalDay) SetAstroMoon(m AstroMoon) {
-	if len(c.AstroMoon) != 0 {
-		c.AstroMoon[0] = m
-	} else {
-		c.AstroMoon = append(c.AstroMoon, m)
-	}
+	// A slice of its own, copies of the day keep what they have
+	c.AstroMoon = AstroMoonSliceSingle{m}
 }
 
 func (c CalDay) GetHalfMoon() HalfMoon {
@@ -71,11 +65,8 @@ func (c CalDay) GetHalfMoon() HalfMoon {
 }
 
 func (c *CalDay) SetHalfMoon(m HalfMoon) {
-	if len(c.HalfMoon) != 0 {
-		c.HalfMoon[0] = m
-	} else {
-		c.HalfMoon = append(c.HalfMoon, m)
-	}
+	// A slice of its own, copies of the day keep what they have
+	c.HalfMoon = HalfMoonSliceSingle{m}
 }
 
 func (c CalDay) String() string {
diff --git a/event.go b/event.go
index d02549e..ae4ebc8 100644
--- a/event.go
+++ b/event.go
@@ -19,7 +19,9 @@ type Event struct {
 
 func (e Event) AddToDay(day_p *CalDay) {
 	day_p.Date = e.Date
-	day_p.Events = append(day_p.Events, e)
+	// Never into spare capacity, copies of the day share it
+	n := len(day_p.Events)
+	day_p.Events = append(day_p.Events[:n:n], e)
 	return
 }
 
diff --git a/major_event.go b/major_event.go
index 2ba7684..025d35c 100644
--- a/major_event.go
+++ b/major_event.go
@@ -19,7 +19,9 @@ type MajorEvent Event
 
 func (e MajorEvent) AddToDay(day_p *CalDay) {
 	day_p.Date = e.Date
-	day_p.MajorEvents = append(day_p.MajorEvents, e)
+	// Never into spare capacity, copies of the day share it
+	n := len(day_p.MajorEvents)
+	day_p.MajorEvents = append(day_p.MajorEvents[:n:n], e)
 	return
 }
 
-- 
2.43.0


From c148803d5076f371dfa8236e0c153f62b68d748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:29 +0000
Subject: [PATCH 11/17] fix: reading a local file closes it

---
 data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data.go b/data.go
index 0306da8..a8fb5be 100644
--- a/data.go
+++ b/data.go
@@ -155,6 +155,7 @@ func FSByte(useLocal bool, name string) ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer f.Close()
 		return ioutil.ReadAll(f)
 	}
 	f, err := _escStatic.prepare(name)
-- 
2.43.0


From b3b0776f3390c10e475faee3005d5ff3780bcf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:34 +0000
Subject: [PATCH 12/17] fix: adding half moon days to a part of a list
 overwrites the rest of it

---
 cal_day.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cal_day.go b/cal_day.go
index 43fd74e..d52ad3d 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -131,7 +131,9 @@ func AddHalfMoonDays(cal_days []CalDay) []CalDay {
 	}
 
 	// add half-moons to the calendar days
-	cal_days = append(cal_days, half_moon_days...)
+	// Never into spare capacity, the list can be part of a longer one
+	n := len(cal_days)
+	cal_days = append(cal_days[:n:n], half_moon_days...)
 
 	return cal_days
 }
-- 
2.43.0


From 240b3e338c55525705028b49b195d1d69ee60511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:34 +0000
Subject: [PATCH 13/17] fix: output that cannot be printed is lost with exit
 status 0

---
 suriya/suriya.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/suriya/suriya.go b/suriya/suriya.go
index 72196fa..d4a3b73 100644
--- a/suriya/suriya.go
+++ b/suriya/suriya.go
@@ -80,7 +80,11 @@ func actionCalDays(c *cli.Context) error {
 			os.Exit(1)
 		}
 	} else {
-		fmt.Printf("%s\n", str)
+		_, err = fmt.Printf("%s\n", str)
+		if err != nil {
+			log.Printf("%v\n", err)
+			os.Exit(1)
+		}
 	}
 
 	return nil
@@ -183,7 +187,11 @@ func actionIcal(c *cli.Context) error {
 			os.Exit(1)
 		}
 	} else {
-		fmt.Printf("%s", str)
+		_, err := fmt.Printf("%s", str)
+		if err != nil {
+			log.Printf("%v\n", err)
+			os.Exit(1)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 342d2ddb1c4fd74f5a2fdbf4b9de6bc66b5d4bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:34 +0000
Subject: [PATCH 14/17] fix: eleven requests a minute where the service allows
 ten

---
 utils/get-astromoons.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/get-astromoons.sh b/utils/get-astromoons.sh
index 5fd2a5a..a6952fd 100755
--- a/utils/get-astromoons.sh
+++ b/utils/get-astromoons.sh
@@ -28,7 +28,7 @@ while [ $year -le $to_year ]; do
     echo -n "$year ... "
 
     # Stay under 10 requests per minute
-    if [ $reqPerMin -gt 10 ]; then
+    if [ $reqPerMin -ge 10 ]; then
         d=$(expr `date +%s` - $lastBatchStart)
         # +1s for error
         while [ $d -lt 61 ]; do
-- 
2.43.0


From 62aab389383ee5fd8cbff9ec44fa381cf2b2a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:55 +0000
Subject: [PATCH 15/17] fix: long calendar ranges take minutes, every event
 goes through all days

---
 cal_day.go | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/cal_day.go b/cal_day.go
index d52ad3d..ece7f1d 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -1,7 +1,6 @@
 package suriya
 
 import (
-	"errors"
 	"sort"
 	s "strings"
 	"time"
@@ -87,17 +86,6 @@ func (s CalDaySlice) Less(i, j int) bool {
 	return s[j].Date.After(s[i].Date)
 }
 
-func findCalDay(cal_days []CalDay, date time.Time) (*CalDay, error) {
-	date_day := time.Date(date.Year(), date.Month(), date.Day(), 0, 0, 0, 0, date.Location())
-	for k, day := range cal_days {
-		day_day := time.Date(day.Date.Year(), day.Date.Month(), day.Date.Day(), 0, 0, 0, 0, day.Date.Location())
-		if day_day.Equal(date_day) {
-			return &cal_days[k], nil
-		}
-	}
-	return &CalDay{}, errors.New("CalDay not found")
-}
-
 func AddHalfMoonDays(cal_days []CalDay) []CalDay {
 	var half_moon_days []CalDay
 
@@ -138,26 +126,35 @@ func AddHalfMoonDays(cal_days []CalDay) []CalDay {
 	return cal_days
 }
 
-func mergeIntoCalDays(cal_days []CalDay, event CalendarEvent) []CalDay {
-	day_p, err := findCalDay(cal_days, event.GetDate())
-	if err != nil {
+// The day an event is on, by the time it starts
+func startOfDay(date time.Time) int64 {
+	return time.Date(date.Year(), date.Month(), date.Day(), 0, 0, 0, 0, date.Location()).Unix()
+}
+
+// The index is where the days are in cal_days, so that finding the day of an
+// event doesn't go through all of them.
+func mergeIntoCalDays(cal_days []CalDay, index map[int64]int, event CalendarEvent) []CalDay {
+	start := startOfDay(event.GetDate())
+	k, ok := index[start]
+	if !ok {
 		// no such day in the slice, so add a new one
-		event.AddToDay(day_p)
-		cal_days = append(cal_days, *day_p)
-	} else {
-		event.AddToDay(day_p)
+		k = len(cal_days)
+		index[start] = k
+		cal_days = append(cal_days, CalDay{})
 	}
+	event.AddToDay(&cal_days[k])
 	return cal_days
 }
 
 func GetCalDays(fromDate time.Time, toDate time.Time) []CalDay {
 	var cal_days []CalDay
+	index := make(map[int64]int)
 
 	// The dates of the calendar are in UTC, so are the years to look in
 	fromDate, toDate = fromDate.UTC(), toDate.UTC()
 
 	for _, d := range GetAstroMoons(fromDate, toDate) {
-		cal_days = mergeIntoCalDays(cal_days, d)
+		cal_days = mergeIntoCalDays(cal_days, index, d)
 	}
 
 	for year := fromDate.Year(); year <= toDate.Year(); year++ {
@@ -165,7 +162,7 @@ func GetCalDays(fromDate time.Time, toDate time.Time) []CalDay {
 			if d.GetDate().Before(fromDate) || d.GetDate().After(toDate) {
 				continue
 			} else {
-				cal_days = mergeIntoCalDays(cal_days, d)
+				cal_days = mergeIntoCalDays(cal_days, index, d)
 			}
 		}
 	}
-- 
2.43.0


From 8462a65a41e2121c0e4228b5766402f732b263f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:24 +0000
Subject: [PATCH 16/17] fix: a command line that is not understood exits 0

The error of the flags was dropped, 'suriya caldays --form 2015-01-01 --output days.json' printed the
usage and ended as if it had written the file.
---
 suriya/suriya.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/suriya/suriya.go b/suriya/suriya.go
index d4a3b73..8fe8258 100644
--- a/suriya/suriya.go
+++ b/suriya/suriya.go
@@ -237,5 +237,8 @@ func main() {
 		spew.Dump(dates)
 	}
 
-	app.Run(os.Args)
+	// The usage error is printed by now
+	if err := app.Run(os.Args); err != nil {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From bb9eb7294eb490ef832c8f2537e4c84947760a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 17/17] fix: slow requests let more than ten go out in a minute

---
 utils/get-astromoons.sh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/get-astromoons.sh b/utils/get-astromoons.sh
index a6952fd..4976863 100755
--- a/utils/get-astromoons.sh
+++ b/utils/get-astromoons.sh
@@ -21,25 +21,25 @@ to_year=$2
 place="london,uk" # for UTC time
 
 year=$from_year
-lastBatchStart=`date +%s`
 reqPerMin=0
 
 while [ $year -le $to_year ]; do
     echo -n "$year ... "
 
-    # Stay under 10 requests per minute
+    # Stay under 10 requests per minute, also when they are slow: wait from the
+    # last one of the batch
     if [ $reqPerMin -ge 10 ]; then
-        d=$(expr `date +%s` - $lastBatchStart)
+        d=$(expr `date +%s` - $lastRequest)
         # +1s for error
         while [ $d -lt 61 ]; do
             echo -ne "\r$year ... wait: "$(expr 60 - $d )" "
             sleep 1
-            d=$(expr `date +%s` - $lastBatchStart)
+            d=$(expr `date +%s` - $lastRequest)
         done
-        lastBatchStart=`date +%s`
         reqPerMin=0
     fi
 
+    lastRequest=`date +%s`
     curl -s "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$year/12/31&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json
     ((year += 1))
     ((reqPerMin += 1))
-- 
2.43.0

