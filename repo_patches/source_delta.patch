From d00d2863cd182d8d78e21693e1165597b7248a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 01/28] fix: DegreeToRal: degrees below zero lost 30 degrees

Rasi is floored while the remainder kept the sign of the dividend, so for a
negative angle x*30+y was 30 degrees short. The mean sun of every lunar year
day before the solar New Year was off by one rasi.
---
 helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/helpers.go b/helpers.go
index f4f2f7a..39b3cc7 100644
--- a/helpers.go
+++ b/helpers.go
@@ -14,6 +14,10 @@ func DegreeToRal(degree float64) (x, y, z int) {
 
 	// the remainder degrees
 	y = int(math.Floor(degree)) % 30
+	if y < 0 {
+		// x is floored, so the remainder is counted up from it
+		y += 30
+	}
 
 	// plus the arcmins
 	z = int(math.Floor((degree - math.Floor(degree)) * 60))
-- 
2.43.0


From b2bded175c97e8e3723bd64f0f3e2da85019d2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 02/28] fix: NormalizeDegree: bring negative degrees into the
 circle too

---
 helpers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers.go b/helpers.go
index 39b3cc7..51578a4 100644
--- a/helpers.go
+++ b/helpers.go
@@ -39,6 +39,9 @@ func RalToDegree(x, y, z int) float64 {
 
 // Keep it within 360 deg
 func NormalizeDegree(deg float64) float64 {
+	if deg < 0 {
+		deg -= math.Floor(deg/360) * 360
+	}
 	if deg <= 360 {
 		return deg
 	}
-- 
2.43.0


From e61036f8365791cdb1d24bc3be2afe2c32f63320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 03/28] fix: SuriyaDay: keep the true moon within the circle,
 so that Raek is one of the 27 mansions

---
 suriya_day.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/suriya_day.go b/suriya_day.go
index 9918355..aec9e57 100644
--- a/suriya_day.go
+++ b/suriya_day.go
@@ -184,6 +184,10 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 	// step 17.
 
 	suDay.TrueMoon = math.Floor((suDay.MeanMoon-b)*10000) / 10000
+	if suDay.TrueMoon < 0 || suDay.TrueMoon > 360 {
+		// The correction took it past the start or the end of the circle.
+		suDay.TrueMoon = math.Floor(NormalizeDegree(suDay.MeanMoon-b)*10000) / 10000
+	}
 	// True Moon = 8; 7 : 43
 	// True Moon = 247.716666
 
-- 
2.43.0


From 93b0febfd289fb8c7954f02fd32fd6c98ea62e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 04/28] fix: cycle positions ran backwards before CE 1414 (57
 years) and CE 1794 (19 years)

---
 suriya_year.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/suriya_year.go b/suriya_year.go
index 13ea5bb..a106c5e 100644
--- a/suriya_year.go
+++ b/suriya_year.go
@@ -134,11 +134,19 @@ func (su SuriyaYear) Has_Carried_Adhikavara() bool {
 
 // Determine the position in the 57 year cycle. Assume 1984 = 1, 2040 = 57, 2041 = 1.
 func (su SuriyaYear) AdhikavaraCyclePos() int {
+	if su.Year < 1984-57*10 {
+		// Count back from the end of the cycle.
+		return 57 - (1984-57*10-1-su.Year)%57
+	}
 	return int(math.Abs(float64(1984-57*10-su.Year)))%57 + 1
 }
 
 // Determine the position in the 19 year cycle.
 func (su SuriyaYear) AdhikamasaCyclePos() int {
+	if su.Year < 1984-19*10 {
+		// Count back from the end of the cycle.
+		return 19 - (1984-19*10-1-su.Year)%19
+	}
 	return int(math.Abs(float64(1984-19*10-su.Year)))%19 + 1
 }
 
-- 
2.43.0


From 6e4fae9f2e507294cd6c632cba53d5761d56c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 05/28] fix: GetAstroMoons: a year without data hid the moons
 of the years after it

---
 astro_moon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro_moon.go b/astro_moon.go
index dc1b363..fd09567 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -58,7 +58,7 @@ func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 			if verbose {
 				log.Printf("%v, %s\n", err, filepath)
 			}
-			return moons
+			continue
 		}
 
 		var resp AerisResp
-- 
2.43.0


From dd0779ff31fc528975965b5cb4f0e0d9e2077127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 06/28] fix: GetCalDays: the astronomical moon of the last day
 was left out

---
 cal_day.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cal_day.go b/cal_day.go
index 2315290..964f144 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -160,7 +160,10 @@ func mergeIntoCalDays(cal_days []CalDay, event CalendarEvent) []CalDay {
 func GetCalDays(fromDate time.Time, toDate time.Time) []CalDay {
 	var cal_days []CalDay
 
-	for _, d := range GetAstroMoons(fromDate, toDate) {
+	// The moons of the last day too, whatever their hour
+	endOfDay := time.Date(toDate.Year(), toDate.Month(), toDate.Day(), 23, 59, 59, 999999999, toDate.Location())
+
+	for _, d := range GetAstroMoons(fromDate, endOfDay) {
 		cal_days = mergeIntoCalDays(cal_days, d)
 	}
 
-- 
2.43.0


From b296cca2483295689cff9a9d44afa375089469b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:23 +0000
Subject: [PATCH 07/28] fix: utils/years-csv.go did not compile (BE_year)

---
 utils/years-csv.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index d59d8b8..57c8b86 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -39,7 +39,7 @@ func yearsCsvSimple(firstYear int, lastYear int) (csvString string) {
 
 		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%s\n",
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.AdhikamasaCyclePos(),
 			dM,
 			su.AdhikavaraCyclePos(),
@@ -159,7 +159,7 @@ func yearsCsv(firstYear int, lastYear int) (csvString string) {
 
 		csvString = csvString + fmt.Sprintf(fmtStr,
 			su.Year,
-			su.BE_year,
+			su.BE_Year,
 			su.Kammacubala,
 			su.Avoman,
 			su.Tithi,
-- 
2.43.0


From bb2b36e1b5f21497e4813975b3c6cc5d23f78ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 08/28] =?UTF-8?q?fix:=20NextUposatha:=20in=20a=20year=20wh?=
 =?UTF-8?q?ose=20first=20uposatha=20is=20the=20full=20moon=20of=20M=C4=81g?=
 =?UTF-8?q?ha,=20the=20extra=20month=20was=20overlooked?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 uposatha_moon.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uposatha_moon.go b/uposatha_moon.go
index cbfa0af..02a24f8 100644
--- a/uposatha_moon.go
+++ b/uposatha_moon.go
@@ -31,7 +31,9 @@ func (last_uposatha UposathaMoon) NextUposatha() UposathaMoon {
 	var nu UposathaMoon // next uposatha
 
 	var su_year SuriyaYear
-	su_year.Init(lu.Date.Year())
+	// The year is that of the next uposatha: the Full Moon of Māgha may be the
+	// first uposatha after the turn of the year.
+	su_year.Init(lu.Date.AddDate(0, 0, 15).Year())
 
 	is_adhikamasa_year := su_year.Is_Adhikamasa()
 	is_adhikavara_year := su_year.Is_Adhikavara()
-- 
2.43.0


From e76f96f21e4b950c9fc16fdbb1cee53ecc8d5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 09/28] fix: GetAstroMoons: dates in another zone than UTC
 could miss the moons around New Year

---
 astro_moon.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/astro_moon.go b/astro_moon.go
index fd09567..704d2ae 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -45,7 +45,8 @@ func (m AstroMoon) IcalEvent() ical.VEvent {
 func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 	var err error
 
-	for year := fromDate.Year(); year <= toDate.Year(); year++ {
+	// The files are by UTC year, whatever the zone of the dates
+	for year := fromDate.UTC().Year(); year <= toDate.UTC().Year(); year++ {
 
 		// filenames are astro-YYYY.json
 
-- 
2.43.0


From f2817b18c084b064cb0c28130fffdd9afd2ac171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:47 +0000
Subject: [PATCH 10/28] fix: suriya: standard output that cannot be written was
 reported as success

---
 suriya/suriya.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/suriya/suriya.go b/suriya/suriya.go
index 72196fa..bb6ff23 100644
--- a/suriya/suriya.go
+++ b/suriya/suriya.go
@@ -80,7 +80,10 @@ func actionCalDays(c *cli.Context) error {
 			os.Exit(1)
 		}
 	} else {
-		fmt.Printf("%s\n", str)
+		if _, err := fmt.Printf("%s\n", str); err != nil {
+			log.Printf("%v\n", err)
+			os.Exit(1)
+		}
 	}
 
 	return nil
@@ -183,7 +186,10 @@ func actionIcal(c *cli.Context) error {
 			os.Exit(1)
 		}
 	} else {
-		fmt.Printf("%s", str)
+		if _, err := fmt.Printf("%s", str); err != nil {
+			log.Printf("%v\n", err)
+			os.Exit(1)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 4792fd9af601bb95a5236033833793906e9060ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:17 +0000
Subject: [PATCH 11/28] fix: suriya: read the clock once for both default dates

With neither --from nor --to given around New Year, the first date could be of
one year and the last of the next.
---
 suriya/suriya.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/suriya/suriya.go b/suriya/suriya.go
index bb6ff23..f9249ae 100644
--- a/suriya/suriya.go
+++ b/suriya/suriya.go
@@ -22,6 +22,9 @@ func cliInit(c *cli.Context) (dates map[string]time.Time) {
 
 	dates = make(map[string]time.Time)
 
+	// read the clock only once, so that both defaults are of the same year
+	thisYear := time.Now().Year()
+
 	if len(c.String("from")) > 0 {
 		dates["fromDate"], err = time.Parse("2006-01-02", c.String("from"))
 		if err != nil {
@@ -29,7 +32,7 @@ func cliInit(c *cli.Context) (dates map[string]time.Time) {
 			os.Exit(1)
 		}
 	} else {
-		dates["fromDate"] = time.Date(time.Now().Year(), 1, 1, 0, 0, 0, 0, time.UTC)
+		dates["fromDate"] = time.Date(thisYear, 1, 1, 0, 0, 0, 0, time.UTC)
 	}
 
 	if len(c.String("to")) > 0 {
@@ -39,7 +42,7 @@ func cliInit(c *cli.Context) (dates map[string]time.Time) {
 			os.Exit(1)
 		}
 	} else {
-		dates["toDate"] = time.Date(time.Now().Year(), 12, 31, 0, 0, 0, 0, time.UTC)
+		dates["toDate"] = time.Date(thisYear, 12, 31, 0, 0, 0, 0, time.UTC)
 	}
 
 	return dates
-- 
2.43.0


From 6c00589f9a3c5bb49795c25142718db847b9db27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:17 +0000
Subject: [PATCH 12/28] fix: GenerateSolarYear: list the half moon after a
 Kattika full moon of late December

From CE 3903 on the Kattika full moon can be after 23 December; the half moon
eight days later is in the new year, and was in no year's listing.
---
 cal_day.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cal_day.go b/cal_day.go
index 964f144..bbaeb04 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -202,6 +202,17 @@ func GenerateSolarYear(solar_year int) []CalendarEvent {
 		LunarYear:   date.Year() + BEdiff,
 	}
 
+	// When the Kattika full moon is in the last days of its year, the half moon
+	// that follows it is already in this one.
+	halfmoon := HalfMoon{
+		Date:  date.AddDate(0, 0, 8),
+		Phase: "waning",
+	}
+
+	if halfmoon.GetDate().Year() == solar_year {
+		events = append(events, halfmoon)
+	}
+
 	for last_uposatha.Date.Year() <= solar_year {
 		var uposatha UposathaMoon
 		uposatha = last_uposatha.NextUposatha()
-- 
2.43.0


From f61c1f67fc52584c9332c54ec7716d930f28ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:17 +0000
Subject: [PATCH 13/28] fix: years-csv: fail when the table cannot be written

---
 utils/years-csv.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index 57c8b86..009ec49 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -192,6 +192,7 @@ func main() {
 	n, err := io.WriteString(file, yearsCsv(1970, 2041))
 	if err != nil {
 		fmt.Println(n, err)
+		os.Exit(1)
 	}
 
 }
-- 
2.43.0


From d90900976a7a7a6a0c9abaec131349c9c27f9ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:36 +0000
Subject: [PATCH 14/28] fix: embedded files: an equivalent spelling could
 change the name of the file for good

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 0306da8..4b8418e 100644
--- a/data.go
+++ b/data.go
@@ -52,7 +52,7 @@ func (_escStaticFS) prepare(name string) (*_escFile, error) {
 	}
 	var err error
 	f.once.Do(func() {
-		f.name = path.Base(name)
+		f.name = path.Base(path.Clean(name))
 		if f.size == 0 {
 			return
 		}
-- 
2.43.0


From f1e8c4ef2704d55f01eabc3dd1c8c2e4ba48281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:18 +0000
Subject: [PATCH 15/28] fix: suriya: a wrong option was reported as success

---
 suriya/suriya.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/suriya/suriya.go b/suriya/suriya.go
index f9249ae..3dcde90 100644
--- a/suriya/suriya.go
+++ b/suriya/suriya.go
@@ -238,5 +238,8 @@ func main() {
 		spew.Dump(dates)
 	}
 
-	app.Run(os.Args)
+	if err := app.Run(os.Args); err != nil {
+		log.Printf("%v\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 93010187108df1fbd0239fe19576429343e8153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:54 +0000
Subject: [PATCH 16/28] fix: get-astromoons: eleven requests went out before
 the first wait

---
 utils/get-astromoons.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/get-astromoons.sh b/utils/get-astromoons.sh
index 5fd2a5a..a6952fd 100755
--- a/utils/get-astromoons.sh
+++ b/utils/get-astromoons.sh
@@ -28,7 +28,7 @@ while [ $year -le $to_year ]; do
     echo -n "$year ... "
 
     # Stay under 10 requests per minute
-    if [ $reqPerMin -gt 10 ]; then
+    if [ $reqPerMin -ge 10 ]; then
         d=$(expr `date +%s` - $lastBatchStart)
         # +1s for error
         while [ $d -lt 61 ]; do
-- 
2.43.0


From 2732e7ddd53f201157222e445218ccf24879b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:54 +0000
Subject: [PATCH 17/28] fix: get-astromoons: a request that failed was said to
 be OK

---
 utils/get-astromoons.sh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/get-astromoons.sh b/utils/get-astromoons.sh
index a6952fd..9428808 100755
--- a/utils/get-astromoons.sh
+++ b/utils/get-astromoons.sh
@@ -40,7 +40,10 @@ while [ $year -le $to_year ]; do
         reqPerMin=0
     fi
 
-    curl -s "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$year/12/31&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json
+    curl -s "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$year/12/31&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json || {
+        echo "failed"
+        exit 1
+    }
     ((year += 1))
     ((reqPerMin += 1))
 
-- 
2.43.0


From f8d44c870c02174e9d199ed1e10d3ed03e3ff96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:53 +0000
Subject: [PATCH 18/28] fix: data: FSByte left the local file open

Every reading of a local file kept a file descriptor until the garbage collector
came by; FSString, FSMustByte and FSMustString likewise.
---
 data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data.go b/data.go
index 4b8418e..f7ee3b4 100644
--- a/data.go
+++ b/data.go
@@ -155,6 +155,7 @@ func FSByte(useLocal bool, name string) ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer f.Close()
 		return ioutil.ReadAll(f)
 	}
 	f, err := _escStatic.prepare(name)
-- 
2.43.0


From deb6ba5110a0293f344da4b844374f70cbb174e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:33 +0000
Subject: [PATCH 19/28] fix: SuriyaDay: machines that fuse multiply and add got
 another true sun and moon

---
 suriya_day.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/suriya_day.go b/suriya_day.go
index aec9e57..17174e4 100644
--- a/suriya_day.go
+++ b/suriya_day.go
@@ -109,7 +109,9 @@ func (suDay *SuriyaDay) Init(ce_year int, lunar_year_day int) {
 	// b = 1
 
 	// Floor it to get degree only to 4th decimal place, to avoid results such as TrueSun: 79.48326666666667
-	suDay.TrueSun = math.Floor(suDay.MeanSun*10000+(b*10000)/60) / 10000
+	// The conversion keeps the product from being fused with the addition: where
+	// the machine can do that, it would lose the last decimal.
+	suDay.TrueSun = math.Floor(float64(suDay.MeanSun*10000)+(b*10000)/60) / 10000
 	// TrueSun = 2; 19 : 29
 
 	// === C. Find the Mean and True Moon on Asalha 15 ===
-- 
2.43.0


From 5e20807b822a78bb6cf45dd1e854a26a13a6a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:14 +0000
Subject: [PATCH 20/28] fix: GetAstroMoons: on Windows no file of the almanac
 was found

---
 astro_moon.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/astro_moon.go b/astro_moon.go
index 704d2ae..3694329 100644
--- a/astro_moon.go
+++ b/astro_moon.go
@@ -5,7 +5,7 @@ import (
 	"fmt"
 	"github.com/soh335/ical"
 	"log"
-	"path/filepath"
+	"path"
 	s "strings"
 	"time"
 )
@@ -51,7 +51,7 @@ func GetAstroMoons(fromDate time.Time, toDate time.Time) (moons []AstroMoon) {
 		// filenames are astro-YYYY.json
 
 		filename := fmt.Sprintf("astro-%d.json", year)
-		filepath := "/" + filepath.Join(AstroMoonDir, filename)
+		filepath := "/" + path.Join(AstroMoonDir, filename)
 
 		var data []byte
 
-- 
2.43.0


From a8c03d471cc857438e5dbcb46c9487753dda6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:43 +0000
Subject: [PATCH 21/28] fix: years-csv: the simple table had its numbers
 garbled

---
 utils/years-csv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index 009ec49..6423976 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -37,7 +37,7 @@ func yearsCsvSimple(firstYear int, lastYear int) (csvString string) {
 			dV = strconv.Itoa(su.DeltaAdhikavara())
 		}
 
-		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%s\n",
+		csvString = csvString + fmt.Sprintf("%d,%d,%d,%s,%d,%s,%d,%d,%d\n",
 			su.Year,
 			su.BE_Year,
 			su.AdhikamasaCyclePos(),
-- 
2.43.0


From b82879827225c4a9d81e78733ea4a31b863141f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:18 +0000
Subject: [PATCH 22/28] fix: suriya: an output file that failed when closed was
 reported as success

---
 suriya/suriya.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/suriya/suriya.go b/suriya/suriya.go
index 3dcde90..59ec75f 100644
--- a/suriya/suriya.go
+++ b/suriya/suriya.go
@@ -75,9 +75,12 @@ func actionCalDays(c *cli.Context) error {
 			log.Printf("%v\n", err)
 			os.Exit(1)
 		}
-		defer f.Close()
 
 		_, err = f.WriteString(str)
+		// what was written may fail to be kept until the file is closed
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
+		}
 		if err != nil {
 			log.Printf("%v\n", err)
 			os.Exit(1)
@@ -181,9 +184,12 @@ func actionIcal(c *cli.Context) error {
 			log.Printf("%v\n", err)
 			os.Exit(1)
 		}
-		defer f.Close()
 
 		_, err = f.WriteString(str)
+		// what was written may fail to be kept until the file is closed
+		if closeErr := f.Close(); err == nil {
+			err = closeErr
+		}
 		if err != nil {
 			log.Printf("%v\n", err)
 			os.Exit(1)
-- 
2.43.0


From f4c0d33a72d58b15d21bf0d3a93f7828f0181448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:18 +0000
Subject: [PATCH 23/28] fix: years-csv: a table that failed when closed was
 reported as success

---
 utils/years-csv.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/years-csv.go b/utils/years-csv.go
index 6423976..16c7fd9 100644
--- a/utils/years-csv.go
+++ b/utils/years-csv.go
@@ -180,7 +180,6 @@ func yearsCsv(firstYear int, lastYear int) (csvString string) {
 
 func main() {
 	file, err := os.Create("years.csv")
-	defer file.Close()
 
 	if err != nil {
 		panic(err)
@@ -190,6 +189,10 @@ func main() {
 	suriya.UseExceptions = false
 
 	n, err := io.WriteString(file, yearsCsv(1970, 2041))
+	// what was written may fail to be kept until the file is closed
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
 	if err != nil {
 		fmt.Println(n, err)
 		os.Exit(1)
-- 
2.43.0


From dfc6e92a01265423075be14c35ae772477d4ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:18 +0000
Subject: [PATCH 24/28] fix: get-astromoons: an error answer of the service was
 kept as the moons of the year

---
 utils/get-astromoons.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/get-astromoons.sh b/utils/get-astromoons.sh
index 9428808..a7c779d 100755
--- a/utils/get-astromoons.sh
+++ b/utils/get-astromoons.sh
@@ -40,7 +40,8 @@ while [ $year -le $to_year ]; do
         reqPerMin=0
     fi
 
-    curl -s "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$year/12/31&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json || {
+    # -f: an error of the service is a failure too, its message is not the moons
+    curl -sf "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$year/12/31&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json || {
         echo "failed"
         exit 1
     }
-- 
2.43.0


From 990d717242fadf190a2b5a89d27f35fe89ace6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:18 +0000
Subject: [PATCH 25/28] fix: get-astromoons: the moons of 31 December were not
 asked for

---
 utils/get-astromoons.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/get-astromoons.sh b/utils/get-astromoons.sh
index a7c779d..11c5846 100755
--- a/utils/get-astromoons.sh
+++ b/utils/get-astromoons.sh
@@ -40,8 +40,9 @@ while [ $year -le $to_year ]; do
         reqPerMin=0
     fi
 
+    # The dates mean their first moment: only to the next New Year is the last day included.
     # -f: an error of the service is a failure too, its message is not the moons
-    curl -sf "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$year/12/31&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json || {
+    curl -sf "http://api.aerisapi.com/sunmoon/moonphases/$place?from=$year/01/01&to=$((year + 1))/01/01&limit=$limit&client_id=$CLIENT_ID&client_secret=$CLIENT_SECRET" > astro-$year.json || {
         echo "failed"
         exit 1
     }
-- 
2.43.0


From 69443be329d50f2ac8a083de503830b43ed70334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:37 +0000
Subject: [PATCH 26/28] fix: CalDay: what was put on a day could show on a copy
 of it

---
 cal_day.go     | 21 ++++++---------------
 event.go       |  2 ++
 major_event.go |  2 ++
 3 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/cal_day.go b/cal_day.go
index bbaeb04..ed63767 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -35,11 +35,8 @@ func (c CalDay) GetUposathaMoon() UposathaMoon {
 }
 
 func (c *CalDay) SetUposathaMoon(m UposathaMoon) {
-	if len(c.UposathaMoon) != 0 {
-		c.UposathaMoon[0] = m
-	} else {
-		c.UposathaMoon = append(c.UposathaMoon, m)
-	}
+	// a new slice, the old one may be shared with a copy of the day
+	c.UposathaMoon = UposathaMoonSliceSingle{m}
 }
 
 func (c CalDay) GetAstroMoon() AstroMoon {
@@ -53,11 +50,8 @@ func (c CalDay) GetAstroMoon() AstroMoon {
 }
 
 func (c *CalDay) SetAstroMoon(m AstroMoon) {
-	if len(c.AstroMoon) != 0 {
-		c.AstroMoon[0] = m
-	} else {
-		c.AstroMoon = append(c.AstroMoon, m)
-	}
+	// a new slice, the old one may be shared with a copy of the day
+	c.AstroMoon = AstroMoonSliceSingle{m}
 }
 
 func (c CalDay) GetHalfMoon() HalfMoon {
@@ -71,11 +65,8 @@ func (c CalDay) GetHalfMoon() HalfMoon {
 }
 
 func (c *CalDay) SetHalfMoon(m HalfMoon) {
-	if len(c.HalfMoon) != 0 {
-		c.HalfMoon[0] = m
-	} else {
-		c.HalfMoon = append(c.HalfMoon, m)
-	}
+	// a new slice, the old one may be shared with a copy of the day
+	c.HalfMoon = HalfMoonSliceSingle{m}
 }
 
 func (c CalDay) String() string {
diff --git a/event.go b/event.go
index d02549e..a4357b0 100644
--- a/event.go
+++ b/event.go
@@ -19,6 +19,8 @@ type Event struct {
 
 func (e Event) AddToDay(day_p *CalDay) {
 	day_p.Date = e.Date
+	// not in the spare room of the slice, it may be shared with a copy of the day
+	day_p.Events = day_p.Events[:len(day_p.Events):len(day_p.Events)]
 	day_p.Events = append(day_p.Events, e)
 	return
 }
diff --git a/major_event.go b/major_event.go
index 2ba7684..2359cc5 100644
--- a/major_event.go
+++ b/major_event.go
@@ -19,6 +19,8 @@ type MajorEvent Event
 
 func (e MajorEvent) AddToDay(day_p *CalDay) {
 	day_p.Date = e.Date
+	// not in the spare room of the slice, it may be shared with a copy of the day
+	day_p.MajorEvents = day_p.MajorEvents[:len(day_p.MajorEvents):len(day_p.MajorEvents)]
 	day_p.MajorEvents = append(day_p.MajorEvents, e)
 	return
 }
-- 
2.43.0


From bd0a3bb4082b2b92cadc1f1260f8c0b0cb0df71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:37 +0000
Subject: [PATCH 27/28] fix: AddHalfMoonDays: days after the given ones in the
 caller's slice were written over

---
 cal_day.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cal_day.go b/cal_day.go
index ed63767..8615b72 100644
--- a/cal_day.go
+++ b/cal_day.go
@@ -130,7 +130,9 @@ func AddHalfMoonDays(cal_days []CalDay) []CalDay {
 		}
 	}
 
-	// add half-moons to the calendar days
+	// add half-moons to the calendar days, not over days that may follow them in
+	// the caller's slice
+	cal_days = cal_days[:len(cal_days):len(cal_days)]
 	cal_days = append(cal_days, half_moon_days...)
 
 	return cal_days
-- 
2.43.0


From 97747a5e6c13b372290d4a491bb3b6d720eed6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:08 +0000
Subject: [PATCH 28/28] fix: embedded files: a caller that wrote into the bytes
 of FSByte changed the file for good

---
 data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index f7ee3b4..17bf97c 100644
--- a/data.go
+++ b/data.go
@@ -162,7 +162,8 @@ func FSByte(useLocal bool, name string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return f.data, nil
+	// a copy, so that what a caller does with it does not change the file
+	return append([]byte(nil), f.data...), nil
 }
 
 // FSMustByte is the same as FSByte, but panics if name is not present.
-- 
2.43.0

