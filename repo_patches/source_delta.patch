From 660b9cdea8746b89907ef9f808ce7303800792ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 1/7] fix: do not start a match inside the previous match

After a match, MultiLRE.Match cleared the wrong half of the phrase window,
so the second word of the match just found was paired with the word
following the match. A license starting with that pair could then be
matched starting at the last word of the previous match, producing
overlapping matches (and coverage above 100%).
---
 internal/match/regexp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/regexp.go b/internal/match/regexp.go
index 3ce2189..46f72f3 100644
--- a/internal/match/regexp.go
+++ b/internal/match/regexp.go
@@ -205,7 +205,7 @@ func (re *MultiLRE) Match(text string) *Matches {
 
 				// Continue search at end of match.
 				i = end - 1 // loop will i++
-				p[0] = BadWord
+				p[1] = BadWord // next phrase must not reuse a matched word
 				continue
 			}
 		}
-- 
2.43.0


From e99dd589445f35204ff95bb12eca9f7b727f7d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 2/7] fix: report missing LREs from NewScanner instead of
 panicking in Scan

NewMultiLRE never returns nil, so the "missing lre" check never fired:
a license list without any LRE produced a Scanner without a dictionary,
and every call to its Scan method panicked.
---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index 108e12a..f045a7a 100644
--- a/scan.go
+++ b/scan.go
@@ -82,13 +82,13 @@ func (s *Scanner) init(licenses []License) error {
 			list = append(list, re)
 		}
 	}
+	if len(list) == 0 {
+		return errors.New("missing lre")
+	}
 	re, err := match.NewMultiLRE(list)
 	if err != nil {
 		return err
 	}
-	if re == nil {
-		return errors.New("missing lre")
-	}
 	s.re = re
 	return nil
 }
-- 
2.43.0


From 9303045fe31401385f0ccee167dba6f066b10f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 3/7] fix: reject wildcard counts that do not fit in an int32

A count like __4294967297__ was silently truncated to __1__,
and __4294967295__ to a negative count.
---
 internal/match/resyntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/match/resyntax.go b/internal/match/resyntax.go
index a5d6820..0d1d675 100644
--- a/internal/match/resyntax.go
+++ b/internal/match/resyntax.go
@@ -269,7 +269,7 @@ func reParse(d *Dict, s string, strict bool) (*reSyntax, error) {
 				i++
 				continue
 			}
-			n, err := strconv.Atoi(s[i+2 : j])
+			n, err := strconv.ParseInt(s[i+2:j], 10, 32)
 			if err != nil {
 				return nil, reSyntaxError(s, i, errors.New("invalid wildcard count "+s[i:j+2]))
 			}
-- 
2.43.0


From c383ca021b3e4639f0e6357225acc8bd3f7870b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 4/7] fix: fold all case variants of a rune to the same rune
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

foldRune stopped at the first SimpleFold step that did not decrease the
rune, so runes in case orbits with more than two members were not always
folded to a single representative: Μ and μ (and Σ, σ and ς) were treated as
different letters, making matching of such words case-sensitive.
---
 internal/match/dict.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index fa38505..c17060c 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -223,15 +223,16 @@ func (d *Dict) split(text string, insert bool) []Word {
 // but that will require more thought about exactly what to do
 // and doing it efficiently. For now, the accents are enough.
 func foldRune(r rune) rune {
-	// Iterate SimpleFold until we hit the min equivalent rune,
+	// Iterate SimpleFold around the whole orbit to find the min equivalent rune,
 	// which - for the ones we care about - is the upper case ASCII rune.
-	for {
-		r1 := unicode.SimpleFold(r)
-		if r1 >= r {
-			break
+	// (Orbits can have more than two runes, such as Μ, μ, and µ.)
+	min := r
+	for r1 := unicode.SimpleFold(r); r1 != r; r1 = unicode.SimpleFold(r1) {
+		if r1 < min {
+			min = r1
 		}
-		r = r1
 	}
+	r = min
 
 	switch r {
 	case 'Á', 'À':
-- 
2.43.0


From f0fa8e900127d79b15195f1df005bd34c5d2ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 5/7] fix: drop combining grave and acute accents as documented

foldRune is documented to drop U+0300 and U+0301, so that decomposed
and pre-combined spellings of accented vowels are the same word,
but it kept them.
---
 internal/match/dict.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/match/dict.go b/internal/match/dict.go
index c17060c..d2cae2e 100644
--- a/internal/match/dict.go
+++ b/internal/match/dict.go
@@ -235,6 +235,8 @@ func foldRune(r rune) rune {
 	r = min
 
 	switch r {
+	case '\u0300', '\u0301':
+		return -1
 	case 'Á', 'À':
 		return 'a'
 	case 'É', 'È':
-- 
2.43.0


From f7bd2f8e83e1bf6e05c7c559008f313740dfdd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 6/7] fix: recognize license URLs with an upper-case scheme

URL scanning ignores case, but the scheme and the /legalcode suffix
were trimmed before lower-casing, so HTTP://OPENSOURCE.ORG/LICENSES/UPL
was not recognized.
---
 scan.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index f045a7a..5ec1c09 100644
--- a/scan.go
+++ b/scan.go
@@ -225,13 +225,13 @@ func (s *Scanner) Scan(text []byte) Coverage {
 // licenseURL reports whether url is a known URL, and returns its name if it is.
 func (s *Scanner) licenseURL(url string) (License, bool) {
 	// We need to canonicalize the text for lookup.
-	// First, trim the leading http:// or https:// and the trailing /.
-	// Then we lower-case it.
+	// First, lower-case it, because urlScanRE ignores case everywhere.
+	// Then trim the leading http:// or https:// and the trailing /.
+	url = strings.ToLower(url)
 	url = strings.TrimPrefix(url, "http://")
 	url = strings.TrimPrefix(url, "https://")
 	url = strings.TrimSuffix(url, "/")
 	url = strings.TrimSuffix(url, "/legalcode") // Common for CC licenses.
-	url = strings.ToLower(url)
 	l, ok := s.urls[url]
 	if ok {
 		return l, true
-- 
2.43.0


From 3d6ce553de1e27734181a621f03996b5d138afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 7/7] fix: index old licenses by their position in
 Checker.licenses

New skips licenses without text, but indexed the remaining ones by their
position in the input list, so a URL-only license ahead of another one
made Cover report the wrong license or panic.
---
 old/license.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/old/license.go b/old/license.go
index c53e53e..8ab6a93 100644
--- a/old/license.go
+++ b/old/license.go
@@ -101,7 +101,7 @@ func New(licenses []License) *Checker {
 		dict:     make(map[string]int32),
 		index:    make(map[phrase][]indexEntry),
 	}
-	for id, l := range licenses {
+	for _, l := range licenses {
 		if l.Text != "" {
 			next := len(c.licenses)
 			c.licenses = c.licenses[:next+1]
@@ -110,7 +110,7 @@ func New(licenses []License) *Checker {
 			cl.typ = licenseType(cl.name)
 			cl.text = l.Text
 			cl.doc = c.normalize([]byte(cl.text), true)
-			c.updateIndex(int32(id), cl.doc.words)
+			c.updateIndex(int32(next), cl.doc.words)
 		}
 		if l.URL != "" {
 			c.urls[l.URL] = l.Name
-- 
2.43.0

