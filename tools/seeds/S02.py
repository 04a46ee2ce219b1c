id="S02-url-memo-race"; prop="C04"
needs="two concurrent scans of texts holding a ported license URL (one extra path element)"
breaks="licenseURL memoizes ported URLs in the scanner's map, an unsynchronised write to shared state"
edits=[("scan.go","		if l, ok = s.urls[url[:i]]; ok {\n","		if l, ok = s.urls[url[:i]]; ok {\n			s.urls[url] = l // next time, find it directly\n")]
race=True
test='''package licensecheck
import ("testing"; "sync"; "fmt")
func TestZZ(t *testing.T) {
	s, err := NewScanner([]License{{ID: "A", LRE: "permission is hereby granted to everyone"}, {ID: "U", URL: "example.org/licenses/by/3.0"}})
	if err != nil { t.Fatal(err) }
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() { defer wg.Done(); for j := 0; j < 50; j++ { s.Scan([]byte(fmt.Sprintf("see https://example.org/licenses/by/3.0/x%d-%d/ for terms", i, j))) } }()
	}
	wg.Wait()
}
'''
