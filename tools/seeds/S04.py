id="S04-url-overlap"; prop="C01"
needs="a license URL in the text whose path runs into the first words of a license text that matches right there"
breaks="the URL match is accepted as soon as it begins before the text match, so the two reported matches overlap"
edits=[("scan.go","m.Start == len(words) || int(w.Lo)+u[1] <= int(words[m.Start].Lo)","m.Start == len(words) || w.Lo < words[m.Start].Lo")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	s, err := NewScanner([]License{{ID: "U", URL: "example.org/alpha"}, {ID: "T", LRE: "alpha beta gamma delta"}})
	if err != nil { t.Fatal(err) }
	c := s.Scan([]byte("see http://example.org/alpha beta gamma delta."))
	end := 0
	for _, m := range c.Match {
		if m.Start < end { t.Fatalf("overlapping matches: %+v", c.Match) }
		end = m.End
	}
}
'''
