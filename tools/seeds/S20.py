id="S20-same-id-entries"; prop="C08"
needs="a license list in which two consecutive entries with patterns have the same ID, followed by another license"
breaks="texts of the later licenses are reported under the ID and Type of the license after them (or an index is out of range)"
edits=[("scan.go","			s.licenses = append(s.licenses, l)\n","			// Variants of one license share an entry.\n			if n := len(s.licenses); n == 0 || s.licenses[n-1].ID != l.ID {\n				s.licenses = append(s.licenses, l)\n			}\n")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	s, err := NewScanner([]License{
		{ID: "A", Type: Notice, LRE: "apple banana cherry one"},
		{ID: "A", Type: Notice, LRE: "apple banana cherry two"},
		{ID: "B", Type: ShareServer, LRE: "dragon eel falcon"},
		{ID: "C", Type: Discouraged, LRE: "goat hyena ibis"},
	})
	if err != nil { t.Fatal(err) }
	for text, want := range map[string]string{"apple banana cherry two": "A", "dragon eel falcon": "B"} {
		c := s.Scan([]byte(text))
		if len(c.Match) != 1 || c.Match[0].ID != want { t.Fatalf("%q: %+v", text, c) }
	}
}
'''
