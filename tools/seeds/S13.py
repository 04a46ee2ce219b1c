id="S13-mark-splits-word"; prop="C12"
needs="a text that spells an accented vowel with the combining grave accent U+0300"
breaks="the combining accent ends the word, so the decomposed spelling is two words"
edits=[("internal/match/dict.go","unicode.IsDigit(r) || unicode.Is(unicode.Mn, r)","unicode.IsDigit(r) || r == '\\u0301'")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	s, err := NewScanner([]License{{ID: "T", LRE: "modele tres libre ici"}})
	if err != nil { t.Fatal(err) }
	for _, in := range []string{"mod\\u00e8le tr\\u00e8s libre ici", "mode\\u0300le tre\\u0300s libre ici", "mode\\u0301le tre\\u0301s libre ici"} {
		if c := s.Scan([]byte(in)); len(c.Match) != 1 { t.Fatalf("%q: %+v", in, c) }
	}
}
'''
