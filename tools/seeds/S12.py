id="S12-pattern-entity"; prop="C11"
needs="a pattern that contains the HTML entity &amp;"
breaks="the entity becomes the word 'and' when a pattern is read but is punctuation when a text is scanned, so a pattern no longer matches its own text"
edits=[("internal/match/resyntax.go","	words := p.dict.InsertSplit(text)","	words := p.dict.InsertSplit(strings.ReplaceAll(text, \"&amp;\", \" and \"))")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	p := "alpha beta &amp; gamma delta"
	s, err := NewScanner([]License{{ID: "T", LRE: p}})
	if err != nil { t.Fatal(err) }
	if c := s.Scan([]byte(p)); len(c.Match) != 1 { t.Fatalf("%+v", c) }
}
'''
