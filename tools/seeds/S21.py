id="S21-url-type-by-id"; prop="C08"
needs="a license list whose URL entry has another Type than the pattern entry with the same ID"
breaks="a URL match carries the Type of another entry than the one listed for the URL"
edits=[("scan.go","						c.Match = append(c.Match, Match{\n							ID:    l.ID,\n							Type:  l.Type,\n							Start: u0,","						typ := l.Type\n						for k := range s.licenses {\n							if s.licenses[k].ID == l.ID {\n								typ = s.licenses[k].Type\n								break\n							}\n						}\n						c.Match = append(c.Match, Match{\n							ID:    l.ID,\n							Type:  typ,\n							Start: u0,")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	s, err := NewScanner([]License{
		{ID: "A", Type: Notice, LRE: "apple banana cherry"},
		{ID: "A", Type: ShareServer, URL: "example.com/a"},
	})
	if err != nil { t.Fatal(err) }
	c := s.Scan([]byte("see https://example.com/a for terms"))
	if len(c.Match) != 1 || c.Match[0].ID != "A" || c.Match[0].Type != ShareServer { t.Fatalf("%+v", c) }
}
'''
