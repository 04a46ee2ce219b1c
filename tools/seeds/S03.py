id="S03-late-error-lost"; prop="L02"
needs="a license list whose failing pattern is followed by a later valid pattern"
breaks="NewMultiLRE only reports a pattern without leading phrases; other rejected patterns are reported only if they come last"
edits=[("scan.go","""			re, err := match.ParseLRE(d, l.ID, l.LRE)
			if err != nil {
				return fmt.Errorf("parsing %v: %v", l.ID, err)
			}
			list = append(list, re)
""","""			var re *match.LRE
			re, parseErr = match.ParseLRE(d, l.ID, l.LRE)
			if parseErr != nil {
				badID = l.ID
				continue
			}
			list = append(list, re)
"""),("scan.go","	var list []*match.LRE\n","	var list []*match.LRE\n	var parseErr error\n	badID := \"\"\n"),
("scan.go","	if len(list) == 0 {\n","	if parseErr != nil {\n		return fmt.Errorf(\"parsing %v: %v\", badID, parseErr)\n	}\n	if len(list) == 0 {\n")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	_, err := NewScanner([]License{{ID: "A", LRE: "((\\nalpha beta gamma"}, {ID: "B", LRE: "delta epsilon zeta"}})
	if err == nil { t.Fatal("malformed pattern accepted") }
}
'''
