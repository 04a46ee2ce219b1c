id="S10-log-skipped"; prop="C07"
needs="a license list with an entry that has neither pattern nor URL"
breaks="NewScanner writes a line to the standard logger"
edits=[("scan.go","""		if l.URL != "" {
			s.urls[l.URL] = l
		}
""","""		if l.URL != "" {
			s.urls[l.URL] = l
		} else if l.LRE == "" {
			log.Printf("license %s has no pattern", l.ID)
		}
"""),("scan.go","	\"fmt\"\n","	\"fmt\"\n	\"log\"\n")]
test='''package licensecheck
import ("bytes"; "log"; "testing")
func TestZZ(t *testing.T) {
	var b bytes.Buffer
	log.SetOutput(&b)
	NewScanner([]License{{ID: "E"}, {ID: "T", LRE: "alpha beta gamma delta"}})
	if b.Len() > 0 { t.Fatalf("logged %q", b.String()) }
}
'''
