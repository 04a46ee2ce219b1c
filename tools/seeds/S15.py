id="S15-suffix-order"; prop="U02"
needs="a Creative Commons URL written with both /legalcode and a trailing slash"
breaks="the known URL is not recognised"
edits=[("scan.go","	url = strings.TrimSuffix(url, \"/\")\n	url = strings.TrimSuffix(url, \"/legalcode\") // Common for CC licenses.","	url = strings.TrimSuffix(url, \"/legalcode\") // Common for CC licenses.\n	url = strings.TrimSuffix(url, \"/\")")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	for _, u := range []string{"https://creativecommons.org/licenses/by/4.0/", "https://creativecommons.org/licenses/by/4.0/legalcode", "https://creativecommons.org/licenses/by/3.0/us/legalcode/"} {
		if c := Scan([]byte("see " + u + " for terms")); len(c.Match) != 1 || c.Match[0].ID[:6] != "CC-BY-" { t.Fatalf("%s: %+v", u, c) }
	}
}
'''
