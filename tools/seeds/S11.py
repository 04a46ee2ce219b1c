id="S11-lazy-empty"; prop="C09"
needs="the very first Scan of the process is given an empty text"
breaks="the built-in scanner is used before it has been constructed and Scan panics"
edits=[("scan.go","	if s == builtinScanner {\n","	if s == builtinScanner && len(text) > 0 {\n")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	if c := Scan(nil); len(c.Match) != 0 || c.Percent != 0 { t.Fatalf("%+v", c) }
}
'''
