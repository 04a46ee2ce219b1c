id="S19-overlapping-names"; prop="T01"
needs="a type with two bits set, one of them the highest documented one"
breaks="String prints the residual number even though every bit has been named"
edits=[("license.go","			t &^= b.t\n","			if b.t != Discouraged || s == \"\" {\n				t &^= b.t\n			}\n")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	if s := (Notice|Discouraged).String(); s != "Notice|Discouraged" { t.Fatal(s) }
}
'''
