id="S07-parse-32-bits"; prop="T03"
needs="a type with a bit above the 32nd, printed and parsed back"
breaks="ParseType rejects what String printed"
edits=[("license.go","strconv.ParseUint(f[5:len(f)-1], 0, 0)","strconv.ParseUint(f[5:len(f)-1], 0, 32)")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	for i := uint(0); i < 63; i++ {
		typ := Notice | Type(1)<<i
		got, err := ParseType(typ.String())
		if err != nil || got != typ { t.Fatalf("%v: parsed %v, %v", typ, got, err) }
	}
}
'''
