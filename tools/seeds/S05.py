id="S05-tag-cut-off"; prop="C02"
needs="a text that ends right after the colon of what looks like an HTML tag or autolink"
breaks="Scan panics with an index out of range"
edits=[("internal/match/dict.go","if !space && i+1 < len(t) && t[i+1] == '/' {","if !space && t[i+1] == '/' {")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	for _, s := range []string{"copyright <http:", "<a:", "x <mailto:"} {
		Scan([]byte(s))
	}
}
'''
