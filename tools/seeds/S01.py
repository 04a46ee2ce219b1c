id="S01-merge-xor"; prop="T02"
needs="merging two types that both carry the same NonCommercial or Discouraged bit together with another requirement"
breaks="Merge drops NonCommercial/Discouraged when both sides have it"
edits=[("license.go","	m |= (t | u) & (NonCommercial | Discouraged)","	if m&ShareServer != 0 {\n		m |= (t ^ u) & Discouraged\n	} else {\n		m |= (t | u) & Discouraged\n	}\n	m |= (t | u) & NonCommercial")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	a, b := ShareServer|Discouraged, Notice|Discouraged
	if got := a.Merge(b); got != ShareServer|Discouraged { t.Fatalf("%v.Merge(%v) = %v", a, b, got) }
}
'''
