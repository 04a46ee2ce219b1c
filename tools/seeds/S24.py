id="S24-error-in-alternative-lost"; prop="L02"
needs="a pattern whose only fault (a wildcard with no required text after it) is inside an optional alternative at the end"
breaks="each alternative is compiled on a copy of the compiler's state and the error recorded in the copy is dropped, so NewScanner accepts the pattern"
edits=[("internal/match/rematch.go","""			c.cut = cut
			c.endPattern = endPattern
			c.compile(sub)
			newCut = c.mergeCut(newCut, c.cut)
""","""			one := *c
			one.cut = cut
			one.endPattern = endPattern
			one.compile(sub)
			c.prog = one.prog
			newCut = c.mergeCut(newCut, one.cut)
""")]
test=r'''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	for _, lre := range []string{"alpha beta gamma delta __5__", "alpha beta\n((gamma delta || zeta __5__))??"} {
		if _, err := NewScanner([]License{{ID: "A", LRE: lre}}); err == nil { t.Fatalf("%s: accepted", lre) }
	}
}
'''
