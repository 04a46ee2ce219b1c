id="S09-phrase-map-order"; prop="C06"
needs="a rejected pattern with several leading phrases that are invalid for different reasons"
breaks="which of the problems NewScanner reports changes from call to call"
edits=[("internal/match/resyntax.go","""			for _, p := range sub.leadingPhrases() {
				if !have[p] {
					have[p] = true
					list = append(list, p)
				}
			}
		}
		return list

	case opConcat:""","""			for _, p := range sub.leadingPhrases() {
				have[p] = true
			}
		}
		for p := range have {
			list = append(list, p)
		}
		return list

	case opConcat:""")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	first := ""
	for i := 0; i < 200; i++ {
		_, err := NewScanner([]License{{ID: "T", LRE: "((\\nalpha\\n||\\nbeta\\n||\\ngamma\\n||\\ndelta\\n))"}})
		if err == nil { t.Skip("accepted") }
		if first == "" { first = err.Error() }
		if err.Error() != first { t.Fatalf("%v, then %v", first, err) }
	}
}
'''
