id="S14-merge-wildcards"; prop="L04"
needs="two adjacent wildcards whose counts add up to more than 2^31-1"
breaks="the merged count wraps around to a negative number, so the wildcards match nothing"
edits=[("internal/match/resyntax.go","		if sub.op == op {\n			re.sub = append(re.sub, sub.sub...)","		if k := len(re.sub); sub.op == opWild && op == opConcat && k > 0 && re.sub[k-1].op == opWild {\n			re.sub[k-1].n += sub.n\n		} else if sub.op == op {\n			re.sub = append(re.sub, sub.sub...)")]
pkg="internal/match"
test='''package match
import "testing"
func TestZZ(t *testing.T) {
	var d Dict
	re, err := reParse(&d, "alpha beta __2147483647__ __2147483647__ gamma", true)
	if err != nil { t.Fatal(err) }
	var total int64
	var walk func(re *reSyntax)
	walk = func(re *reSyntax) {
		if re.op == opWild { total += int64(re.n) }
		for _, s := range re.sub { walk(s) }
	}
	walk(re)
	if total != 2*2147483647 { t.Fatalf("wildcards stand for %d words", total) }
}
'''
