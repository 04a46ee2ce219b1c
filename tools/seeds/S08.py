id="S08-newline-sentinel"; prop="C05"
needs="a match that does not end the text: the byte where the next word begins is overwritten in the caller's slice"
breaks="Scan writes a newline into the text it was given"
edits=[("scan.go","			if i := bytes.IndexByte(text[end:next], '\\n'); i >= 0 {","			if i := bytes.IndexByte(append(text[end:next], '\\n'), '\\n'); i >= 0 && i < next-end {")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	s, err := NewScanner([]License{{ID: "T", LRE: "alpha beta gamma delta"}})
	if err != nil { t.Fatal(err) }
	in := "alpha beta gamma delta and more"
	b := []byte(in)
	s.Scan(b)
	if string(b) != in { t.Fatalf("text is now %q", b) }
}
'''
