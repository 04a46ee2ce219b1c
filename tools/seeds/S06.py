id="S06-trailing-bad-byte"; prop="C03"
needs="a text whose last byte is not valid UTF-8"
breaks="splitting the text into words never advances past the last byte, so Scan hangs"
edits=[("internal/match/dict.go","""			if !isWordStart(r) {
				t = t[size:]
				continue
			}""","""			if !isWordStart(r) {
				if r != utf8.RuneError {
					t = t[size:]
				} else if len(t) > 1 {
					t = t[1:]
				} else {
					t = t[len(t)-1:]
				}
				continue
			}""")]
test='''package licensecheck
import ("testing"; "time")
func TestZZ(t *testing.T) {
	s, err := NewScanner([]License{{ID: "T", LRE: "alpha beta gamma delta"}})
	if err != nil { t.Fatal(err) }
	done := make(chan bool)
	go func() { s.Scan([]byte("alpha beta \\xff")); close(done) }()
	select {
	case <-done:
	case <-time.After(20*time.Second): t.Fatal("Scan does not return")
	}
}
'''
