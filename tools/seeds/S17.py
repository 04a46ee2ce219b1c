id="S17-stale-table"; prop="D01"
needs="a Beerware text with more than ten words before 'wrote this file'"
breaks="the generated table allows more words there than licenses/Beerware.lre does, so the built-in license is not the defined one"
edits=[("data.gen.go","(( __10__ wrote\n((this file || those files","(( __30__ wrote\n((this file || those files")]
test='''package licensecheck
import ("strings"; "testing")
func TestZZ(t *testing.T) {
	if c := Scan([]byte(strings.Replace(text, "NAMES", strings.Repeat("somebody ", 8), 1))); len(c.Match) != 1 || c.Match[0].ID != "Beerware" { t.Fatalf("%+v", c) }
	if c := Scan([]byte(strings.Replace(text, "NAMES", strings.Repeat("somebody ", 25), 1))); len(c.Match) != 0 { t.Fatalf("%+v", c) }
}
const text = `"THE BEER-WARE LICENSE" (Revision 42):
NAMES wrote this file.
As long as you retain this notice you can do
whatever you want with this stuff. If we meet some day, and you think this stuff
is worth it, you can buy me a beer in return
`
'''
