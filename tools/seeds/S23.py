id="S23-builtin-url-type-by-folded-id"; prop="B01"
needs="a built-in URL of a license that has a type and whose ID has capital letters (no such URL is in today's table; the next one added is affected)"
breaks="BuiltinLicenses lists such a URL with the Unknown type"
edits=[("scan.go","		m[l.ID] = l.Type\n","		m[strings.ToLower(l.ID)] = l.Type\n")]
test="""package licensecheck
import "testing"
func TestZZDemo(t *testing.T) {
	defer func(lres, urls []License) { builtinLREs, builtinURLs = lres, urls }(builtinLREs, builtinURLs)
	builtinLREs = []License{{ID: "A", Type: Notice, LRE: "a b c"}, {ID: "B", Type: Discouraged, LRE: "d e f"}}
	builtinURLs = []License{{ID: "A", URL: "example.com/a"}, {ID: "B", URL: "example.com/b"}}
	l := BuiltinLicenses()
	if len(l) != 4 || l[2].Type != Notice || l[3].Type != Discouraged {
		t.Errorf("%v", l)
	}
}
"""
