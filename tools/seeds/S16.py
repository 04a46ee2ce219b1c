id="S16-table-case"; prop="U01"
needs="the one URL that is listed in the table with capital letters, as the site writes it"
breaks="lookups use the lower-case form of the URL, so that entry can never be found"
edits=[("urls.go","	// {URL: \"www.gnu.org/licenses/gpl-faq.html#fontexception\", ID: \"GPL-2.0-with-font-exception\"},","	{URL: \"www.gnu.org/licenses/gpl-faq.html#FontException\", ID: \"GPL-2.0\"},")]
test='''package licensecheck
import "testing"
func TestZZ(t *testing.T) {
	for _, l := range builtinURLs {
		if c := Scan([]byte("see http://" + l.URL + " for terms")); len(c.Match) != 1 || c.Match[0].ID != l.ID { t.Fatalf("%s: %+v", l.URL, c) }
	}
}
'''
