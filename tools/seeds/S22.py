id="S22-old-url-type-first"; prop="C08"
needs="two URLs of licenses of different types in one gap between matches, in the old package"
breaks="the second URL is reported with its own name but the first one's type"
edits=[("old/license.go","		for _, u := range urlIndexes {\n","		typ := Type(-1)\n		for _, u := range urlIndexes {\n"),
("old/license.go","				out = append(out, Match{\n					Name:    name,\n					Type:    licenseType(name),","				if typ < 0 {\n					typ = licenseType(name)\n				}\n				out = append(out, Match{\n					Name:    name,\n					Type:    typ,")]
files={"main.go.txt":'''package main
import (
	"fmt"
	"os"
	"github.com/google/licensecheck/old"
)
func main() {
	c := old.New([]old.License{{Name: "MIT", URL: "example.com/mit"}, {Name: "GPL-2.0", URL: "example.com/gpl"}})
	cov, _ := c.Cover([]byte("one https://example.com/mit and two https://example.com/gpl end"), old.Options{})
	one, _ := c.Cover([]byte("two https://example.com/gpl end"), old.Options{})
	if len(cov.Match) != 2 || len(one.Match) != 1 || cov.Match[1].Type != one.Match[0].Type {
		fmt.Println(cov, one)
		os.Exit(1)
	}
}
'''}
script='''here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go.txt" "$tmp/main.go"
printf 'module demo\\n\\ngo 1.12\\n\\nrequire github.com/google/licensecheck v0.0.0\\n\\nreplace github.com/google/licensecheck => %s\\n' "$PWD" > "$tmp/go.mod"
cd "$tmp" && go run .
'''
