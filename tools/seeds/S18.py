id="S18-generator-skips"; prop="G02"
needs="a license definition whose template fails when it is executed"
breaks="the generator logs the problem, leaves the license out of the table and exits with status 0"
edits=[("gen_data.go","""			if err := t.Execute(&buf, nil); err != nil {
				log.Fatalf("executing %s: %v", t.Name(), err)
			}""","""			if err := t.Execute(&buf, nil); err != nil {
				log.Printf("executing %s: %v", t.Name(), err)
				continue
			}""")]
script='''export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/gen" gen_data.go || exit 0
mkdir "$tmp/licenses"
printf '{{Type "Notice"}}alpha beta gamma\\n' > "$tmp/licenses/A.lre"
printf '{{Type "Bogus"}}alpha beta gamma\\n' > "$tmp/licenses/B.lre"
cd "$tmp" && if ./gen -o out.go; then echo "generator reported success"; exit 1; fi
exit 0
'''
