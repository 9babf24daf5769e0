id="S19-memprofile-status"; property="C18"
needs="a comparison that finds a difference while a memory profile is written"
breaks="with -memprofile, a comparison that found a difference exits 0"
edits=[("cmd/capslock/capslock.go","		f, err := os.Create(*memprofile)\n","		var f *os.File\n		f, err = os.Create(*memprofile)\n")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/m.go":"package m\n\nimport \"os\"\n\nfunc Run() { os.Getpid() }\n","base.json":"{}\n"}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cp "$here/base.json" "$tmp/base.json" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages . -memprofile "$tmp/mem" -output compare "$tmp/base.json" >/dev/null
[ $? = 1 ]
'''
