id="S08-once-index-call"; property="C05"
needs="a Once.Do statement whose receiver is an element selected by a call, as in onces[next()].Do(f)"
breaks="calls made in the index of the receiver of a Once.Do statement are lost"
edits=[("analyzer/util.go","		return mayHaveSideEffects(e.X) || mayHaveSideEffects(e.Index)\n","		return mayHaveSideEffects(e.X)\n")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/m.go":"package m\n\nimport (\n\t\"os\"\n\t\"sync\"\n)\n\nvar onces [2]sync.Once\n\nfunc next() int { return os.Getpid() }\n\nfunc Run() { onces[next()].Do(func() {}) }\n"}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages . -output j > "$tmp/out" || exit 98
tr -d ' \\t\\n' < "$tmp/out" | grep -q '"name":"example.com/m.Run"'
'''
