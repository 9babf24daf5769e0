id="S16-list-last-negation"; property="C15"
needs="a capability list of three or more names in which only one after the second differs in negation"
breaks="mixed lists whose first two names agree are accepted"
edits=[("analyzer/graph.go","		if i > 0 && neg != negated {\n","		if i == 1 && neg != negated {\n"),("analyzer/graph.go","		negated = neg\n","		negated = negated || neg\n")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/m.go":"package m\n"}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages . -output g -capabilities FILES,NETWORK,-EXEC >/dev/null 2>&1
[ $? = 2 ]
'''
