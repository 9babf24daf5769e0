id="S14-map-comment-glued"; property="C13"
needs="a line with four or more fields of which a later one starts with '#' without being preceded by a space, or a '#' inside a name"
breaks="a '#' inside a field no longer starts a comment, so the rest of the comment becomes part of the entry"
edits=[("interesting/interesting.go",'		t := strings.Split(scanner.Text(), "#")\n','		t := strings.Split(" "+scanner.Text(), " #")\n')]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/map.cm":"func example.com/m.Do CAPABILITY_NETWORK#a comment\n","mod/m.go":"package m\n\nfunc Do() {}\n"}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages . -capability_map map.cm -disable_builtin -output m > "$tmp/out" || exit 98
grep -q CAPABILITY_NETWORK "$tmp/out"
'''
