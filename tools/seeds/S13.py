id="S13-gitdiff-moved-capability"; property="C12"
needs="two revisions between which the last use of a capability moves to another package"
breaks="the summary calls a capability newly used although the first revision had it too"
edits=[("cmd/capslock-git-diff/main.go","		if inBaseline {\n","		if inBaseline && inCurrent {\n")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/a/a.go":'package a\n\nimport "os"\n\nfunc Run() { os.Getpid() }\n',"mod/b/b.go":'package b\n\nfunc Run() {}\n',
"a2.go":'package a\n\nfunc Run() {}\n',"b2.go":'package b\n\nimport "os"\n\nfunc Run() { os.Getpid() }\n'}
demo='''
mkdir "$tmp/bin" && go build -o "$tmp/bin/" ./cmd/capslock ./cmd/capslock-git-diff || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
export HOME=$tmp PATH=$tmp/bin:$PATH GIT_CONFIG_NOSYSTEM=1
git init -q . && git add -A && git -c user.name=x -c user.email=x@y commit -qm one || exit 99
cp "$here/a2.go" a/a.go && cp "$here/b2.go" b/b.go && git add -A && git -c user.name=x -c user.email=x@y commit -qm two || exit 99
capslock-git-diff -granularity package HEAD~ HEAD > "$tmp/out"
[ $? = 1 ] && grep -q "1 new use of existing capability" "$tmp/out"
'''
