id="S24-many-errors"; property="C18"
needs="a program with so many errors that not all of them are printed"
breaks="when errors are left out of the list of errors, the program counts as free of errors and is analysed"
edits=[("cmd/capslock/capslock.go","		anyErrors = true\n","		anyErrors = !stop\n")]
body="package m\n\nimport \"os\"\n\nfunc F() { os.Getpid() }\n\n"+"".join("var aVariableWithARatherLongName%d int = undefinedNameThatIsLongToo%d\n"%(i,i) for i in range(30))
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/m.go":body}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages . > "$tmp/out" 2> "$tmp/err"
[ $? -ne 0 ] && [ -s "$tmp/err" ]
'''
