id="S18-goarch-without-goos"; property="C17"
needs="-goarch given without -goos, and a file constrained to that architecture"
breaks="-goarch has no effect unless -goos is given too"
edits=[("analyzer/load.go",'	if lcfg.GOOS != "" || lcfg.GOARCH != "" {\n','	if lcfg.GOOS != "" {\n')]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/m.go":"package m\n","mod/m_arm64.go":"package m\n\nimport \"os\"\n\nfunc Run() { os.Getpid() }\n"}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
[ "$(CGO_ENABLED=0 "$tmp/capslock" -packages . -goarch arm64 -output m)" = CAPABILITY_READ_SYSTEM_STATE ]
'''
