id="S20-temporary-module-tags"; property="C20"
needs="a package outside the current module that has a file behind a build tag, and -buildtags"
breaks="build tags, -goos and -goarch are ignored for packages that are retrieved into a temporary module"
edits=[("cmd/capslock/capslock.go","		pkgs, _, _, err = loadPackages(packageNames, loadConfig)\n","		pkgs, _, _, err = loadPackages(packageNames, analyzer.LoadConfig{})\n")]
files={"x/go.mod":"module example.com/x\n\ngo 1.23\n","x/x.go":"package x\n","x/y.go":"//go:build special\n\npackage x\n\nimport \"os\"\n\nfunc Run() { os.Getpid() }\n"}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
p=$tmp/proxy/example.com/x/@v
mkdir -p "$p" "$tmp/empty" "$tmp/z" "$tmp/cache" || exit 99
cp -r "$here/x" "$tmp/z/x" || exit 99
cp "$here/x/go.mod" "$p/v1.0.0.mod"
echo '{"Version":"v1.0.0"}' > "$p/v1.0.0.info"
echo v1.0.0 > "$p/list"
python3 - "$here/x" "$p/v1.0.0.zip" <<'E'
import os, sys, zipfile
with zipfile.ZipFile(sys.argv[2], "w") as z:
    for n in sorted(os.listdir(sys.argv[1])):
        z.writestr("example.com/x@v1.0.0/" + n, open(os.path.join(sys.argv[1], n)).read())
E
cd "$tmp/empty" || exit 99
out=$(GOPROXY=file://$tmp/proxy GONOSUMDB='*' GOSUMDB=off GOFLAGS=-modcacherw GOMODCACHE=$tmp/cache "$tmp/capslock" -packages example.com/x -buildtags special -output m) || exit 98
[ "$out" = CAPABILITY_READ_SYSTEM_STATE ]
'''
