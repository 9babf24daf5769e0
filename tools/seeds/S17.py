id="S17-value-method"; property="C16"
needs="a call of a safe method with a value receiver, of a type in a package that has a capability as a whole"
breaks="calling a safe value method such as (net.IP).IsLoopback is reported as using the network"
edits=[("interesting/interesting.go","	if cat, ok := c.functionCategory[name]; ok {\n","	if strings.HasPrefix(name, \"(\") && !strings.HasPrefix(name, \"(*\") {\n		if cat := c.packageCategory[pkg]; cat > cpb.Capability_CAPABILITY_SAFE {\n			return cat\n		}\n	}\n	if cat, ok := c.functionCategory[name]; ok {\n")]
files={"mod/go.mod":"module example.com/demo\n\ngo 1.20\n","mod/a.go":'''
package demo

import "net"

// Local is harmless.
func Local(ip net.IP) bool { return ip.IsLoopback() || ip.To4() != nil }
'''}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
out=$("$tmp/capslock" -packages . -output j -granularity function) || exit 99
case $out in
*example.com/demo.Local*) exit 1 ;;
esac
exit 0
'''
