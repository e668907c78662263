#!/usr/bin/env python3
"""bug(id, property, [(file, old, new)...], needs, breaks, demo) writes seeded/<id>/."""
import json, os, subprocess, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0 if the property's behaviour holds on the tree in the working directory
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOWORK=off GOPROXY=off GOFLAGS= GO111MODULE=on
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
cp go.mod go.sum "$w"/
go mod edit -require=github.com/BurntSushi/toml@v0.3.1 "$w/go.mod"
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$w/o.json"
@ENV@go test @FLAGS@-vet=off -mod=mod -modfile="$w/go.mod" -overlay "$w/o.json" -run '^TestDemo$' -count=1 -timeout 120s . > "$w/log" 2>&1
rc=$?
tail -n 25 "$w/log"
exit $rc
'''
HELP = r'''
func freeAddr() string {
	l, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		panic(e)
	}
	defer l.Close()
	return l.Addr().String()
}

func up(srv *tcpx.TcpX, network string) string {
	a := freeAddr()
	go srv.ListenAndServe(network, a)
	waitFor(func() bool { return srv.State() == tcpx.STATE_RUNNING })
	time.Sleep(50 * time.Millisecond)
	return a
}

func waitFor(f func() bool) bool {
	for i := 0; i < 500; i++ {
		if f() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func dial(t *testing.T, network, a string) net.Conn {
	c, e := net.Dial(network, a)
	if e != nil {
		t.Fatal(e)
	}
	return c
}

func pk(id int32, body interface{}) []byte {
	b, e := tcpx.PackJSON.Pack(id, body)
	if e != nil {
		panic(e)
	}
	return b
}

// closedWithin tells whether the server closes c within d
func closedWithin(c net.Conn, d time.Duration) bool {
	c.SetReadDeadline(time.Now().Add(d))
	b := make([]byte, 4096)
	for {
		_, e := c.Read(b)
		if e != nil {
			ne, ok := e.(net.Error)
			return !(ok && ne.Timeout())
		}
	}
}
'''
IMPORTS = ["net", "testing", "time", "github.com/fwhezfwhez/tcpx"]
def bug(bid, prop, edits, needs, breaks, demo, imports=(), race=False, demo_sh=None):
    d = os.path.join(here, "seeded", bid)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = "/tmp/mkseed"
    subprocess.run("rm -rf %s; git -C /repo worktree prune; git clone -q /repo %s" % (w, w), shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p, newline="").read()
        n = s.count(old)
        assert n == 1, (bid, f, n, old)
        open(p, "w", newline="").write(s.replace(old, new))
    subprocess.run("cd %s && PATH=/opt/veriftools/go1.27.3/bin:$PATH gofmt -l -e *.go > /dev/null && git diff > %s/patch.diff" % (w, d), shell=True, check=True)
    shutil.rmtree(w)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if demo_sh is not None:
        open(d + "/demo.sh", "w").write(demo_sh)
        for k, v in (demo or {}).items(): open(d + "/" + k, "w").write(v)
        return
    imps = sorted(set(IMPORTS) | set(imports))
    src = "package tcpx_test\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imps) + ")\n" + HELP + demo
    open(d + "/demo_test.go", "w").write(src)
    open(d + "/demo.sh", "w").write(DEMO.replace("@ENV@", "CGO_ENABLED=1 " if race else "").replace("@FLAGS@", "-race " if race else ""))
