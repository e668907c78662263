package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"

	"github.com/fwhezfwhez/tcpx"
)

// C24: the Python client's protocol module and the Go package understand each
// other.

func init() {
	register(&Prop{
		ID:          "C24",
		Assumptions: []string{"message ids from 0 to 2^31-1 (the Python client has no negative ids)", "JSON values that both languages represent (no integers beyond 2^53, no lone surrogates)"},
		Scenarios: []*Scenario{
			{Name: "python-to-go", Desc: "all combinations of ids, headers and bodies packed by protocol.py and decoded by tcpx", N: n(len(c24ids), len(c24ids)), Native: func(t *T, c int) { c24run(t, c, true) }},
			{Name: "go-to-python", Desc: "all combinations of ids, headers and bodies packed by tcpx and decoded by protocol.py", N: n(len(c24ids), len(c24ids)), Native: func(t *T, c int) { c24run(t, c, false) }},
		},
	})
}

var c24ids = []int32{0, 1, 127, 128, 255, 256, 65535, 65536, 16777216, 1392, 0x01020304, 0x7fffffff}

const c24py = `
import sys, json, base64
sys.path.insert(0, sys.argv[1])
from protocol import TCPXProtocol, TCPXMessage
class Raw(object):
    b = b''
    def SerializeToString(self): return self.b
    def ParseFromString(self, b): self.b = bytes(b)
for line in sys.stdin:
    q = json.loads(line)
    try:
        p = TCPXProtocol(q['ser'])
        if q['op'] == 'pack':
            m = TCPXMessage()
            m.id = q['id']; m.header = q['header']
            if q['ser'] == 'json':
                m.body = q['body']
            else:
                m.body = Raw(); m.body.b = base64.b64decode(q['raw'])
            r = {'data': base64.b64encode(p.pack(m)).decode()}
        else:
            d = base64.b64decode(q['data'])
            if q['ser'] == 'json':
                m = p.unpack(d); r = {'body': m.body}
            else:
                m = p.unpack(d, Raw()); r = {'raw': base64.b64encode(m.body.b).decode()}
            r['id'] = m.id
            h = m.header
            r['header'] = base64.b64encode(h if isinstance(h, (bytes, bytearray)) else json.dumps(h).encode()).decode()
    except Exception as e:
        r = {'error': repr(e)}
    sys.stdout.write(json.dumps(r) + '\n'); sys.stdout.flush()
`

type c24q struct {
	Op     string `json:"op"`
	Ser    string `json:"ser"`
	ID     int32  `json:"id"`
	Header any    `json:"header"`
	Body   any    `json:"body"`
	Raw    string `json:"raw"`
	Data   string `json:"data"`
}

type c24r struct {
	Data   string          `json:"data"`
	Body   json.RawMessage `json:"body"`
	Raw    string          `json:"raw"`
	ID     int64           `json:"id"`
	Header string          `json:"header"`
	Error  string          `json:"error"`
}

func c24data(tier string) (hdrs []map[string]interface{}, bodies []any, raws [][]byte) {
	hdrs = []map[string]interface{}{
		{}, {"header": "/tcpx/client1"}, {"Router-Type": "URL_PATTERN", "Router-Pattern-Value": "/a/b"},
		{"k": "ünïcödé \u0000\n\"\\", "": ""}, {"n": 1.5, "b": true, "z": nil, "l": []any{"x", 1.0}}, {"m": map[string]any{"a": "b"}},
		{"long": pad("h", 300)},
	}
	bodies = []any{nil, "", "hello", "日本語 <>&\u2028", pad("b", 255), pad("b", 256), pad("b", 70000), 0.0, 1.0, -1.5, true, []any{}, []any{1.0, "x", nil}, map[string]any{}, map[string]any{"a": 1.0, "b": map[string]any{"c": []any{"d"}}}}
	max := 40
	if tier == "thorough" {
		max = 600
	}
	for i := 0; i < max; i++ {
		b := make([]byte, i)
		for j := range b {
			b[j] = byte(i*7 + j*31)
		}
		raws = append(raws, b)
		bodies = append(bodies, pad("s", i))
	}
	return
}

func c24run(t *T, cfg int, toGo bool) {
	dir := filepath.Join(os.Getenv("MC_REPO"), "all-language-clients", "python")
	cmd := exec.Command("python3", "-B", "-c", c24py, dir)
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = os.Stderr
	if e := cmd.Start(); e != nil {
		panic(fmt.Sprint("no python3: ", e))
	}
	defer func() { in.Close(); cmd.Process.Kill(); cmd.Wait() }()
	rd := bufio.NewReaderSize(out, 1<<20)
	ask := func(q c24q) (r c24r) {
		b, _ := json.Marshal(q)
		if _, e := in.Write(append(b, '\n')); e != nil {
			r.Error = "the Python client died: " + e.Error()
			return
		}
		l, e := rd.ReadBytes('\n')
		if e != nil {
			r.Error = "the Python client died: " + e.Error()
			return
		}
		if e := json.Unmarshal(l, &r); e != nil {
			r.Error = e.Error()
		}
		return
	}
	id := c24ids[cfg]
	hdrs, bodies, raws := c24data(t.tier)
	px := tcpx.NewPackx(tcpx.JsonMarshaller{})
	for hi, h := range hdrs {
		for i := 0; i < len(bodies)+len(raws); i++ {
			t.Case(2)
			var body any
			var raw []byte
			ser := "json"
			if i < len(bodies) {
				body = bodies[i]
			} else {
				raw = raws[i-len(bodies)]
				ser = "protobuf"
			}
			t.lastCas = fmt.Sprintf("id %d header %.60v %s body %.60v %.30x", id, h, ser, body, raw)
			if toGo {
				r := ask(c24q{Op: "pack", Ser: ser, ID: id, Header: h, Body: body, Raw: base64.StdEncoding.EncodeToString(raw)})
				data, e := base64.StdEncoding.DecodeString(r.Data)
				if r.Error != "" || e != nil {
					t.Fail("%s: pack in Python: %s %v", t.lastCas, r.Error, e)
					return
				}
				if (i+hi)%3 != 0 {
					data = append(data, frame(7, []byte("{}"), []byte(`"next"`))[:[]int{0, 1, 22}[(i+hi)%3]]...)
				}
				gid, e1 := tcpx.MessageIDOf(data)
				gh, e2 := tcpx.HeaderOf(data)
				gb, e3 := tcpx.BodyBytesOf(data)
				if e1 != nil || e2 != nil || e3 != nil || gid != id || !mapEq(gh, h) {
					t.Fail("%s: Go decodes Python's message as id %d header %v; errors %v %v %v", t.lastCas, gid, gh, e1, e2, e3)
					return
				}
				if ser == "protobuf" {
					if !eq(gb, raw) {
						t.Fail("%s: Go finds the body %x", t.lastCas, gb)
						return
					}
					continue
				}
				var v any
				m, e := px.Unpack(data, &v)
				if e != nil || m.MessageID != id || !mapEq(m.Header, h) || !reflect.DeepEqual(v, body) {
					t.Fail("%s: Go unpacks Python's message to %v, %v, error %v", t.lastCas, m, v, e)
					return
				}
				continue
			}
			var data []byte
			var e error
			if ser == "protobuf" {
				data, e = tcpx.PackWithMarshallerAndBody(tcpx.Message{MessageID: id, Header: h, Body: nil}, raw)
			} else {
				data, e = px.Pack(id, body, h)
			}
			if e != nil {
				t.Fail("%s: pack in Go: %v", t.lastCas, e)
				return
			}
			// alone, and followed by the beginning of the next message
			if (i+hi)%3 != 0 {
				data = append(append([]byte{}, data...), frame(7, []byte("{}"), []byte(`"next"`))[:[]int{0, 1, 22}[(i+hi)%3]]...)
			}
			r := ask(c24q{Op: "unpack", Ser: ser, Data: base64.StdEncoding.EncodeToString(data)})
			if r.Error != "" || r.ID != int64(id) {
				t.Fail("%s: Python unpacks id %d, error %s", t.lastCas, r.ID, r.Error)
				return
			}
			hb, _ := base64.StdEncoding.DecodeString(r.Header)
			var gh map[string]interface{}
			if e := json.Unmarshal(hb, &gh); e != nil || !mapEq(gh, h) {
				t.Fail("%s: Python finds the header %q", t.lastCas, hb)
				return
			}
			if ser == "protobuf" {
				gb, _ := base64.StdEncoding.DecodeString(r.Raw)
				if !eq(gb, raw) {
					t.Fail("%s: Python finds the body %x", t.lastCas, gb)
					return
				}
				continue
			}
			var v any
			if e := json.Unmarshal(r.Body, &v); e != nil || !reflect.DeepEqual(v, body) {
				t.Fail("%s: Python unpacks the body %.80s", t.lastCas, r.Body)
				return
			}
		}
	}
	t.sample = t.lastCas
}

func mapEq(a, b map[string]interface{}) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}
