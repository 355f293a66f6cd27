package checks

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- the published schema ------------------------------------------------

type fieldDef struct {
	Name     string `json:"name"`
	Num      int    `json:"num"`
	Type     string `json:"type"` // scalar type, "" for a message
	Message  string `json:"message,omitempty"`
	Repeated bool   `json:"repeated"`
}

type schemaDef map[string][]fieldDef // by full message name

func (s schemaDef) field(msg string, num int) *fieldDef {
	for i := range s[msg] {
		if s[msg][i].Num == num {
			return &s[msg][i]
		}
	}
	return nil
}

func repoFile(elem ...string) string {
	root := os.Getenv("VERIF_REPO")
	if root == "" {
		root = "/repo"
	}
	return filepath.Join(append([]string{root}, elem...)...)
}

func protoTokens(src string) []string {
	var toks []string
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case strings.HasPrefix(src[i:], "/*"):
			i += 2 + strings.Index(src[i+2:], "*/") + 2
		case unicode.IsSpace(rune(c)):
			i++
		case c == '"' || c == '\'':
			j := i + 1
			for src[j] != c {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			toks = append(toks, src[i:j+1])
			i = j + 1
		case c == '_' || c == '.' || c >= '0' && c <= '9' || unicode.IsLetter(rune(c)):
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '.' || src[j] >= '0' && src[j] <= '9' || unicode.IsLetter(rune(src[j]))) {
				j++
			}
			toks = append(toks, src[i:j])
			i = j
		default:
			toks = append(toks, string(c))
			i++
		}
	}
	return toks
}

var protoScalars = map[string]int{ // wire type
	"double": 1, "int64": 0, "bool": 0, "string": 2, "bytes": 2,
}

// parseProto reads a proto3 file that consists of messages with scalar and
// message fields. Anything else is an error of the harness.
func parseProto(s schemaDef, path string) {
	toks := protoTokens(string(must(os.ReadFile(path))))
	i := 0
	next := func() string {
		if i >= len(toks) {
			panic("harness: the schema ends early")
		}
		i++
		return toks[i-1]
	}
	statement := func() {
		for next() != ";" {
		}
	}
	pkg := ""
	var message func(scope string)
	message = func(scope string) {
		full := scope + "." + next()
		if next() != "{" {
			panic("harness: message without a body")
		}
		s[full] = []fieldDef{}
		for {
			switch t := next(); t {
			case "}":
				return
			case ";":
			case "message":
				message(full)
			case "reserved", "option":
				statement()
			case "enum", "oneof", "map", "extensions", "extend", "group", "required":
				panic("harness: unsupported in a schema: " + t)
			default:
				f := fieldDef{}
				if t == "repeated" || t == "optional" {
					f.Repeated = t == "repeated"
					t = next()
				}
				f.Type = t
				f.Name = next()
				if next() != "=" {
					panic("harness: field without a number")
				}
				f.Num = must(strconv.Atoi(next()))
				i--
				statement()
				s[full] = append(s[full], f)
			}
		}
	}
	for i < len(toks) {
		switch t := next(); t {
		case "syntax", "option", "import":
			statement()
		case "package":
			pkg = next()
			statement()
		case "message":
			message(pkg)
		case ";":
		default:
			panic("harness: unsupported in a schema: " + t)
		}
	}
}

// loadSchema reads both schema files and resolves the message types.
func loadSchema(files ...string) schemaDef {
	s := schemaDef{}
	for _, f := range files {
		parseProto(s, repoFile("proto", f))
	}
	for full, fields := range s {
		for i := range fields {
			f := &fields[i]
			if _, ok := protoScalars[f.Type]; ok {
				continue
			}
			for scope := full; ; scope = scope[:strings.LastIndex(scope, ".")] {
				if _, ok := s[scope+"."+f.Type]; ok {
					f.Message, f.Type = scope+"."+f.Type, ""
					break
				}
				if !strings.Contains(scope, ".") {
					panic("harness: unsupported type " + f.Type)
				}
			}
		}
	}
	return s
}

// ---- encoding by the schema ----------------------------------------------

// A value of a message maps field names to float64, int64, bool, string,
// []byte, msgVal or []msgVal; zero scalars and empty lists are left out.
type msgVal map[string]any

// appendField writes one field.
func (s schemaDef) appendField(out []byte, f *fieldDef, v any) []byte {
	tag := func(wire int) { out = binary.AppendUvarint(out, uint64(f.Num)<<3|uint64(wire)) }
	blob := func(b []byte) {
		tag(2)
		out = binary.AppendUvarint(out, uint64(len(b)))
		out = append(out, b...)
	}
	switch x := v.(type) {
	case float64:
		tag(1)
		out = binary.LittleEndian.AppendUint64(out, math.Float64bits(x))
	case int64:
		tag(0)
		out = binary.AppendUvarint(out, uint64(x))
	case bool:
		tag(0)
		out = append(out, map[bool]byte{false: 0, true: 1}[x])
	case string:
		blob([]byte(x))
	case []byte:
		blob(x)
	case msgVal:
		blob(s.encode(f.Message, x, nil))
	case []msgVal:
		for _, e := range x {
			blob(s.encode(f.Message, e, nil))
		}
	default:
		panic(fmt.Sprintf("harness: value %T", v))
	}
	return out
}

// encode writes a message; order, if given, permutes the fields.
func (s schemaDef) encode(msg string, v msgVal, order func(n int) []int) []byte {
	out := []byte{}
	fields := s[msg]
	idx := make([]int, len(fields))
	for i := range idx {
		idx[i] = i
	}
	if order != nil {
		idx = order(len(fields))
	}
	for _, i := range idx {
		if x, ok := v[fields[i].Name]; ok {
			out = s.appendField(out, &fields[i], x)
		}
	}
	return out
}

// decode reads a message strictly: every field must be one of the schema, with
// its wire type, and a field that is not repeated appears once.
func (s schemaDef) decode(msg string, data []byte) (msgVal, error) {
	v := msgVal{}
	seen := map[int]bool{}
	for len(data) > 0 {
		tag, n := binary.Uvarint(data)
		if n <= 0 {
			return nil, fmt.Errorf("%s: bad tag", msg)
		}
		data = data[n:]
		f := s.field(msg, int(tag>>3))
		if f == nil {
			return nil, fmt.Errorf("%s has no field %d", msg, tag>>3)
		}
		if seen[f.Num] && !f.Repeated {
			return nil, fmt.Errorf("%s.%s appears twice", msg, f.Name)
		}
		seen[f.Num] = true
		wire := 2
		if f.Message == "" {
			wire = protoScalars[f.Type]
		}
		if int(tag&7) != wire {
			return nil, fmt.Errorf("%s.%s has wire type %d, want %d", msg, f.Name, tag&7, wire)
		}
		var x any
		switch wire {
		case 0:
			u, n := binary.Uvarint(data)
			if n <= 0 {
				return nil, fmt.Errorf("%s.%s: bad number", msg, f.Name)
			}
			data = data[n:]
			if f.Type == "bool" {
				x = u != 0
			} else {
				x = int64(u)
			}
		case 1:
			if len(data) < 8 {
				return nil, fmt.Errorf("%s.%s: cut off", msg, f.Name)
			}
			x = math.Float64frombits(binary.LittleEndian.Uint64(data))
			data = data[8:]
		case 2:
			u, n := binary.Uvarint(data)
			if n <= 0 || u > uint64(len(data)-n) {
				return nil, fmt.Errorf("%s.%s: cut off", msg, f.Name)
			}
			b := data[n : n+int(u)]
			data = data[n+int(u):]
			switch {
			case f.Message != "":
				m, err := s.decode(f.Message, b)
				if err != nil {
					return nil, err
				}
				x = m
			case f.Type == "string":
				x = string(b)
			default:
				x = append([]byte{}, b...)
			}
		}
		switch {
		case f.Repeated && f.Message != "":
			list, _ := v[f.Name].([]msgVal)
			v[f.Name] = append(list, x.(msgVal))
		case f.Repeated:
			panic("harness: repeated scalar in the schema")
		case !isZero(x):
			v[f.Name] = x
		}
	}
	return v, nil
}

func isZero(x any) bool {
	switch x := x.(type) {
	case float64:
		return math.Float64bits(x) == 0
	case int64:
		return x == 0
	case bool:
		return !x
	case string:
		return x == ""
	case []byte:
		return len(x) == 0
	}
	return false
}

// same compares two values and says where they differ.
func same(path string, a, b any) string {
	switch x := a.(type) {
	case msgVal:
		y, ok := b.(msgVal)
		if !ok {
			return fmt.Sprintf("%s: a message and %T", path, b)
		}
		keys := map[string]bool{}
		for k := range x {
			keys[k] = true
		}
		for k := range y {
			keys[k] = true
		}
		var names []string
		for k := range keys {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			if _, ok := x[k]; !ok {
				return fmt.Sprintf("%s.%s is set only in the second: %v", path, k, y[k])
			}
			if _, ok := y[k]; !ok {
				return fmt.Sprintf("%s.%s is set only in the first: %v", path, k, x[k])
			}
			if d := same(path+"."+k, x[k], y[k]); d != "" {
				return d
			}
		}
		return ""
	case []msgVal:
		y, ok := b.([]msgVal)
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: lists of different lengths", path)
		}
		for i := range x {
			if d := same(fmt.Sprintf("%s[%d]", path, i), x[i], y[i]); d != "" {
				return d
			}
		}
		return ""
	case float64:
		if y, ok := b.(float64); !ok || math.Float64bits(x) != math.Float64bits(y) {
			return fmt.Sprintf("%s: %v and %v", path, a, b)
		}
		return ""
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("%s: %v and %v", path, a, b)
	}
	return ""
}

// ---- the library's messages ----------------------------------------------

var (
	packetFiles = []string{"gpsgen.proto"}
	libMessages = map[string]func() proto.Message{
		"proto.Device":                    func() proto.Message { return new(pb.Device) },
		"proto.Packet":                    func() proto.Message { return new(pb.Packet) },
		"proto.Device.Location":           func() proto.Message { return new(pb.Device_Location) },
		"proto.Device.Distance":           func() proto.Message { return new(pb.Device_Distance) },
		"proto.Device.Navigator":          func() proto.Message { return new(pb.Device_Navigator) },
		"proto.Device.Routes":             func() proto.Message { return new(pb.Device_Routes) },
		"proto.Device.Sensor":             func() proto.Message { return new(pb.Device_Sensor) },
		"proto.Snapshot":                  func() proto.Message { return new(pb.Snapshot) },
		"proto.Snapshot.Sensors":          func() proto.Message { return new(pb.Snapshot_Sensors) },
		"proto.Snapshot.Navigator":        func() proto.Message { return new(pb.Snapshot_Navigator) },
		"proto.Snapshot.Navigator.Routes": func() proto.Message { return new(pb.Snapshot_Navigator_Routes) },
	}
)

func goName(name string) string {
	var b strings.Builder
	for _, p := range strings.Split(name, "_") {
		b.WriteString(strings.ToUpper(p[:1]) + p[1:])
	}
	return b.String()
}

// fill sets the fields of a library message (a pointer to its struct).
func (s schemaDef) fill(msg string, m reflect.Value, v msgVal) {
	for _, f := range s[msg] {
		x, ok := v[f.Name]
		if !ok {
			continue
		}
		dst := m.Elem().FieldByName(goName(f.Name))
		if !dst.IsValid() {
			panic(fmt.Sprintf("verdict: %s has no field %s", m.Type(), goName(f.Name)))
		}
		switch x := x.(type) {
		case msgVal:
			e := reflect.New(dst.Type().Elem())
			s.fill(f.Message, e, x)
			dst.Set(e)
		case []msgVal:
			for _, y := range x {
				e := reflect.New(dst.Type().Elem().Elem())
				s.fill(f.Message, e, y)
				dst.Set(reflect.Append(dst, e))
			}
		default:
			dst.Set(reflect.ValueOf(x))
		}
	}
}

// read takes the fields of a library message through its getters.
func (s schemaDef) read(msg string, m reflect.Value) msgVal {
	v := msgVal{}
	for _, f := range s[msg] {
		get := m.MethodByName("Get" + goName(f.Name))
		if !get.IsValid() {
			panic(fmt.Sprintf("verdict: %s has no getter of %s", m.Type(), goName(f.Name)))
		}
		x := get.Call(nil)[0]
		switch {
		case f.Repeated:
			var list []msgVal
			for i := 0; i < x.Len(); i++ {
				list = append(list, s.read(f.Message, x.Index(i)))
			}
			if list != nil {
				v[f.Name] = list
			}
		case f.Message != "":
			if !x.IsNil() {
				v[f.Name] = s.read(f.Message, x)
			}
		default:
			if y := x.Interface(); !isZero(y) {
				v[f.Name] = y
			}
		}
	}
	return v
}

// numFields counts the exported fields of a library message.
func numFields(m proto.Message) int {
	t := reflect.TypeOf(m).Elem()
	n := 0
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).IsExported() {
			n++
		}
	}
	return n
}

// ---- generators ----------------------------------------------------------

// genMessage makes a value of a message. With safe, numbers are such that any
// client can hold them.
func (s schemaDef) genMessage(rt *rapid.T, msg string, safe bool, density, depth int) msgVal {
	v := msgVal{}
	for _, f := range s[msg] {
		if !chance(rt, density, "set") {
			continue
		}
		var x any
		switch {
		case f.Repeated:
			var list []msgVal
			for n := intn(rt, 1, 3, "count"); n > 0; n-- {
				list = append(list, s.genMessage(rt, f.Message, safe, density, depth+1))
			}
			x = list
		case f.Message != "":
			x = s.genMessage(rt, f.Message, safe, density, depth+1)
		case f.Type == "double":
			x = oneOf(rt, "double", uni(rt, -200, 200, "double"), 1, -1, 1e300, math.SmallestNonzeroFloat64, math.MaxFloat64, math.Inf(1), math.Inf(-1), 0.1)
		case f.Type == "int64":
			if safe {
				x = oneOf(rt, "int", int64(intn(rt, 0, 1000, "int")), -1, 1<<53-1, -(1<<53 - 1), 1<<31, 1<<32, -1<<31)
			} else {
				x = oneOf(rt, "int", int64(intn(rt, 0, 1000, "int")), -1, math.MaxInt64, math.MinInt64, 1<<31, 1<<32, -1<<31)
			}
		case f.Type == "bool":
			x = true
		case f.Type == "string":
			x = oneOf(rt, "string", rapid.StringN(1, 12, -1).Draw(rt, "text"), "x", "\x00", "héllo ☃ 𝄞", strings.Repeat("long ", 40), "a\nb\"c\\")
		case f.Type == "bytes":
			x = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "bytes")
			if chance(rt, 10, "big") {
				x = bytes.Repeat([]byte{0xff, 0, 0x80}, 100)
			}
		}
		if !isZero(x) {
			v[f.Name] = x
		}
	}
	return v
}

func (v msgVal) size() int {
	n := 0
	for _, x := range v {
		switch x := x.(type) {
		case msgVal:
			n += x.size()
		case []msgVal:
			for _, y := range x {
				n += y.size()
			}
		default:
			n++
		}
	}
	return n
}

// permutation returns a function that permutes the fields at random.
func permutation(rt *rapid.T) func(n int) []int {
	return func(n int) []int {
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		return rapid.Permutation(idx).Draw(rt, "order")
	}
}

// verdict turns a panic about the library's types into a failure.
func verdict(rt *rapid.T) {
	if p := recover(); p != nil {
		if s, ok := p.(string); ok && strings.HasPrefix(s, "verdict: ") {
			rt.Fatalf("%s", s)
		}
		panic(p)
	}
}

// ---- P29 -----------------------------------------------------------------

func TestP29_Messages(t *testing.T) {
	s := loadSchema("gpsgen.proto", "snapshot.proto")
	var names []string
	for n := range libMessages {
		names = append(names, n)
	}
	sort.Strings(names)
	check(t, 800, func(rt *rapid.T, k *kase) {
		defer verdict(rt)
		name := oneOf(rt, "message", names...)
		v := s.genMessage(rt, name, false, oneOf(rt, "density", 100, 80, 50, 15), 0)
		k.class(name)
		k.note("%s %v", name, v)
		if v.size() > 2 {
			k.nontrivial()
		}
		if n := numFields(libMessages[name]()); n != len(s[name]) {
			rt.Fatalf("%s has %d fields in the library and %d in the schema", name, n, len(s[name]))
		}
		// What the library writes is read by the schema.
		m := libMessages[name]()
		s.fill(name, reflect.ValueOf(m), v)
		data := must(proto.Marshal(m))
		got, err := s.decode(name, data)
		if err != nil {
			rt.Fatalf("what the library wrote cannot be read: %v", err)
		}
		if d := same(name, v, got); d != "" {
			rt.Fatalf("set in the library and read with the schema: %s", d)
		}
		// What is written by the schema is read by the library.
		m = libMessages[name]()
		if err := proto.Unmarshal(s.encode(name, v, permutation(rt)), m); err != nil {
			rt.Fatalf("the library cannot read what was written by the schema: %v", err)
		}
		if u := m.ProtoReflect().GetUnknown(); len(u) > 0 {
			rt.Fatalf("the library does not know the fields %x", u)
		}
		if d := same(name, v, s.read(name, reflect.ValueOf(m))); d != "" {
			rt.Fatalf("written by the schema and read in the library: %s", d)
		}
	})
}

func get(rt *rapid.T, v msgVal, path ...any) any {
	var x any = v
	for _, p := range path {
		switch p := p.(type) {
		case string:
			m, ok := x.(msgVal)
			if !ok {
				return nil
			}
			x = m[p]
		case int:
			l, ok := x.([]msgVal)
			if !ok || p >= len(l) {
				return nil
			}
			x = l[p]
		}
	}
	return x
}

type want struct {
	v    any
	path []any
}

func expect(rt *rapid.T, v msgVal, ws ...want) {
	for _, w := range ws {
		got := get(rt, v, w.path...)
		if isZero(w.v) {
			if got != nil {
				rt.Fatalf("%v is %v, want %v", w.path, got, w.v)
			}
			continue
		}
		if f, ok := w.v.(float64); ok {
			if g, ok := got.(float64); ok && g == f {
				continue
			}
		}
		if !reflect.DeepEqual(got, w.v) {
			rt.Fatalf("%v is %v, want %v", w.path, got, w.v)
		}
	}
}

func at(v any, path ...any) want { return want{v, path} }

func expectRoute(rt *rapid.T, v msgVal, r *navigator.Route) {
	expect(rt, v, at(r.ID(), "id"), at(r.Color(), "color"), at(r.Name().String(), "name"), at(r.Distance(), "distance"))
	list, _ := v["tracks"].([]msgVal)
	if len(list) != r.NumTracks() {
		rt.Fatalf("%d tracks written, want %d", len(list), r.NumTracks())
	}
	for i := 0; i < r.NumTracks(); i++ {
		tr, w := r.TrackAt(i), list[i]
		expect(rt, w, at(tr.ID(), "id"), at(tr.Color(), "color"), at(tr.Name().String(), "name"), at(tr.Distance(), "distance"), at(tr.IsClosed(), "is_closed"))
		segs, _ := w["segmenets"].([]msgVal)
		if len(segs) != tr.NumSegments() {
			rt.Fatalf("%d segments written, want %d", len(segs), tr.NumSegments())
		}
		for j := range segs {
			sg := tr.SegmentAt(j)
			a, b := sg.PointA(), sg.PointB()
			expect(rt, segs[j], at(a.Lat, "point_a", "lat"), at(a.Lon, "point_a", "lon"), at(b.Lat, "point_b", "lat"), at(b.Lon, "point_b", "lon"),
				at(sg.Distance(), "distance"), at(sg.Bearing(), "bearing"))
		}
	}
}

func expectSensor(rt *rapid.T, v msgVal, x *types.Sensor) {
	expect(rt, v, at(x.ID(), "id"), at(x.Name(), "name"), at(x.Min(), "min"), at(x.Max(), "max"), at(x.ValueX(), "val_x"), at(x.ValueY(), "val_y"))
}

func TestP29_Device(t *testing.T) {
	s := loadSchema("gpsgen.proto", "snapshot.proto")
	decode := func(rt *rapid.T, name string, data []byte) msgVal {
		v, err := s.decode(name, data)
		if err != nil {
			rt.Fatalf("what the library wrote cannot be read: %v", err)
		}
		return v
	}
	check(t, 400, func(rt *rapid.T, k *kase) {
		o := genOptions(rt)
		d, it := genDevice(rt, o, metaItin(), 3)
		for n := intn(rt, 0, 8, "steps"); n > 0; n-- {
			act(rt, d)
		}
		k.note("%+v; %d routes; %s", *o, len(it.routes), d.ID())
		if d.NumRoutes() > 0 {
			k.class("routes")
			k.nontrivial()
		}
		// The tracker.
		v := decode(rt, "proto.Snapshot", must(gpsgen.EncodeTracker(d)))
		expect(rt, v, at(d.ID(), "id"), at(d.UserID(), "user_id"), at(d.Model(), "model"), at(d.Descr(), "descr"), at(d.Color(), "color"),
			at(d.Duration(), "duration"),
			at(o.Speed.Min, "speed", "min"), at(o.Speed.Max, "speed", "max"),
			at(o.Battery.Min, "battery", "min"), at(o.Battery.Max, "battery", "max"), at(int64(o.Battery.ChargeTime), "battery", "charge_time"),
			at(o.Navigator.Elevation.Min, "navigator", "elevation", "min"), at(o.Navigator.Elevation.Max, "navigator", "elevation", "max"),
			at(o.Navigator.SkipOffline, "navigator", "skip_offline"),
			at(int64(d.RouteIndex()), "navigator", "route_index"), at(int64(d.TrackIndex()), "navigator", "track_index"), at(int64(d.SegmentIndex()), "navigator", "segment_index"),
			at(d.Location().Lat, "navigator", "point", "lat"), at(d.Location().Lon, "navigator", "point", "lon"),
			at(d.CurrentDistance(), "navigator", "current_distance"), at(d.CurrentRouteDistance(), "navigator", "current_route_distance"),
			at(d.CurrentTrackDistance(), "navigator", "current_track_distance"), at(d.CurrentSegmentDistance(), "navigator", "current_segment_distance"),
			at(d.Distance(), "navigator", "distance"))
		if !o.Navigator.SkipOffline {
			expect(rt, v, at(int64(o.Navigator.Offline.Min), "navigator", "offline_min"), at(int64(o.Navigator.Offline.Max), "navigator", "offline_max"))
		}
		routes, _ := get(rt, v, "navigator", "routes").([]msgVal)
		if len(routes) != d.NumRoutes() {
			rt.Fatalf("%d routes written, want %d", len(routes), d.NumRoutes())
		}
		for i := range routes {
			expectRoute(rt, routes[i], d.RouteAt(i))
		}
		sensors, _ := v["sensors"].([]msgVal)
		if len(sensors) != d.NumSensors() {
			rt.Fatalf("%d sensors written, want %d", len(sensors), d.NumSensors())
		}
		for i := range sensors {
			expectSensor(rt, sensors[i], d.SensorAt(i))
		}
		// Its parts.
		if d.NumSensors() > 0 {
			list, _ := decode(rt, "proto.Snapshot.Sensors", must(gpsgen.EncodeSensors(d.Sensors())))["sensors"].([]msgVal)
			if len(list) != d.NumSensors() {
				rt.Fatalf("%d sensors written, want %d", len(list), d.NumSensors())
			}
			for i := range list {
				expectSensor(rt, list[i], d.SensorAt(i))
			}
		}
		if d.NumRoutes() > 0 {
			list, _ := decode(rt, "proto.Snapshot.Navigator.Routes", must(gpsgen.EncodeRoutes(d.Routes())))["routes"].([]msgVal)
			if len(list) != d.NumRoutes() {
				rt.Fatalf("%d routes written, want %d", len(list), d.NumRoutes())
			}
			for i := range list {
				expectRoute(rt, list[i], d.RouteAt(i))
			}
		}
		// The published state.
		st := d.State()
		w := decode(rt, "proto.Device", must(proto.Marshal(st)))
		expect(rt, w, at(d.ID(), "id"), at(d.UserID(), "user_id"), at(d.Model(), "model"), at(d.Descr(), "description"), at(d.Color(), "color"),
			at(d.Duration(), "duration"), at(d.IsOffline(), "is_offline"),
			at(d.Location().Lat, "location", "lat"), at(d.Location().Lon, "location", "lon"),
			at(int64(d.RouteIndex()), "navigator", "current_route_index"), at(int64(d.TrackIndex()), "navigator", "current_track_index"),
			at(int64(d.SegmentIndex()), "navigator", "current_segment_index"),
			at(d.CurrentDistance(), "distance", "current_distance"), at(d.CurrentRouteDistance(), "distance", "current_route_distance"),
			at(d.CurrentTrackDistance(), "distance", "current_track_distance"), at(d.CurrentSegmentDistance(), "distance", "current_segment_distance"),
			at(d.Distance(), "distance", "distance"))
		shown, _ := get(rt, w, "routes", "routes").([]msgVal)
		if len(shown) != d.NumRoutes() {
			rt.Fatalf("%d routes published, want %d", len(shown), d.NumRoutes())
		}
		for i := range shown {
			r := d.RouteAt(i)
			expect(rt, shown[i], at(r.ID(), "route_id"), at(r.Color(), "color"), at(r.Distance(), "distance"))
			for j := 0; j < r.NumTracks(); j++ {
				tr := r.TrackAt(j)
				expect(rt, shown[i], at(tr.ID(), "tracks", j, "track_id"), at(tr.Color(), "tracks", j, "color"), at(tr.Distance(), "tracks", j, "distance"),
					at(int64(tr.NumSegments()), "tracks", j, "num_segments"))
			}
		}
		for i := 0; i < d.NumSensors(); i++ {
			x := d.SensorAt(i)
			expect(rt, w, at(x.ID(), "sensors", i, "id"), at(x.Name(), "sensors", i, "name"), at(x.ValueX(), "sensors", i, "val_x"), at(x.ValueY(), "sensors", i, "val_y"))
		}
		// A packet read and written.
		p := msgVal{"devices": []msgVal{w, w}, "timestamp": int64(12345)}
		q, err := gpsgen.PacketFromBytes(s.encode("proto.Packet", p, permutation(rt)))
		if err != nil {
			rt.Fatalf("a packet written by the schema is refused: %v", err)
		}
		if df := same("packet", p, s.read("proto.Packet", reflect.ValueOf(q))); df != "" {
			rt.Fatalf("a packet written by the schema: %s", df)
		}
		// A tracker changed by means of the schema.
		v["model"], v["descr"], v["user_id"] = "Model-Q", "changed", "me"
		v["duration"] = 17.25
		d2, err := gpsgen.DecodeTracker(s.encode("proto.Snapshot", v, permutation(rt)))
		if err != nil {
			rt.Fatalf("a tracker written by the schema is refused: %v", err)
		}
		if d2.Model() != "Model-Q" || d2.Descr() != "changed" || d2.UserID() != "me" || d2.Duration() != 17.25 || d2.ID() != d.ID() || d2.NumRoutes() != d.NumRoutes() ||
			d2.Location() != d.Location() || d2.CurrentDistance() != d.CurrentDistance() || d2.SegmentIndex() != d.SegmentIndex() {
			rt.Fatalf("a tracker written by the schema is read as %v", observe(d2).m)
		}
	})
}

// ---- the published clients -----------------------------------------------

type client struct {
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
	cmd *exec.Cmd
}

func startClient(t *testing.T, s schemaDef) *client {
	node, err := exec.LookPath("node")
	if err != nil {
		t.Skip("no node here to run the published clients with")
	}
	dir := t.TempDir()
	put := func(data []byte, elem ...string) {
		p := filepath.Join(append([]string{dir}, elem...)...)
		noErr(os.MkdirAll(filepath.Dir(p), 0o755))
		noErr(os.WriteFile(p, data, 0o644))
	}
	copyOf := func(name string) []byte { return must(os.ReadFile(harnessFile(filepath.Join("client", name)))) }
	put([]byte(`{"type":"module"}`), "package.json")
	put(copyOf("driver.mjs"), "driver.mjs")
	put([]byte(`{"type":"module","exports":"./index.mjs"}`), "node_modules", "@protobuf-ts", "runtime", "package.json")
	put(copyOf("protobuf-ts.mjs"), "node_modules", "@protobuf-ts", "runtime", "index.mjs")
	put([]byte(`{"main":"index.js"}`), "node_modules", "google-protobuf", "package.json")
	put(copyOf("google-protobuf.js"), "node_modules", "google-protobuf", "index.js")
	put(must(os.ReadFile(repoFile("proto", "gpsgen.ts"))), "gpsgen.ts")
	put(must(os.ReadFile(repoFile("proto", "gpsgen_pb.js"))), "gpsgen_pb.cjs")
	c := &client{err: &bytes.Buffer{}}
	c.cmd = exec.Command(node, "--no-warnings", "--experimental-strip-types", "driver.mjs")
	c.cmd.Dir = dir
	c.cmd.Stderr = c.err
	c.in = must(c.cmd.StdinPipe())
	c.out = bufio.NewReader(must(c.cmd.StdoutPipe()))
	noErr(c.cmd.Start())
	t.Cleanup(func() {
		c.in.Close()
		c.cmd.Process.Kill()
		c.cmd.Wait()
	})
	if a := c.ask(t.Fatalf, map[string]any{"op": "schema", "schema": s}); a.Error != "" {
		t.Fatalf("the client: %s", a.Error)
	}
	return c
}

type tsField struct {
	No     int    `json:"no"`
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	Repeat int    `json:"repeat"`
	Opt    bool   `json:"opt"`
	Oneof  bool   `json:"oneof"`
	T      any    `json:"T"`
}

type reply struct {
	Error  string               `json:"error"`
	Hex    string               `json:"hex"`
	Value  map[string]any       `json:"value"`
	Object map[string]any       `json:"object"`
	Tables map[string][]tsField `json:"tables"`
}

// ask sends one request. A client that dies because of the published code is
// a failure, any other is an error of the harness.
func (c *client) ask(fatalf func(string, ...any), q any) reply {
	var r reply
	_, err := c.in.Write(append(must(json.Marshal(q)), '\n'))
	var line []byte
	if err == nil {
		line, err = c.out.ReadBytes('\n')
	}
	if err != nil {
		c.cmd.Wait()
		msg := c.err.String()
		if strings.Contains(msg, "Error") && (strings.Contains(msg, "gpsgen.ts") || strings.Contains(msg, "gpsgen_pb.cjs")) {
			fatalf("the published client does not load: %s", msg)
		}
		panic("harness: the client ended: " + err.Error() + " " + msg)
	}
	noErr(json.Unmarshal(line, &r))
	return r
}

// toClient and fromClient convert a value to and from what the driver uses.
func (s schemaDef) toClient(msg string, v msgVal) map[string]any {
	out := map[string]any{}
	for _, f := range s[msg] {
		x, ok := v[f.Name]
		if !ok {
			continue
		}
		switch x := x.(type) {
		case float64:
			out[f.Name] = fmt.Sprintf("d:%016x", math.Float64bits(x))
		case int64:
			out[f.Name] = fmt.Sprintf("i:%d", x)
		case string:
			out[f.Name] = "s:" + x
		case []byte:
			out[f.Name] = "x:" + hex.EncodeToString(x)
		case bool:
			out[f.Name] = x
		case msgVal:
			out[f.Name] = s.toClient(f.Message, x)
		case []msgVal:
			var list []any
			for _, e := range x {
				list = append(list, s.toClient(f.Message, e))
			}
			out[f.Name] = list
		}
	}
	return out
}

func (s schemaDef) fromClient(msg string, v map[string]any) msgVal {
	out := msgVal{}
	for _, f := range s[msg] {
		x, ok := v[f.Name]
		if !ok {
			continue
		}
		switch x := x.(type) {
		case bool:
			out[f.Name] = x
		case string:
			switch x[:2] {
			case "d:":
				out[f.Name] = math.Float64frombits(must(strconv.ParseUint(x[2:], 16, 64)))
			case "i:":
				out[f.Name] = must(strconv.ParseInt(x[2:], 10, 64))
			case "s:":
				out[f.Name] = x[2:]
			case "x:":
				out[f.Name] = must(hex.DecodeString(x[2:]))
			}
		case map[string]any:
			out[f.Name] = s.fromClient(f.Message, x)
		case []any:
			var list []msgVal
			for _, e := range x {
				list = append(list, s.fromClient(f.Message, e.(map[string]any)))
			}
			out[f.Name] = list
		}
	}
	return out
}

func TestP29_Clients(t *testing.T) {
	s := loadSchema(packetFiles...)
	c := startClient(t, s)
	var names []string
	for n := range s {
		names = append(names, n)
	}
	sort.Strings(names)

	tables := c.ask(t.Fatalf, map[string]any{"op": "tables"}).Tables
	scalars := map[string]float64{"double": 1, "int64": 3, "bool": 8, "string": 9, "bytes": 12}
	for _, n := range names {
		fields := tables[n]
		if len(fields) != len(s[n]) {
			t.Fatalf("%s has %d fields in the TypeScript client and %d in the schema", n, len(fields), len(s[n]))
		}
		byName := map[string]tsField{}
		for _, f := range fields {
			byName[f.Name] = f
		}
		for _, f := range s[n] {
			g, ok := byName[f.Name]
			var want any = scalars[f.Type]
			kind := "scalar"
			if f.Message != "" {
				want, kind = f.Message, "message"
			}
			if !ok || g.No != f.Num || g.Kind != kind || g.T != want || (g.Repeat > 0) != f.Repeated || g.Opt || g.Oneof {
				t.Fatalf("%s.%s is %+v in the TypeScript client and %+v in the schema", n, f.Name, g, f)
			}
		}
	}

	check(t, 150, func(rt *rapid.T, k *kase) {
		defer verdict(rt)
		name := oneOf(rt, "message", names...)
		if chance(rt, 40, "packet") {
			name = "proto.Packet"
		}
		which := oneOf(rt, "client", "ts", "js")
		v := s.genMessage(rt, name, true, oneOf(rt, "density", 100, 80, 50, 15), 0)
		k.class(which + " " + name)
		k.note("%s %s %v", which, name, v)
		if v.size() > 2 {
			k.nontrivial()
		}
		// What the library writes is read, and written again, by the client.
		data := s.encode(name, v, nil)
		if mk := libMessages[name]; mk != nil {
			m := mk()
			s.fill(name, reflect.ValueOf(m), v)
			data = must(proto.Marshal(m))
		}
		compare := func(what string, w msgVal) {
			if d := same(name, v, w); d != "" {
				rt.Fatalf("the %s client, %s: %s", which, what, d)
			}
		}
		written := func(what, h string) {
			data := must(hex.DecodeString(h))
			w, err := s.decode(name, data)
			if err != nil {
				rt.Fatalf("the %s client, %s: %v", which, what, err)
			}
			compare(what, w)
			if mk := libMessages[name]; mk != nil {
				m := mk()
				if err := proto.Unmarshal(data, m); err != nil {
					rt.Fatalf("the %s client, %s: %v", which, what, err)
				}
				compare(what+" by the library", s.read(name, reflect.ValueOf(m)))
			}
		}
		a := c.ask(rt.Fatalf, map[string]any{"op": "read", "client": which, "message": name, "hex": hex.EncodeToString(data)})
		if a.Error != "" {
			rt.Fatalf("the %s client reading: %s", which, a.Error)
		}
		compare("reading", s.fromClient(name, a.Value))
		if a.Object != nil {
			compare("reading to an object", s.fromClient(name, a.Object))
		}
		written("reading and writing", a.Hex)
		// What the client sets and writes is read by the library.
		a = c.ask(rt.Fatalf, map[string]any{"op": "write", "client": which, "message": name, "value": s.toClient(name, v)})
		if a.Error != "" {
			rt.Fatalf("the %s client writing: %s", which, a.Error)
		}
		compare("setting", s.fromClient(name, a.Value))
		written("writing", a.Hex)
	})
}
