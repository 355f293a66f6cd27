package checks

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"testing"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geojson"
	"github.com/mmadfox/go-gpsgen/gpx"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// ---- what is done with a decoded value -----------------------------------

func abuseSensor(s *types.Sensor) {
	_ = s.String()
	for _, x := range []float64{0, 0.3, 1} {
		s.Next(x)
	}
	s.Shuffle()
	s.Next(0.5)
	_, _, _ = s.ValueX(), s.ValueY(), s.Name()
}

func abuseRoute(r *navigator.Route) {
	observeRoute(r)
	r.EachTrack(func(int, *navigator.Track) bool { return true })
	_, _ = r.TrackByID(r.ID())
	r.Props().Set("k", 1)
	r.TrackAt(0)
}

// abuseDevice reads, advances, moves and encodes a device in every way.
func abuseDevice(d *gpsgen.Device) error {
	observe(d)
	d.Routes()
	d.Sensors()
	steps := func() {
		for _, t := range []float64{1, 0, 0.5, 30, 1000, 1e9} {
			d.Next(t)
			d.Next(t)
		}
	}
	steps()
	total := d.Distance()
	for _, f := range []float64{0.5, 1.5, 1} {
		d.DestinationTo(total * f)
		d.Next(1)
	}
	d.DestinationTo(1)
	d.DestinationTo(12345)
	for i := -1; i <= d.NumRoutes(); i++ {
		d.MoveToRoute(i)
		d.Next(1)
		for j := -1; j <= 2; j++ {
			d.MoveToTrack(i, j)
			for k := -1; k <= 3; k++ {
				d.MoveToSegment(i, j, k)
				d.Next(2)
			}
		}
	}
	d.ToNextRoute()
	d.ToPrevRoute()
	for _, r := range d.Routes() {
		d.MoveToRouteByID(r.ID())
		if t := r.TrackAt(0); t != nil {
			d.MoveToTrackByID(r.ID(), t.ID())
		}
	}
	d.ToOffline()
	steps()
	d.Update()
	observe(d)
	for i := 0; i < d.NumSensors(); i++ {
		abuseSensor(d.SensorAt(i))
	}
	for _, r := range d.Routes() {
		abuseRoute(r)
	}
	data, err := gpsgen.EncodeTracker(d)
	if err != nil {
		return fmt.Errorf("encoding it again: %v", err)
	}
	if _, err = gpsgen.DecodeTracker(data); err != nil {
		return fmt.Errorf("decoding it again: %v", err)
	}
	if _, err := proto.Marshal(&pb.Packet{Devices: []*pb.Device{d.State()}}); err != nil {
		return fmt.Errorf("encoding its state: %v", err)
	}
	d.AddRoute(routeOf([]pt{{Lat: 1, Lon: 1}, {Lat: 1.1, Lon: 1}}))
	steps()
	for d.NumRoutes() > 0 {
		r := d.RouteAt(0)
		for t := r.TrackAt(0); t != nil; t = r.TrackAt(0) {
			if !d.RemoveTrack(r.ID(), t.ID()) {
				break
			}
			d.Next(1)
		}
		if !d.RemoveRoute(r.ID()) {
			break
		}
		d.Next(1)
	}
	d.ResetRoutes()
	d.ResetSensors()
	d.ResetNavigator()
	d.Next(1)
	return nil
}

// decodeAll feeds data to every decoder and uses what comes out. It returns
// the names of the decoders that accepted it.
func decodeAll(data []byte) (accepted []string, err error) {
	ok := func(name string, e error) bool {
		if e == nil {
			accepted = append(accepted, name)
		}
		return e == nil
	}
	if d, e := gpsgen.DecodeTracker(data); ok("tracker", e) {
		if d == nil {
			return accepted, fmt.Errorf("DecodeTracker returned nothing and no error")
		}
		if e := abuseDevice(d); e != nil {
			return accepted, fmt.Errorf("a decoded tracker: %v", e)
		}
	}
	used := gpsgen.NewTracker()
	noErr(used.AddRoute(routeOf([]pt{{Lat: 1, Lon: 1}, {Lat: 1.1, Lon: 1}})))
	used.Next(10)
	held := used.Snapshot()
	refused := used.UnmarshalBinary(data)
	if now := used.Snapshot(); refused != nil && !proto.Equal(held, now) {
		return accepted, fmt.Errorf("a refused decoding (%v) changed the device: %v, was %v", refused, now, held)
	}
	if e := abuseDevice(used); e != nil {
		return accepted, fmt.Errorf("a device decoded into (error %v): %v", refused, e)
	}
	if l, e := gpsgen.DecodeSensors(data); ok("sensors", e) {
		for _, s := range l {
			if s == nil {
				return accepted, fmt.Errorf("DecodeSensors returned a nil sensor")
			}
			abuseSensor(s)
		}
		if len(l) > 0 {
			if _, e := gpsgen.EncodeSensors(l); e != nil {
				return accepted, fmt.Errorf("encoding decoded sensors: %v", e)
			}
		}
		d := gpsgen.NewTracker()
		d.AddSensor(l...)
		noErr(d.AddRoute(routeOf([]pt{{Lat: 1, Lon: 1}, {Lat: 1.1, Lon: 1}})))
		d.Next(1)
		d.Next(1)
		observe(d)
	}
	text := func(l []*navigator.Route) error { return useRoutes(l) }
	if l, e := gpsgen.DecodeRoutes(data); ok("routes", e) {
		if e := useRoutes(l); e != nil {
			return accepted, fmt.Errorf("decoded routes: %v", e)
		}
	}
	if l, e := gpsgen.DecodeGeoJSONRoutes(data); ok("geojson", e) {
		if e := text(l); e != nil {
			return accepted, fmt.Errorf("routes decoded from GeoJSON: %v", e)
		}
	}
	if l, e := gpsgen.DecodeGPXRoutes(data); ok("gpx", e) {
		if e := text(l); e != nil {
			return accepted, fmt.Errorf("routes decoded from GPX: %v", e)
		}
	}
	if fc, e := geojson.ParseFeatureCollection(data); ok("feature collection", e) && fc != nil {
		_, _ = fc.MarshalJSON()
	}
	if p, e := gpsgen.PacketFromBytes(data); ok("packet", e) {
		if p == nil {
			return accepted, fmt.Errorf("PacketFromBytes returned nothing and no error")
		}
		if _, e := proto.Marshal(p); e != nil {
			return accepted, fmt.Errorf("encoding a decoded packet: %v", e)
		}
	}
	// What is not even a message, or not JSON, is not accepted.
	for _, name := range accepted {
		var e error
		switch name {
		case "tracker":
			e = proto.Unmarshal(data, new(pb.Snapshot))
		case "sensors":
			e = proto.Unmarshal(data, new(pb.Snapshot_Sensors))
		case "routes":
			e = proto.Unmarshal(data, new(pb.Snapshot_Navigator_Routes))
		case "packet":
			e = proto.Unmarshal(data, new(pb.Packet))
		case "geojson", "feature collection":
			if !json.Valid(data) {
				e = errors.New("not JSON")
			}
		}
		if e != nil {
			return accepted, fmt.Errorf("broken input is accepted as %s: %v", name, e)
		}
	}
	return accepted, nil
}

// useRoutes puts decoded routes to every use.
func useRoutes(l []*navigator.Route) error {
	for _, r := range l {
		if r == nil {
			return fmt.Errorf("a nil route")
		}
		abuseRoute(r)
	}
	if len(l) > 0 {
		data, e := gpsgen.EncodeRoutes(l)
		if e != nil {
			return fmt.Errorf("encoding them again: %v", e)
		}
		if _, e := gpsgen.DecodeRoutes(data); e != nil {
			return fmt.Errorf("decoding them again: %v", e)
		}
	}
	_, _ = geojson.Encode(l)
	_, _ = gpx.Encode(l)
	o := gpsgen.NewDeviceOptions()
	o.Navigator.Offline.Min, o.Navigator.Offline.Max = 1, 2
	d := must(gpsgen.NewDevice(o))
	_ = d.AddRoute(l...)
	return abuseDevice(d)
}

// ---- generators ----------------------------------------------------------

var oddFloats = []float64{0, 1, -1, 0.5, 10, -10, 100, 90, 180, -180, 1e-9, 1e9, -1e9, 1e300, -1e300,
	math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1)}

var oddInts = []int64{0, 1, 2, 3, -1, -2, 7, 64, 1000, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}

var oddStrings = []string{"", "a", "ab", "abc", "name", "{}", "null", "[]", "1", "é", strings.Repeat("x", 300),
	"6ba7b810-9dad-11d1-80b4-00c04fd430c8", `{"a":1}`, "\x00"}

var oddBytes = []string{"", "{}", "null", "[]", `{"a":1}`, "{", `{"a":{"b":[1,null]}}`, `"x"`, "\xff"}

func oddValue(rt *rapid.T, f protoreflect.FieldDescriptor) protoreflect.Value {
	switch f.Kind() {
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(oneOf(rt, "double", oddFloats...))
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(oneOf(rt, "float", oddFloats...)))
	case protoreflect.Int64Kind:
		return protoreflect.ValueOfInt64(oneOf(rt, "int64", oddInts...))
	case protoreflect.Int32Kind:
		return protoreflect.ValueOfInt32(int32(oneOf(rt, "int32", oddInts...)))
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(coin.Draw(rt, "bool"))
	case protoreflect.BytesKind:
		return protoreflect.ValueOfBytes([]byte(oneOf(rt, "bytes", oddBytes...)))
	default:
		return protoreflect.ValueOfString(oneOf(rt, "string", oddStrings...))
	}
}

// fill sets random fields of a message, most of them.
func fill(rt *rapid.T, m protoreflect.Message, percent, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if !chance(rt, percent, "set") {
			continue
		}
		isMsg := f.Kind() == protoreflect.MessageKind
		if isMsg && depth == 0 {
			continue
		}
		switch {
		case f.IsList():
			l := m.Mutable(f).List()
			for n := intn(rt, 0, 4, "n"); n > 0; n-- {
				if isMsg {
					fill(rt, l.AppendMutable().Message(), percent, depth-1)
				} else {
					l.Append(oddValue(rt, f))
				}
			}
		case isMsg:
			fill(rt, m.Mutable(f).Message(), percent, depth-1)
		default:
			m.Set(f, oddValue(rt, f))
		}
	}
}

// mutate changes a few fields anywhere inside a message.
func mutate(rt *rapid.T, m protoreflect.Message) {
	fs := m.Descriptor().Fields()
	f := fs.Get(intn(rt, 0, fs.Len()-1, "field"))
	isMsg := f.Kind() == protoreflect.MessageKind
	switch {
	case f.IsList():
		l := m.Mutable(f).List()
		switch op := intn(rt, 0, 7, "listop"); {
		case op == 0 || !isMsg:
			m.Clear(f)
		case op == 1:
			l.AppendMutable()
		case op == 2 && l.Len() > 0:
			l.Append(protoreflect.ValueOfMessage(proto.Clone(l.Get(0).Message().Interface()).ProtoReflect()))
		case op == 3 && l.Len() > 0:
			l.Truncate(l.Len() - 1)
		case l.Len() > 0:
			mutate(rt, l.Get(intn(rt, 0, l.Len()-1, "elem")).Message())
		}
	case isMsg:
		switch {
		case chance(rt, 15, "clear"):
			m.Clear(f)
		case !m.Has(f):
			m.Mutable(f)
		default:
			mutate(rt, m.Mutable(f).Message())
		}
	default:
		m.Set(f, oddValue(rt, f))
	}
}

// spoil changes bytes at random.
func spoil(rt *rapid.T, data []byte) []byte {
	data = append([]byte(nil), data...)
	for n := intn(rt, 1, 4, "nspoil"); n > 0 && len(data) > 0; n-- {
		i := rapid.IntRange(0, len(data)-1).Draw(rt, "at")
		switch intn(rt, 0, 5, "spoil") {
		case 0:
			data[i] ^= 1 << intn(rt, 0, 7, "bit")
		case 1:
			data[i] = rapid.Byte().Draw(rt, "byte")
		case 2:
			data = append(data[:i], data[i+1:]...)
		case 3:
			data = append(data[:i:i], append([]byte{rapid.Byte().Draw(rt, "byte")}, data[i:]...)...)
		case 4:
			data = data[:i]
		default:
			j := rapid.IntRange(i, min(len(data), i+40)).Draw(rt, "to")
			data = append(data[:j:j], append(append([]byte(nil), data[i:j]...), data[j:]...)...)
		}
	}
	return data
}

// ---- tests ---------------------------------------------------------------

func useDecoders(rt *rapid.T, k *kase, data []byte) {
	accepted, err := func() (accepted []string, err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		return decodeAll(data)
	}()
	if err != nil {
		rt.Fatalf("input %q\n%v", clip(data), err)
	}
	for _, a := range accepted {
		k.class("accepted by " + a)
	}
}

func clip(b []byte) []byte {
	if len(b) > 3000 {
		return b[:3000]
	}
	return b
}

func TestP09_Bytes(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		data := rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(rt, "data")
		k.note("%x", data)
		useDecoders(rt, k, data)
		if len(data) > 0 {
			k.nontrivial()
		}
	})
}

func TestP09_Messages(t *testing.T) {
	check(t, 1200, func(rt *rapid.T, k *kase) {
		m := oneOf[proto.Message](rt, "message", &pb.Snapshot{}, &pb.Snapshot{}, &pb.Snapshot{},
			&pb.Snapshot_Navigator_Routes{}, &pb.Snapshot_Sensors{}, &pb.Packet{})
		m = proto.Clone(m)
		fill(rt, m.ProtoReflect(), oneOf(rt, "density", 40, 80, 95), 8)
		data := must(proto.Marshal(m))
		k.note("%T %x", m, data)
		useDecoders(rt, k, data)
		if len(data) > 0 {
			k.nontrivial()
		}
	})
}

// An encoding in which one route, at any place, has properties or a name that no
// route can have is refused as a whole and leaves the device it is decoded into
// as it was.
func TestP09_BadRoute(t *testing.T) {
	check(t, 400, func(rt *rapid.T, k *kase) {
		io := metaItin()
		io.minRoutes, io.maxRoutes = 1, 4
		io.path.maxPts = 5
		d, _ := genDevice(rt, genOptions(rt), io, 2)
		for n := intn(rt, 0, 4, "nacts"); n > 0; n-- {
			act(rt, d)
		}
		if d.NumRoutes() == 0 {
			return
		}
		snap := d.Snapshot()
		routes := &pb.Snapshot_Navigator_Routes{Routes: snap.Navigator.Routes}
		at := intn(rt, 0, len(routes.Routes)-1, "at")
		r := routes.Routes[at]
		switch intn(rt, 0, 3, "bad") {
		case 0:
			r.Props = []byte(oneOf(rt, "props", "[1]", "3", `"x"`, "{", `{"a":1`, `{"a":1}}`, "{1:2}", "\x00"))
		case 1:
			r.Name = oneOf(rt, "name", "a", "ab", strings.Repeat("x", 257), strings.Repeat("long ", 300))
		case 2:
			r.Props = append([]byte("x"), r.Props...)
		default:
			r.Props = append(append([]byte{}, r.Props...), '}')
		}
		k.note("route %d of %d: name %q properties %q", at, len(routes.Routes), r.Name, r.Props)
		k.nontrivial()
		if at > 0 {
			k.class("a later route")
		}
		data := must(proto.Marshal(snap))
		if c, err := gpsgen.DecodeTracker(data); err == nil {
			rt.Fatalf("a tracker with a bad route is decoded: %v", c.Snapshot())
		}
		if rs, err := gpsgen.DecodeRoutes(must(proto.Marshal(routes))); err == nil {
			rt.Fatalf("routes with a bad one among them are decoded: %d", len(rs))
		}
		u, _ := genDevice(rt, genOptions(rt), io, 2)
		for n := intn(rt, 0, 4, "nacts"); n > 0; n-- {
			act(rt, u)
		}
		before, held := observe(u), u.Snapshot()
		if err := u.UnmarshalBinary(data); err == nil {
			rt.Fatalf("a tracker with a bad route is decoded into a device")
		}
		if diff := before.diff(observe(u)); diff != "" {
			rt.Fatalf("a refused decoding changed the device: %s", diff)
		}
		if now := u.Snapshot(); !proto.Equal(held, now) {
			rt.Fatalf("a refused decoding changed the device: %v, was %v", now, held)
		}
	})
}

func TestP09_ChangedEncodings(t *testing.T) {
	check(t, 1200, func(rt *rapid.T, k *kase) {
		io := metaItin()
		io.path.maxPts = 5
		d, _ := genDevice(rt, genOptions(rt), io, 2)
		for n := intn(rt, 0, 4, "nacts"); n > 0; n-- {
			act(rt, d)
		}
		var m proto.Message
		kind := intn(rt, 0, 3, "kind")
		switch kind {
		case 0, 1:
			d.Update()
			m = d.Snapshot()
		case 2:
			l := &pb.Snapshot_Navigator_Routes{}
			for _, r := range d.Routes() {
				l.Routes = append(l.Routes, r.Snapshot())
			}
			m = l
		default:
			l := &pb.Snapshot_Sensors{}
			for _, s := range d.Sensors() {
				l.Sensors = append(l.Sensors, s.Snapshot())
			}
			m = l
		}
		m = proto.Clone(m)
		for n := intn(rt, 0, 3, "nmut"); n > 0; n-- {
			mutate(rt, m.ProtoReflect())
		}
		data := must(proto.Marshal(m))
		if chance(rt, 40, "spoilt") {
			data = spoil(rt, data)
		}
		k.note("%T %x", m, data)
		useDecoders(rt, k, data)
		k.nontrivial()
	})
}

// mutateJSON changes something inside a JSON value.
func mutateJSON(rt *rapid.T, v any) any {
	if chance(rt, 12, "replace") {
		return oneOf[any](rt, "odd", nil, true, 0.0, -1.0, 1e300, "", "LineString", "Point", "Feature", []any{}, map[string]any{}, []any{nil}, []any{[]any{}}, []any{[]any{1.0}})
	}
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 {
			return nil
		}
		keys := make([]string, 0, len(x))
		for key := range x {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		key := keys[intn(rt, 0, len(keys)-1, "key")]
		if chance(rt, 15, "delete") {
			delete(x, key)
		} else {
			x[key] = mutateJSON(rt, x[key])
		}
		return x
	case []any:
		if len(x) == 0 {
			return []any{nil}
		}
		i := intn(rt, 0, len(x)-1, "index")
		switch intn(rt, 0, 9, "listop") {
		case 0:
			return append(x[:i:i], x[i+1:]...)
		case 1:
			return append(x, x[i])
		case 2:
			return append(x, nil)
		}
		x[i] = mutateJSON(rt, x[i])
		return x
	default:
		return oneOf[any](rt, "odd", nil, "x", 5.0, -5.0, 1e300, []any{}, map[string]any{}, "GeometryCollection", "MultiPolygon", "{}")
	}
}

func TestP09_GeoJSON(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		var data []byte
		if coin.Draw(rt, "own") {
			it := genItinerary(rt, ownItin())
			data = must(gpsgen.EncodeGeoJSONRoutes(it.routes))
		} else {
			var fs []string
			for n := intn(rt, 1, 3, "nfeatures"); n > 0; n-- {
				g, _ := genGeometry(rt, true)
				if chance(rt, 20, "bad") {
					g = badGeometry(rt)
				}
				fs = append(fs, `{"type":"Feature","properties":{"name":"x","routeID":"r"},"geometry":`+g+`}`)
			}
			data = []byte(`{"type":"FeatureCollection","features":[` + strings.Join(fs, ",") + `]}`)
		}
		var v any
		if json.Unmarshal(data, &v) == nil {
			for n := intn(rt, 0, 4, "nmut"); n > 0; n-- {
				v = mutateJSON(rt, v)
			}
			data = must(json.Marshal(v))
		}
		if chance(rt, 25, "spoilt") {
			data = spoil(rt, data)
		}
		k.note("%s", data)
		useDecoders(rt, k, data)
		k.nontrivial()
	})
}

var gpxPieces = []string{"<gpx>", "</gpx>", "<trk>", "</trk>", "<trkseg>", "</trkseg>", "<rte>", "</rte>", "<extensions>", "</extensions>",
	`<trkpt lat="1" lon="2"/>`, `<trkpt lat="1.5" lon="2.5"><ele>5</ele></trkpt>`, `<trkpt lat="x" lon="2"/>`, `<trkpt/>`, `<trkpt lat="999" lon="-1e400"/>`,
	`<rtept lat="1" lon="2"/>`, `<rtept lat="2" lon="2"/>`, `<wpt lat="1" lon="2"/>`, `<wpt lat="NaN" lon="Inf"/>`, "<name>n</name>", "<name>a name</name>", "<!-- c -->",
	"<![CDATA[x]]>", "&amp;", "&bad;", "<id>5</id>", "<color>#ff0000</color>", "<tracksInfo>", "</tracksInfo>", "<track>", "</track>", "<props>", "</props>", "<a>1</a>", "text", "<time>2020</time>", "<metadata>", "</metadata>"}

// mutateElement drops, doubles or moves one whole element of an XML document.
func mutateElement(rt *rapid.T, data []byte) []byte {
	type span struct{ from, to int }
	byName := map[string][]span{}
	var names []string
	var open []span
	var tags []string
	dec := xml.NewDecoder(bytes.NewReader(data))
	for {
		from := int(dec.InputOffset())
		tok, err := dec.RawToken()
		if err != nil {
			break
		}
		switch e := tok.(type) {
		case xml.StartElement:
			open = append(open, span{from, 0})
			tags = append(tags, e.Name.Local)
		case xml.EndElement:
			if len(open) == 0 {
				return data
			}
			i := len(open) - 1
			if len(byName[tags[i]]) == 0 {
				names = append(names, tags[i])
			}
			byName[tags[i]] = append(byName[tags[i]], span{open[i].from, int(dec.InputOffset())})
			open, tags = open[:i], tags[:i]
		}
	}
	if len(names) == 0 {
		return data
	}
	sort.Strings(names)
	list := byName[names[intn(rt, 0, len(names)-1, "element name")]]
	e := list[intn(rt, 0, len(list)-1, "element")]
	whole := string(data[e.from:e.to])
	out := string(data[:e.from])
	switch intn(rt, 0, 3, "elementop") {
	case 0, 1:
	case 2:
		out += whole + whole
	default:
		o := list[intn(rt, 0, len(list)-1, "other")]
		out += string(data[o.from:o.to])
	}
	return []byte(out + string(data[e.to:]))
}

func TestP09_GPX(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		var data []byte
		switch intn(rt, 0, 2, "base") {
		case 0:
			it := genItinerary(rt, ownItin())
			for _, r := range it.routes {
				for key := range r.Props() {
					r.Props().Remove(key)
				}
				r.Props().Merge(genGPXProps(rt))
			}
			data = []byte(must(gpsgen.EncodeGPXRoutes(it.routes)))
		case 1:
			var b strings.Builder
			b.WriteString(oneOf(rt, "head", `<?xml version="1.0"?>`, "") + `<gpx version="` + oneOf(rt, "ver", "1.1", "1.0", "2.0", "") + `">`)
			for n := intn(rt, 0, 12, "npieces"); n > 0; n-- {
				b.WriteString(oneOf(rt, "piece", gpxPieces...))
			}
			b.WriteString("</gpx>")
			data = []byte(b.String())
		default:
			p := genForeignPath(rt, intn(rt, 0, 4, "npts"))
			tag := oneOf(rt, "tag", "trkpt", "rtept", "wpt")
			s := gpxPoints(rt, tag, p)
			switch tag {
			case "trkpt":
				s = "<trk><trkseg>" + s + "</trkseg></trk>"
			case "rtept":
				s = "<rte>" + s + "</rte>"
			}
			data = []byte(`<gpx version="1.1">` + s + `</gpx>`)
		}
		// drop, double or move whole elements
		for n := oneOf(rt, "nelem", 0, 1, 1, 2); n > 0; n-- {
			data = mutateElement(rt, data)
		}
		// move, drop or double whole tags
		for n := oneOf(rt, "nmut", 0, 0, 1, 3); n > 0; n-- {
			parts := strings.SplitAfter(string(data), ">")
			i, j := rapid.IntRange(0, len(parts)-1).Draw(rt, "i"), rapid.IntRange(0, len(parts)-1).Draw(rt, "j")
			switch intn(rt, 0, 3, "tagop") {
			case 0:
				parts[i] = ""
			case 1:
				parts[i] += parts[j]
			case 2:
				parts[i], parts[j] = parts[j], parts[i]
			default:
				parts[i] += oneOf(rt, "piece", gpxPieces...)
			}
			data = []byte(strings.Join(parts, ""))
		}
		if chance(rt, 25, "spoilt") {
			data = spoil(rt, data)
		}
		k.note("%s", data)
		useDecoders(rt, k, data)
		k.nontrivial()
	})
}

// A document of routes in which the description of the tracks and the paths do
// not match, or an id is missing, is refused.
func TestP09_Mismatch(t *testing.T) {
	check(t, 500, func(rt *rapid.T, k *kase) {
		io := ownItin()
		io.minRoutes, io.maxRoutes = 1, 3
		io.minTracks, io.maxTracks = 1, 4
		io.path.maxPts = 5
		it := genItinerary(rt, io)
		at := intn(rt, 0, len(it.routes)-1, "at")
		if at > 0 {
			k.class("a later route")
		}
		if coin.Draw(rt, "gpx") {
			k.class("GPX")
			data, err := gpsgen.EncodeGPXRoutes(it.routes)
			noErr(err)
			doc, what := spoilGPX(rt, string(data), at)
			k.note("%s", what)
			k.nontrivial()
			if got, err := gpsgen.DecodeGPXRoutes([]byte(doc)); err == nil {
				rt.Fatalf("%s is decoded to %d routes\n%s", what, len(got), doc)
			}
			return
		}
		data, err := gpsgen.EncodeGeoJSONRoutes(it.routes)
		noErr(err)
		var doc map[string]any
		noErr(json.Unmarshal(data, &doc))
		what := spoilGeoJSON(rt, doc["features"].([]any)[at].(map[string]any))
		k.note("%s", what)
		k.nontrivial()
		data = must(json.Marshal(doc))
		if got, err := gpsgen.DecodeGeoJSONRoutes(data); err == nil {
			rt.Fatalf("%s is decoded to %d routes\n%s", what, len(got), data)
		}
	})
}

func spoilGeoJSON(rt *rapid.T, f map[string]any) string {
	props, geom := f["properties"].(map[string]any), f["geometry"].(map[string]any)
	info := props["tracksInfo"].([]any)
	parts := []map[string]any{geom}
	coll, isColl := geom["geometries"].([]any)
	if isColl {
		parts = nil
		for _, p := range coll {
			parts = append(parts, p.(map[string]any))
		}
	}
	at := intn(rt, 0, len(info)-1, "part")
	part := parts[at]
	path, _ := part["coordinates"].([]any)
	if part["type"] == "Polygon" {
		path = path[0].([]any)
	}
	set := func(kind string, c any) {
		part["type"], part["coordinates"] = kind, c
	}
	switch intn(rt, 0, 10, "spoil") {
	case 0:
		props["tracksInfo"] = append(info[:at:at], info[at+1:]...)
		return "a track without a description"
	case 1:
		props["tracksInfo"] = append(append([]any{}, info...), info[at])
		return "a description without a track"
	case 2:
		props["tracksInfo"] = oneOf[any](rt, "info", nil, "x", 3, map[string]any{"0": info[0]})
		return "track descriptions that are no list"
	case 3:
		info[at] = oneOf[any](rt, "info", nil, "x", 3, []any{}, map[string]any{"color": "#ff0000"})
		return "a track description without an id"
	case 4:
		if isColl {
			geom["geometries"] = append(append([]any{}, coll...), parts[at])
			return "a path too many"
		}
		f["geometry"] = map[string]any{"type": "GeometryCollection", "geometries": []any{geom, geom}}
		return "two paths for one description"
	case 5:
		if len(coll) > 1 {
			geom["geometries"] = append(coll[:at:at], coll[at+1:]...)
			return "a path is missing"
		}
		f["geometry"] = nil
		return "no geometry"
	case 6:
		set("MultiLineString", []any{path})
		return "a multi-line string for a track"
	case 7:
		set("MultiPoint", path)
		return "a multi-point for a track"
	case 8:
		set("MultiPolygon", []any{[]any{append(append([]any{}, path...), path[0])}})
		return "a multi-polygon for a track"
	case 9:
		set("Point", path[0])
		return "a point for a track"
	default:
		if coin.Draw(rt, "ring") {
			set("Polygon", []any{path[:intn(rt, 0, 1, "points")]})
			return "a ring too short"
		}
		set("LineString", path[:intn(rt, 0, 1, "points")])
		return "a line too short"
	}
}

var (
	gpxRouteNode = regexp.MustCompile(`(?s)<route( [^>]*)?>.*?</route>`)
	gpxTrackNode = regexp.MustCompile(`(?s)<track( [^>]*)?>[^<]*</track>`)
	gpxTrk       = regexp.MustCompile(`(?s)<trk>.*?</trk>`)
	gpxSeg       = regexp.MustCompile(`(?s)<trkseg>.*?</trkseg>`)
	gpxPt        = regexp.MustCompile(`(?s)<trkpt( [^>]*)?>.*?</trkpt>`)
	gpxID        = regexp.MustCompile(` id="[^"]*"`)
)

func spoilGPX(rt *rapid.T, doc string, at int) (string, string) {
	nth := func(re *regexp.Regexp, s string, i int, f func(string) string) string {
		l := re.FindAllStringIndex(s, -1)
		if len(l) == 0 {
			rt.Fatalf("no %v in\n%s", re, s)
		}
		if i < 0 {
			i = intn(rt, 0, len(l)-1, "which")
		}
		if i >= len(l) {
			rt.Fatalf("no %v %d in\n%s", re, i, s)
		}
		return s[:l[i][0]] + f(s[l[i][0]:l[i][1]]) + s[l[i][1]:]
	}
	none := func(string) string { return "" }
	twice := func(s string) string { return s + s }
	inRoute := func(re *regexp.Regexp, f func(string) string) string {
		return nth(gpxRouteNode, doc, at, func(s string) string { return nth(re, s, -1, f) })
	}
	inTrk := func(re *regexp.Regexp, f func(string) string) string {
		return nth(gpxTrk, doc, at, func(s string) string { return nth(re, s, -1, f) })
	}
	switch intn(rt, 0, 10, "spoil") {
	case 0:
		return nth(gpxRouteNode, doc, at, none), "a route without a description"
	case 1:
		return nth(gpxRouteNode, doc, at, twice), "a description without a route"
	case 2:
		return nth(gpxTrk, doc, at, none), "a route without tracks is missing"
	case 3:
		return nth(gpxTrk, doc, at, twice), "a route too many"
	case 4:
		return inRoute(gpxTrackNode, none), "a track without a description"
	case 5:
		return inRoute(gpxTrackNode, twice), "a description without a track"
	case 6:
		return inTrk(gpxSeg, none), "a track is missing"
	case 7:
		return inTrk(gpxSeg, twice), "a track too many"
	case 8:
		return inRoute(gpxTrackNode, func(s string) string {
			return s[:strings.Index(s, ">")+1] + "</track>"
		}), "a track without an id"
	case 9:
		return nth(gpxRouteNode, doc, at, func(s string) string {
			end := strings.Index(s, ">") // a property may be called id as well
			return gpxID.ReplaceAllString(s[:end], "") + s[end:]
		}), "a route without an id"
	default:
		return inTrk(gpxSeg, func(s string) string {
			keep := intn(rt, 0, 1, "points")
			i := 0
			return gpxPt.ReplaceAllStringFunc(s, func(p string) string {
				if i++; i <= keep {
					return p
				}
				return ""
			})
		}), "a track too short"
	}
}
