package checks

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geojson"
	"github.com/mmadfox/go-gpsgen/gpx"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
	"pgregory.net/rapid"
)

// ---- P05 -----------------------------------------------------------------

func ownItin() itinOpts {
	io := metaItin()
	io.minRoutes, io.maxRoutes, io.minTracks, io.maxTracks = 1, 4, 1, 4
	return io
}

func TestP05_GeoJSON(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		io := ownItin()
		io.path.maxLat = oneOf(rt, "maxlat", 80, 90.0)
		if chance(rt, 15, "without tracks") {
			io.minTracks = 0
		}
		it := genItinerary(rt, io)
		k.note("%v", it)
		all := it.routes
		var want []map[string]any
		for _, r := range it.routes {
			want = append(want, observeRoute(r))
		}
		data, err := gpsgen.EncodeGeoJSONRoutes(all)
		if err != nil {
			rt.Fatalf("EncodeGeoJSONRoutes: %v", err)
		}
		for i, r := range all {
			if diff := diffMaps(want[i], observeRoute(r)); diff != "" {
				rt.Fatalf("encoding changed route %d: %s", i, diff)
			}
		}
		// Only routes with tracks have anything to write.
		want = it.withTracks(want)
		if len(it.routes) < len(all) {
			k.class("a route without tracks")
		}
		var doc struct {
			Type     string
			Features []struct {
				Type       string
				Geometry   map[string]any
				Properties map[string]any
			}
		}
		if err := json.Unmarshal(data, &doc); err != nil {
			rt.Fatalf("the encoding is not JSON: %v", err)
		}
		if doc.Type != "FeatureCollection" || len(doc.Features) != len(it.routes) {
			rt.Fatalf("encoded a %q with %d features for %d routes", doc.Type, len(doc.Features), len(it.routes))
		}
		for i, f := range doc.Features {
			r := it.routes[i]
			if f.Type != "Feature" || f.Geometry == nil {
				rt.Fatalf("feature %d: type %q geometry %v", i, f.Type, f.Geometry)
			}
			if f.Properties["routeID"] != r.ID() || f.Properties["distance"] != r.Distance() || f.Properties["numTracks"] != float64(r.NumTracks()) ||
				f.Properties["units"] != "meters" || f.Properties["color"] != r.Color() || f.Properties["name"] != r.Name().String() {
				rt.Fatalf("feature %d: properties %v do not describe route %v", i, f.Properties, r.ID())
			}
			info, _ := f.Properties["tracksInfo"].([]any)
			if len(info) != r.NumTracks() {
				rt.Fatalf("feature %d: %d tracks described of %d", i, len(info), r.NumTracks())
			}
			for j := range info {
				x, _ := info[j].(map[string]any)
				tr := r.TrackAt(j)
				if x["trackID"] != tr.ID() || x["distance"] != tr.Distance() || x["numSegments"] != float64(tr.NumSegments()) || x["color"] != tr.Color() || x["name"] != tr.Name().String() {
					rt.Fatalf("feature %d: %v does not describe track %v, which is %v m and %d segments long", i, x, tr.ID(), tr.Distance(), tr.NumSegments())
				}
			}
			if got := geometryPoints(f.Geometry); !samePoints(got, it.points[i]) {
				rt.Fatalf("feature %d: coordinates %v, want %v", i, got, it.points[i])
			}
		}
		decode := gpsgen.DecodeGeoJSONRoutes
		if chance(rt, 30, "pkg") {
			decode = geojson.Decode
		}
		if len(it.routes) == 0 {
			return
		}
		got, err := decode(data)
		if err != nil {
			rt.Fatalf("DecodeGeoJSONRoutes: %v", err)
		}
		compareRoutes(rt, want, got, it.points, 0)
		fc, err := geojson.ParseFeatureCollection(data)
		if err != nil || len(fc.Features) != len(it.routes) {
			rt.Fatalf("ParseFeatureCollection: %v", err)
		}
		k.nontrivial()
		for _, r := range it.routes {
			if r.NumTracks() > 1 {
				k.class("several tracks")
			}
			for j := 0; j < r.NumTracks(); j++ {
				if r.TrackAt(j).IsClosed() {
					k.class("closed track")
				}
			}
		}
	})
}

// withTracks leaves out the routes without tracks, and what belongs to them.
func (it *itinerary) withTracks(l []map[string]any) (kept []map[string]any) {
	var n itinerary
	for i, r := range it.routes {
		if r.NumTracks() > 0 {
			n.routes, n.points = append(n.routes, r), append(n.points, it.points[i])
			kept = append(kept, l[i])
		}
	}
	*it = n
	return kept
}

// geometryPoints lists the paths of a GeoJSON geometry as written by Encode.
func geometryPoints(g map[string]any) (all [][]pt) {
	path := func(v any) (p []pt) {
		l, _ := v.([]any)
		for _, x := range l {
			c, _ := x.([]any)
			if len(c) != 2 {
				return nil
			}
			p = append(p, pt{Lon: c[0].(float64), Lat: c[1].(float64)})
		}
		return
	}
	switch g["type"] {
	case "LineString":
		return [][]pt{path(g["coordinates"])}
	case "Polygon":
		rings, _ := g["coordinates"].([]any)
		if len(rings) != 1 {
			return nil
		}
		return [][]pt{path(rings[0])}
	case "GeometryCollection":
		parts, _ := g["geometries"].([]any)
		for _, p := range parts {
			m, _ := p.(map[string]any)
			all = append(all, geometryPoints(m)...)
		}
	}
	return
}

func samePoints(a, b [][]pt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

// compareRoutes compares decoded routes with observations of the originals and
// with the points they were built from; with a tolerance only for coordinates
// and what is computed from them.
func compareRoutes(rt *rapid.T, want []map[string]any, got []*navigator.Route, pts [][][]pt, tol float64) {
	if len(got) != len(want) {
		rt.Fatalf("decoded %d routes of %d", len(got), len(want))
	}
	for i, r := range got {
		o := observeRoute(r)
		w := map[string]any{}
		for key, v := range want[i] {
			w[key] = v
		}
		if tol > 0 {
			for _, m := range []map[string]any{o, w} {
				for key := range m {
					if strings.Contains(key, "segment ") || strings.HasSuffix(key, "distance") || strings.HasSuffix(key, "closed") {
						delete(m, key)
					}
				}
			}
			if d := want[i]["distance"].(float64); !near(r.Distance(), d, 1e-2) {
				rt.Fatalf("route %d is %v m long, was %v", i, r.Distance(), d)
			}
		}
		if diff := diffMaps(w, o); diff != "" {
			rt.Fatalf("route %d (original first): %s", i, diff)
		}
		comparePoints(rt, r, pts[i], tol)
	}
}

func TestP05_Empty(t *testing.T) {
	check(t, 1, func(rt *rapid.T, k *kase) {
		k.note("no routes, no data")
		if _, err := gpsgen.EncodeGeoJSONRoutes(nil); err == nil {
			rt.Fatalf("EncodeGeoJSONRoutes(nil) is no error")
		}
		if _, err := gpsgen.DecodeGeoJSONRoutes(nil); err == nil {
			rt.Fatalf("DecodeGeoJSONRoutes(nil) is no error")
		}
	})
}

// ---- P06 -----------------------------------------------------------------

var xmlKey = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_.\-]*$`)

var reservedGPX = map[string]bool{"id": true, "name": true, "color": true, "distance": true, "units": true, "tracksInfo": true, "numTracks": true}

func genGPXProps(rt *rapid.T) properties.Properties {
	p := properties.Make()
	for n := intn(rt, 0, 4, "nprops"); n > 0; n-- {
		key := rapid.StringMatching(`[A-Za-z_][A-Za-z0-9_\-.]{0,8}`).Draw(rt, "key")
		low := strings.ToLower(key)
		if reservedGPX[key] || strings.HasPrefix(low, "xml") {
			key = "k" + key
		}
		switch intn(rt, 0, 5, "kind") {
		case 0:
			p[key] = intn(rt, -60000, 60000, "int") * oneOf(rt, "scale", 1, 1, 1000000000)
		case 1:
			p[key] = coin.Draw(rt, "bool")
		case 2:
			f := uni(rt, -1000, 1000, "float") * oneOf(rt, "fscale", 1, 1e-12, 1e30)
			if f == math.Trunc(f) && math.Abs(f) < 1e21 {
				f = 0.5
			}
			p[key] = f
		case 3:
			p[key] = oneOf(rt, "text", "0x1F", "0b101", "0o17", "1e", "yes", "no", "on", "tRUE", "12 ", " 12", "+", "-", "1,5", "0x", "١٢", "12px", "1.2.3", "nul", "v", "2020-01-02")
		default:
			s := "v" + rapid.StringOfN(rapid.RuneFrom([]rune("abc XYZ019<>&\"'/é漢\n\t;")), 0, 12, -1).Draw(rt, "str")
			p[key] = s
		}
	}
	return p
}

// gpxProps is the observation of properties restored from GPX.
func gpxProps(p properties.Properties) map[string]any {
	m := map[string]any{}
	for k, v := range p {
		switch x := v.(type) {
		case int:
			m[k] = int64(x)
		default:
			m[k] = v
		}
	}
	return m
}

func TestP06_GPX(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		io := ownItin()
		io.path.noTens = true
		io.meta = false
		if chance(rt, 15, "without tracks") {
			io.minTracks = 0
		}
		it := genItinerary(rt, io)
		k.note("%v", it)
		for i, r := range it.routes {
			if chance(rt, 25, "restored") {
				n := navigator.RestoreRoute(genRestoredID(rt), genColor(rt).Hex(), nil)
				for j, pts := range it.points[i] {
					tr := r.TrackAt(j)
					if chance(rt, 50, "restoredT") {
						tr = must(navigator.RestoreTrack(genRestoredID(rt), genColor(rt).Hex(), pts))
					}
					n.AddTrack(tr)
				}
				r = n
				it.routes[i] = r
			}
			if chance(rt, 70, "named") {
				noErr(r.ChangeName(genName(rt)))
			}
			if chance(rt, 50, "coloured") {
				noErr(r.ChangeColor(genColor(rt)))
			}
			r.Props().Merge(genGPXProps(rt))
			for j := 0; j < r.NumTracks(); j++ {
				tr := r.TrackAt(j)
				if chance(rt, 70, "named") {
					noErr(tr.ChangeName(genName(rt)))
				}
				if chance(rt, 50, "coloured") {
					noErr(tr.ChangeColor(genColor(rt).Hex()))
				}
				tr.Props().Merge(genGPXProps(rt))
			}
		}
		look := func(r *navigator.Route) map[string]any {
			o := observeRoute(r)
			o["props"] = gpxProps(r.Props())
			for j := 0; j < r.NumTracks(); j++ {
				o[fmt.Sprintf("track %d props", j)] = gpxProps(r.TrackAt(j).Props())
			}
			return o
		}
		var want []map[string]any
		for _, r := range it.routes {
			want = append(want, look(r))
		}
		data, err := gpsgen.EncodeGPXRoutes(it.routes)
		if err != nil {
			rt.Fatalf("EncodeGPXRoutes: %v", err)
		}
		for i, r := range it.routes {
			if diff := diffMaps(want[i], look(r)); diff != "" {
				rt.Fatalf("encoding changed route %d: %s", i, diff)
			}
		}
		// A route without tracks has no path that it could come back from.
		all := len(it.routes)
		if want = it.withTracks(want); len(want) < all {
			k.class("a route without tracks")
		}
		if len(want) == 0 {
			return
		}
		describesGPX(rt, data, it.routes)
		decode := gpsgen.DecodeGPXRoutes
		if chance(rt, 30, "pkg") {
			decode = gpx.Decode
		}
		got, err := decode(data)
		if err != nil {
			rt.Fatalf("DecodeGPXRoutes: %v\n%s", err, data)
		}
		if len(got) != len(want) {
			rt.Fatalf("decoded %d routes of %d", len(got), len(want))
		}
		for i, r := range got {
			w, o := want[i], look(r)
			for _, m := range []map[string]any{w, o} {
				for key := range m {
					if strings.Contains(key, "segment ") || strings.HasSuffix(key, "distance") || strings.HasSuffix(key, "closed") {
						delete(m, key)
					}
				}
			}
			if diff := diffMaps(w, o); diff != "" {
				rt.Fatalf("route %d (original first): %s\n%s", i, diff, data)
			}
			comparePoints(rt, r, it.points[i], 1e-9)
			if d := it.routes[i].Distance(); !near(r.Distance(), d, 1e-2) {
				rt.Fatalf("route %d is %v m long, was %v", i, r.Distance(), d)
			}
			if r.NumTracks() > 1 {
				k.class("several tracks")
			}
		}
		k.nontrivial()
	})
}

// describesGPX checks what the document says about the routes for those who
// read it without this library.
func describesGPX(rt *rapid.T, data []byte, routes []*navigator.Route) {
	type attrs []xml.Attr
	var doc struct {
		Routes []struct {
			Attrs  attrs `xml:",any,attr"`
			Tracks []struct {
				Attrs attrs  `xml:",any,attr"`
				ID    string `xml:",chardata"`
			} `xml:"track"`
		} `xml:"extensions>gpsgen>route"`
	}
	if err := xml.Unmarshal(data, &doc); err != nil {
		rt.Fatalf("the encoding is not XML: %v\n%s", err, data)
	}
	get := func(a attrs, name string) string {
		for _, x := range a {
			if x.Name.Local == name {
				return x.Value
			}
		}
		return "none"
	}
	meters := func(a attrs, want float64) bool {
		f, err := strconv.ParseFloat(get(a, "distance"), 64)
		return err == nil && near(f, want, 1e-6*(1+want))
	}
	n := 0
	for _, d := range doc.Routes {
		if len(d.Tracks) == 0 {
			continue
		}
		if n >= len(routes) {
			rt.Fatalf("more descriptions than routes\n%s", data)
		}
		r := routes[n]
		n++
		if get(d.Attrs, "id") != r.ID() || get(d.Attrs, "name") != r.Name().String() || get(d.Attrs, "color") != r.Color() || get(d.Attrs, "units") != "meters" || !meters(d.Attrs, r.Distance()) || len(d.Tracks) != r.NumTracks() {
			rt.Fatalf("route %v (%v m, %d tracks) is described as %v, %d tracks", r.ID(), r.Distance(), r.NumTracks(), d.Attrs, len(d.Tracks))
		}
		for j, x := range d.Tracks {
			tr := r.TrackAt(j)
			if x.ID != tr.ID() || get(x.Attrs, "name") != tr.Name().String() || get(x.Attrs, "color") != tr.Color() || !meters(x.Attrs, tr.Distance()) {
				rt.Fatalf("track %v (%v m) is described as %q %v", tr.ID(), tr.Distance(), x.ID, x.Attrs)
			}
		}
	}
	if n != len(routes) {
		rt.Fatalf("%d descriptions of %d routes\n%s", n, len(routes), data)
	}
}

func TestP06_Empty(t *testing.T) {
	check(t, 1, func(rt *rapid.T, k *kase) {
		k.note("no routes, no data")
		if _, err := gpsgen.EncodeGPXRoutes(nil); err == nil {
			rt.Fatalf("EncodeGPXRoutes(nil) is no error")
		}
		if _, err := gpsgen.DecodeGPXRoutes(nil); err == nil {
			rt.Fatalf("DecodeGPXRoutes(nil) is no error")
		}
	})
}

// knownFinding reports a failure that is listed in the known-findings file
// instead of failing.
func knownFinding(t *testing.T, property, what string) {
	t.Helper()
	line := "property=" + property + " " + what
	data, _ := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	for _, l := range strings.Split(string(data), "\n") {
		if strings.TrimSpace(l) == line {
			fmt.Println("\nKNOWN-FINDING: " + line)
			return
		}
	}
	t.Fatalf("%s (not a known finding)", line)
}

// The GPX library the encoder uses drops the trailing zeros of whole numbers:
// a coordinate of 10 degrees is written as 1.
func TestP06_KnownTens(t *testing.T) {
	r := routeOf([]pt{{Lat: 10, Lon: 20}, {Lat: 10.5, Lon: 20.5}})
	data, err := gpsgen.EncodeGPXRoutes([]*navigator.Route{r})
	if err != nil {
		t.Fatalf("EncodeGPXRoutes: %v", err)
	}
	got, err := gpsgen.DecodeGPXRoutes(data)
	if err == nil && len(got) == 1 && got[0].NumTracks() == 1 && got[0].TrackAt(0).SegmentAt(0).PointA() == (pt{Lat: 10, Lon: 20}) {
		return
	}
	knownFinding(t, "P06", "GPX encoding writes a coordinate that is a multiple of ten degrees without its trailing zeros (point 10,20 becomes 1,2)")
}

// Properties under keys the formats use themselves, and GPX properties that are
// not XML names or look like values of another type, do not survive. These are
// the recorded findings; the generated cases leave such properties out.
func knownProperty(t *testing.T, property string, encode func([]*navigator.Route) ([]byte, error),
	decode func([]byte) ([]*navigator.Route, error), onTrack bool, key string, value any, what string) {
	t.Helper()
	r := routeOf([]pt{{Lat: 10.5, Lon: 20.5}, {Lat: 11.5, Lon: 21.5}})
	noErr(r.ChangeName("Route-1"))
	props := r.Props()
	if onTrack {
		props = r.TrackAt(0).Props()
	}
	props.Set(key, value)
	data, err := encode([]*navigator.Route{r})
	if err != nil {
		t.Fatalf("encoding a route with a property %q: %v", key, err)
	}
	if got, err := decode(data); err == nil && len(got) == 1 && got[0].NumTracks() == 1 &&
		got[0].ID() == r.ID() && got[0].Name() == r.Name() && got[0].Color() == r.Color() {
		props := got[0].Props()
		if onTrack {
			props = got[0].TrackAt(0).Props()
		}
		if props[key] == value {
			return
		}
	}
	knownFinding(t, property, what)
}

func TestP05_KnownReserved(t *testing.T) {
	knownProperty(t, "P05", gpsgen.EncodeGeoJSONRoutes, gpsgen.DecodeGeoJSONRoutes, false, "name", "Broadway",
		"GeoJSON: a property of a route under a key the format uses itself replaces the route's own value and is lost (name: Broadway renames the route)")
}

func TestP06_KnownProperties(t *testing.T) {
	known := func(onTrack bool, key string, value any, what string) {
		t.Helper()
		knownProperty(t, "P06", gpsgen.EncodeGPXRoutes, gpsgen.DecodeGPXRoutes, onTrack, key, value, what)
	}
	known(false, "name", "Broadway",
		"GPX: a property under a key the format uses itself is written as a second attribute of that name and is lost (name: Broadway)")
	known(false, "max speed", "fast",
		"GPX: a property whose key is not an XML name makes the document undecodable (max speed: fast)")
	known(true, "code", "007",
		"GPX: a text property that looks like a number or a boolean comes back as one (code: 007 becomes 7)")
}

// ---- P07 -----------------------------------------------------------------

func num(rt *rapid.T, x float64) string {
	if x == math.Trunc(x) && coin.Draw(rt, "int") {
		return strconv.FormatFloat(x, 'f', 0, 64)
	}
	return strconv.FormatFloat(x, oneOf(rt, "fmt", byte('f'), byte('g'), byte('e'), byte('f')), -1, 64)
}

// genForeignPath draws coordinates as found in foreign documents.
func genForeignPath(rt *rapid.T, n int) []pt {
	var p []pt
	for len(p) < n {
		x := pt{Lat: uni(rt, -90, 90, "lat"), Lon: uni(rt, -180, 180, "lon")}
		switch intn(rt, 0, 3, "round") {
		case 0:
			x = pt{Lat: math.Round(x.Lat), Lon: math.Round(x.Lon)}
		case 1:
			x = pt{Lat: math.Round(x.Lat*1e6) / 1e6, Lon: math.Round(x.Lon*1e6) / 1e6}
		}
		p = append(p, x)
	}
	return p
}

func jsonPath(rt *rapid.T, p []pt) string {
	var l []string
	for _, x := range p {
		s := "[" + num(rt, x.Lon) + oneOf(rt, "sp", ",", ", ", " ,\n") + num(rt, x.Lat)
		if chance(rt, 10, "alt") {
			s += "," + fmt.Sprint(intn(rt, 0, 900, "altitude"))
		}
		l = append(l, s+"]")
	}
	return "[" + strings.Join(l, ",") + "]"
}

// genGeometry draws a geometry, its text and the tracks it denotes.
func genGeometry(rt *rapid.T, nested bool) (text string, tracks [][]pt) {
	n := func() int { return length(rt, 2, 6, "npts") }
	ring := func() []pt {
		r := genForeignPath(rt, length(rt, 3, 6, "nring"))
		return append(r, r[0])
	}
	polygon := func() string {
		outer := ring()
		tracks = append(tracks, outer)
		s := jsonPath(rt, outer)
		for h := intn(rt, 0, 2, "holes"); h > 0; h-- {
			s += "," + jsonPath(rt, ring())
		}
		return "[" + s + "]"
	}
	kind, coords := "", ""
	top := 4
	if !nested {
		top = 6
	}
	switch intn(rt, 0, top, "geom") {
	case 0:
		p := genForeignPath(rt, n())
		if chance(rt, 20, "closedline") {
			p = append(p, p[0])
		}
		kind, coords, tracks = "LineString", jsonPath(rt, p), [][]pt{p}
	case 1:
		kind = "MultiLineString"
		var l []string
		for m := length(rt, 1, 3, "nlines"); m > 0; m-- {
			p := genForeignPath(rt, n())
			tracks = append(tracks, p)
			l = append(l, jsonPath(rt, p))
		}
		coords = "[" + strings.Join(l, ",") + "]"
	case 2:
		kind, coords = "Polygon", polygon()
	case 3:
		p := genForeignPath(rt, n())
		kind, coords, tracks = "MultiPoint", jsonPath(rt, p), [][]pt{p}
	case 4:
		kind = "MultiPolygon"
		var l []string
		for m := length(rt, 1, 3, "npoly"); m > 0; m-- {
			l = append(l, polygon())
		}
		coords = "[" + strings.Join(l, ",") + "]"
	default:
		var l []string
		for m := length(rt, 1, 4, "nmembers"); m > 0; m-- {
			s, tr := genGeometry(rt, true)
			l = append(l, s)
			tracks = append(tracks, tr...)
		}
		return `{"type":"GeometryCollection","geometries":[` + strings.Join(l, ",") + `]}`, tracks
	}
	if coin.Draw(rt, "order") {
		return fmt.Sprintf(`{"coordinates": %s, "type": %q}`, coords, kind), tracks
	}
	return fmt.Sprintf(`{"type":%q,"coordinates":%s}`, kind, coords), tracks
}

// badGeometry draws a geometry that cannot be a track.
func badGeometry(rt *rapid.T) string {
	one := func() string { return jsonPath(rt, genForeignPath(rt, 1)) }
	// among puts an element among up to three others, at any place.
	among := func(bad string, good func() string) string {
		var l []string
		at := intn(rt, 0, 3, "badat")
		for i := intn(rt, at, 3, "others"); i >= 0; i-- {
			if i == at {
				l = append(l, bad)
			} else {
				l = append(l, good())
			}
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	switch intn(rt, 0, 9, "bad") {
	case 0:
		return `{"type":"Point","coordinates":[1.5,2.5]}`
	case 1:
		return "null"
	case 2:
		return ""
	case 3:
		return `{"type":"LineString","coordinates":` + one() + `}`
	case 4:
		return `{"type":"LineString","coordinates":[]}`
	case 5:
		return `{"type":"MultiLineString","coordinates":` + among(oneOf(rt, "line", one(), "[]"), func() string { return jsonPath(rt, genForeignPath(rt, 3)) }) + `}`
	case 6:
		return `{"type":"Polygon","coordinates":[` + oneOf(rt, "ring", one(), "[]", "") + `]}`
	case 7:
		return `{"type":"MultiPoint","coordinates":` + one() + `}`
	case 8:
		return `{"type":"MultiPolygon","coordinates":` + among("["+oneOf(rt, "ring", one(), "[]", "")+"]", func() string {
			return "[" + jsonPath(rt, genForeignPath(rt, 3)) + "]"
		}) + `}`
	default:
		bad := oneOf(rt, "badmember", `{"type":"Point","coordinates":[1,2]}`, `{"type":"LineString","coordinates":[]}`, `{"type":"LineString","coordinates":[[1,2]]}`, `{"type":"Polygon","coordinates":[]}`, `{"type":"MultiPoint","coordinates":[[1,2]]}`, `{"type":"MultiLineString","coordinates":[[[1,2]],[[1,2],[2,3]]]}`, `{"type":"MultiLineString","coordinates":[[[1,2],[2,3]],[]]}`, `{"type":"MultiPolygon","coordinates":[[[[1,2],[2,3],[1,2]]],[]]}`)
		return `{"type":"GeometryCollection","geometries":` + among(bad, func() string {
			good, _ := genGeometry(rt, true)
			return good
		}) + `}`
	}
}

func TestP07_ForeignGeoJSON(t *testing.T) {
	check(t, 2000, func(rt *rapid.T, k *kase) {
		n := length(rt, 1, 4, "features")
		bad := -1
		if chance(rt, 25, "bad") {
			bad = intn(rt, 0, n-1, "which")
		}
		var features []string
		var want [][][]pt
		var props []map[string]any
		for i := 0; i < n; i++ {
			geom, tracks := genGeometry(rt, false)
			if i == bad {
				geom = badGeometry(rt)
			}
			var p map[string]any
			ptext := "null"
			switch intn(rt, 0, 5, "props") {
			case 0:
			case 1:
				ptext = ""
			default:
				p = genJSONMap(rt, 2)
				if chance(rt, 25, "usual") { // usual names that are not a route's of this library
					p[oneOf(rt, "key", "name", "color", "units", "distance", "id")] = genJSONValue(rt, 1)
				}
				ptext = string(must(json.Marshal(p)))
			}
			parts := []string{`"type":"Feature"`}
			if geom != "" {
				parts = append(parts, `"geometry":`+geom)
			}
			if ptext != "" {
				parts = append(parts, `"properties":`+ptext)
			}
			if chance(rt, 20, "fid") {
				parts = append(parts, `"id":`+oneOf(rt, "fidv", `"f1"`, `17`))
			}
			if coin.Draw(rt, "order") {
				for a, b := 0, len(parts)-1; a < b; a, b = a+1, b-1 {
					parts[a], parts[b] = parts[b], parts[a]
				}
			}
			features = append(features, "{"+strings.Join(parts, ",")+"}")
			want = append(want, tracks)
			props = append(props, p)
		}
		doc := `{"type":"FeatureCollection",` + oneOf(rt, "extra", "", `"name":"layer",`, `"crs":{"type":"name","properties":{"name":"urn:ogc:def:crs:OGC:1.3:CRS84"}},`) + `"features":[` + strings.Join(features, ",\n") + `]}`
		k.note("%s", doc)
		if bad >= 0 {
			k.class("bad geometry")
			k.nontrivial()
			got, err := gpsgen.DecodeGeoJSONRoutes([]byte(doc))
			if err == nil {
				rt.Fatalf("feature %d cannot be a track, decoded %d routes without an error:\n%s", bad, len(got), doc)
			}
			return
		}
		got, err := gpsgen.DecodeGeoJSONRoutes([]byte(doc))
		if err != nil {
			rt.Fatalf("DecodeGeoJSONRoutes: %v\n%s", err, doc)
		}
		checkImported(rt, got, want, doc)
		for i, r := range got {
			w := props[i]
			if w == nil {
				w = map[string]any{}
			}
			if diff := diffMaps(canonProps(w).(map[string]any), canonProps(r.Props()).(map[string]any)); diff != "" {
				rt.Fatalf("route %d: properties (in the document first): %s", i, diff)
			}
			if r.NumTracks() > 1 {
				k.class("several tracks")
			}
		}
		k.nontrivial()
	})
}

// checkImported checks routes imported from a foreign document.
func checkImported(rt *rapid.T, got []*navigator.Route, want [][][]pt, doc string) {
	if len(got) != len(want) {
		rt.Fatalf("imported %d routes of %d\n%s", len(got), len(want), doc)
	}
	ids := map[string]bool{}
	for i, r := range got {
		comparePoints(rt, r, want[i], 0)
		if r.ID() == "" || ids[r.ID()] {
			rt.Fatalf("route %d has the id %q, which is not fresh", i, r.ID())
		}
		ids[r.ID()] = true
		d := 0.0
		for j := 0; j < r.NumTracks(); j++ {
			tr := r.TrackAt(j)
			if tr.ID() == "" || ids[tr.ID()] {
				rt.Fatalf("track %d/%d has the id %q, which is not fresh", i, j, tr.ID())
			}
			ids[tr.ID()] = true
			p := want[i][j]
			if closed := len(p) > 2 && p[0] == p[len(p)-1]; tr.IsClosed() != closed {
				rt.Fatalf("track %d/%d closed: %v", i, j, tr.IsClosed())
			}
			l := newMTrack("", p).total
			if !near(tr.Distance(), l, 1e-6*l+1e-3) {
				rt.Fatalf("track %d/%d is %v m long, want %v", i, j, tr.Distance(), l)
			}
			d += tr.Distance()
		}
		if !near(r.Distance(), d, 1e-9*d+1e-6) {
			rt.Fatalf("route %d is %v m long, its tracks %v", i, r.Distance(), d)
		}
	}
}

// ---- P08 -----------------------------------------------------------------

func gpxPoints(rt *rapid.T, tag string, p []pt) string {
	var b strings.Builder
	for _, x := range p {
		lat, lon := num(rt, x.Lat), num(rt, x.Lon)
		q := oneOf(rt, "quote", `"`, `'`)
		if coin.Draw(rt, "order") {
			fmt.Fprintf(&b, "<%s lat=%s%s%s lon=%s%s%s", tag, q, lat, q, q, lon, q)
		} else {
			fmt.Fprintf(&b, "<%s lon=%s%s%s\n lat=%s%s%s", tag, q, lon, q, q, lat, q)
		}
		switch intn(rt, 0, 4, "body") {
		case 0:
			fmt.Fprintf(&b, "><ele>%d</ele><time>2020-01-02T03:04:05Z</time></%s>\n", intn(rt, 0, 4000, "ele"), tag)
		case 1:
			fmt.Fprintf(&b, "><name>p &amp; q</name></%s>", tag)
		case 2:
			fmt.Fprintf(&b, "></%s>", tag)
		default:
			b.WriteString("/>")
		}
	}
	return b.String()
}

func TestP08_ForeignGPX(t *testing.T) {
	check(t, 2000, func(rt *rapid.T, k *kase) {
		n := func() int { // points of a path
			return length(rt, 2, 6, "npts")
		}
		var trk, rte, wpt string
		var tracks, routes, wpts [][][]pt
		bad := false
		path := func() []pt {
			m := n()
			if chance(rt, 4, "short") {
				m = intn(rt, 0, 1, "few")
				bad = true
			}
			return genForeignPath(rt, m)
		}
		kinds := oneOf(rt, "kinds", 1, 1, 1, 2, 2, 4, 4, 3, 5, 6, 7)
		if kinds&1 != 0 {
			for i := length(rt, 1, 3, "ntrk"); i > 0; i-- {
				var segs [][]pt
				s := ""
				for j := length(rt, 1, 3, "nseg"); j > 0; j-- {
					p := path()
					segs = append(segs, p)
					s += "<trkseg>" + gpxPoints(rt, "trkpt", p) + "</trkseg>\n"
				}
				name := oneOf(rt, "tname", "", "<name>Track</name>", "<name>A</name><desc>d</desc><number>3</number>")
				trk += "<trk>" + name + s + "</trk>"
				tracks = append(tracks, segs)
			}
		}
		if kinds&2 != 0 {
			for i := length(rt, 1, 3, "nrte"); i > 0; i-- {
				p := path()
				routes = append(routes, [][]pt{p})
				rte += "<rte>" + oneOf(rt, "rname", "", "<name>Route</name>") + gpxPoints(rt, "rtept", p) + "</rte>\n"
			}
		}
		if kinds&4 != 0 {
			p := path()
			if len(p) == 0 {
				p = genForeignPath(rt, 1)
			}
			wpts = [][][]pt{{p}}
			wpt = gpxPoints(rt, "wpt", p)
		}
		version := oneOf(rt, "version", "1.1", "1.1", "1.0")
		head := oneOf(rt, "decl", `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version="1.0"?>`+"\n<!-- exported -->\n")
		ns := map[string]string{"1.1": "http://www.topografix.com/GPX/1/1", "1.0": "http://www.topografix.com/GPX/1/0"}[version]
		open := fmt.Sprintf(`<gpx xmlns=%q version=%q creator="another tool">`, ns, version)
		if chance(rt, 30, "ext") {
			open = fmt.Sprintf(`<gpx version=%q creator="x" xmlns=%q xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xmlns:gpxx="http://www.garmin.com/xmlschemas/GpxExtensions/v3">`, version, ns)
		}
		meta, ext := "", ""
		if version == "1.1" {
			meta = oneOf(rt, "meta", "", "<metadata><name>tour</name><time>2021-05-06T07:08:09Z</time></metadata>")
			ext = oneOf(rt, "gext", "", "", `<extensions><foreign a="1"><b>2</b></foreign></extensions>`)
		} else {
			meta = oneOf(rt, "meta", "", "<name>tour</name><time>2021-05-06T07:08:09Z</time>")
		}
		doc := head + open + meta + wpt + rte + trk + ext + "</gpx>"
		k.note("%s", doc)
		want := routes
		if tracks != nil {
			want = tracks
		}
		if wpts != nil {
			want = wpts
		}
		got, err := gpsgen.DecodeGPXRoutes([]byte(doc))
		if bad {
			k.class("too few points")
			if err == nil {
				rt.Fatalf("a path of fewer than two points, decoded %d routes without an error:\n%s", len(got), doc)
			}
			return
		}
		if err != nil {
			rt.Fatalf("DecodeGPXRoutes: %v\n%s", err, doc)
		}
		checkImported(rt, got, want, doc)
		k.nontrivial()
		if wpts != nil {
			k.class("waypoints")
		} else if tracks != nil {
			k.class("tracks")
		} else {
			k.class("routes")
		}
	})
}
