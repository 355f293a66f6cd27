package checks

import (
	"fmt"
	"math"
	"slices"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/google/uuid"
	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/types"
	"pgregory.net/rapid"
)

type pt = geo.LatLonPoint

// rapid's own number generators prefer small values; most choices here are
// better uniform, so they are made from fair coin flips (and still shrink
// towards the lower bound).

func bits(rt *rapid.T, n int) uint64 {
	var x uint64
	for i := 0; i < n; i++ {
		x <<= 1
		if coin.Draw(rt, "") {
			x |= 1
		}
	}
	return x
}

var coin = rapid.Bool()

var bitGens [40]*rapid.Generator[uint64]

func init() {
	for i := range bitGens {
		n := i
		bitGens[i] = rapid.Custom(func(rt *rapid.T) uint64 { return bits(rt, n) })
	}
}

// intn draws an int uniformly.
func intn(rt *rapid.T, lo, hi int, label string) int {
	n := uint64(hi-lo) + 1
	if n <= 1 {
		return lo
	}
	if n > 1<<16 {
		return rapid.IntRange(lo, hi).Draw(rt, label)
	}
	b := 4
	for m := n; m > 0; m >>= 1 {
		b++
	}
	return lo + int(bitGens[b].Draw(rt, label)*n>>b)
}

func float(rt *rapid.T, lo, hi float64, label string) float64 {
	return rapid.Float64Range(lo, hi).Draw(rt, label)
}

// uni draws a float uniformly.
func uni(rt *rapid.T, lo, hi float64, label string) float64 {
	return lo + (hi-lo)*float64(bitGens[32].Draw(rt, label))/(1<<32-1)
}

func oneOf[T any](rt *rapid.T, label string, xs ...T) T {
	return xs[intn(rt, 0, len(xs)-1, label)]
}

// length draws the length of a history, which is much longer than hi now and then.
func length(rt *rapid.T, lo, hi int, label string) int {
	if chance(rt, 2, label+"many") {
		return intn(rt, hi, 30*hi, label)
	}
	return intn(rt, lo, hi, label)
}

func chance(rt *rapid.T, percent int, label string) bool {
	return int(bitGens[8].Draw(rt, label))*100>>8 >= 100-percent
}

// genPoint draws a coordinate with latitude up to maxLat.
func genPoint(rt *rapid.T, maxLat float64) pt {
	switch intn(rt, 0, 5, "where") {
	case 0: // around zero meridian and equator
		return pt{Lat: uni(rt, -0.01, 0.01, "lat"), Lon: uni(rt, -0.01, 0.01, "lon")}
	case 1: // near the antimeridian
		return pt{Lat: uni(rt, -maxLat, maxLat, "lat"), Lon: oneOf(rt, "side", 1.0, -1.0) * uni(rt, 179.9, 180, "lon")}
	case 2: // high latitude
		return pt{Lat: oneOf(rt, "side", 1.0, -1.0) * uni(rt, maxLat*0.9, maxLat, "lat"), Lon: uni(rt, -180, 180, "lon")}
	default:
		return pt{Lat: uni(rt, -maxLat, maxLat, "lat"), Lon: uni(rt, -180, 180, "lon")}
	}
}

type pathOpts struct {
	minPts, maxPts int
	zeroSegs       bool // allow segments of length zero
	maxSeg         float64
	minSeg         float64
	maxLat         float64
	noTens         bool // no coordinate is a multiple of ten degrees
}

func defaultPath() pathOpts {
	return pathOpts{minPts: 2, maxPts: 7, zeroSegs: true, maxSeg: 3000, minSeg: 0.05, maxLat: 80}
}

// genPath draws a path of connected points.
func genPath(rt *rapid.T, o pathOpts) []pt {
	n := intn(rt, o.minPts, o.maxPts, "npts")
	p := genPoint(rt, o.maxLat-1)
	if o.noTens {
		p = avoidTens(p)
	}
	pts := make([]pt, 0, n+1)
	pts = append(pts, p)
	sc := oneOf(rt, "size", 1.0, 5, 30, 200, 1000)
	for len(pts) < n {
		var q pt
		kind := intn(rt, 0, 9, "seg")
		switch {
		case kind == 9 && o.zeroSegs && len(pts) > 1:
			q = p
		case kind == 8 && o.minSeg < 1:
			q = refDest(p, uni(rt, o.minSeg, 1.5, "len"), uni(rt, 0, 360, "brg"))
		default:
			l := uni(rt, 0.2, 3, "len") * sc
			l = math.Min(math.Max(l, o.minSeg), o.maxSeg)
			q = refDest(p, l, uni(rt, 0, 360, "brg"))
		}
		if math.Abs(q.Lat) > o.maxLat {
			q = pts[0]
		}
		if o.noTens {
			q = avoidTens(q)
		}
		pts = append(pts, q)
		p = q
	}
	if len(pts) >= 3 && chance(rt, 25, "close") {
		if o.zeroSegs || refDist(pts[0], pts[len(pts)-2]) > o.minSeg {
			pts[len(pts)-1] = pts[0]
		}
	}
	return pts
}

// avoidTens moves a coordinate that is written as a multiple of ten degrees
// (a known finding of property P06) to another place.
func avoidTens(p pt) pt {
	fix := func(x float64) float64 {
		if math.Abs(x-10*math.Round(x/10)) < 1e-9 {
			return x*0.999 + 0.0001
		}
		return x
	}
	return pt{Lat: fix(p.Lat), Lon: fix(p.Lon)}
}

func genTrack(rt *rapid.T, o pathOpts) (*navigator.Track, []pt) {
	pts := genPath(rt, o)
	return must(navigator.NewTrack(pts)), pts
}

var names = []string{"abc", "Route one", "42", "2024-01", "true", "null", "ünïcödé ✓", "a<b>&\"c'", "  spaced  ", "1e5", "-7", "0x10", "NaN", "abcdefghij"}

func genName(rt *rapid.T) string {
	if chance(rt, 70, "fixedname") {
		s := oneOf(rt, "name", names...)
		for len(s) < navigator.MinNameValue {
			s += "_"
		}
		return s
	}
	if chance(rt, 10, "longname") {
		return rapid.StringMatching(`[A-Za-z0-9 _.\-]{200,256}`).Draw(rt, "name")
	}
	return rapid.StringMatching(`[A-Za-z0-9 _.\-]{3,40}`).Draw(rt, "name")
}

func genColor(rt *rapid.T) colorful.Color {
	return colorful.Color{
		R: float64(intn(rt, 0, 255, "r")) / 255,
		G: float64(intn(rt, 0, 255, "g")) / 255,
		B: float64(intn(rt, 0, 255, "b")) / 255,
	}
}

// genJSONValue draws a value that is its own JSON round trip image.
func genJSONValue(rt *rapid.T, depth int) any {
	k := intn(rt, 0, 9, "vkind")
	if depth <= 0 && k >= 8 {
		k = 0
	}
	switch k {
	case 0, 1, 2:
		if chance(rt, 2, "long") {
			return strings.Repeat(oneOf(rt, "rep", "x", "é ", "<&>"), intn(rt, 100, 9000, "reps"))
		}
		return rapid.StringOfN(rapid.RuneFrom([]rune("abc XYZ019<>&\"'\\/é漢\u2028\n\t")), 0, 12, -1).Draw(rt, "vs")
	case 3:
		return float64(intn(rt, -1000000, 1000000, "vi"))
	case 4:
		return float(rt, -1e12, 1e12, "vf")
	case 5:
		return uni(rt, -1, 1, "vu")
	case 6:
		return rapid.Bool().Draw(rt, "vb")
	case 7:
		return nil
	case 8:
		n := intn(rt, 0, 3, "vn")
		l := make([]any, n)
		for i := range l {
			l[i] = genJSONValue(rt, depth-1)
		}
		return l
	default:
		return genJSONMap(rt, depth-1)
	}
}

var keyGen = rapid.StringMatching(`[a-z][A-Za-z0-9_]{0,8}|[ -~]{1,6}|[а-я]{1,4}`)

var reservedGeoJSON = map[string]bool{"routeID": true, "color": true, "name": true, "distance": true, "units": true, "numTracks": true, "tracksInfo": true}

func genJSONMap(rt *rapid.T, depth int) map[string]any {
	m := map[string]any{}
	n := intn(rt, 0, 4, "nkeys")
	for i := 0; i < n; i++ {
		k := ""
		if chance(rt, 15, "likely key") {
			k = oneOf(rt, "key", "numSegments", "trackID", "trackId", "routeId", "properties", "props", "id", "ID", "Name", "Color", "version", "isClosed", "closed", "type", "geometry", "bbox", "stroke", "description", "numtracks", "colour", "tracks", "index", "0", "")
		} else {
			k = keyGen.Draw(rt, "key")
		}
		if reservedGeoJSON[k] {
			k = "x" + k
		}
		m[k] = genJSONValue(rt, depth)
	}
	return m
}

// itinerary is the description of generated routes.
type itinerary struct {
	routes []*navigator.Route
	points [][][]pt // route, track, point
}

type itinOpts struct {
	minRoutes, maxRoutes int
	minTracks, maxTracks int
	path                 pathOpts
	meta                 bool // names, colours, properties
}

func genItinerary(rt *rapid.T, o itinOpts) itinerary {
	if chance(rt, 3, "many") { // of something that is drawn more than once
		switch intn(rt, 0, 2, "of") {
		case 0:
			if o.maxRoutes > 1 && o.maxRoutes > o.minRoutes {
				o.maxRoutes = 40
				o.minRoutes = intn(rt, o.minRoutes, 40, "least")
			}
		case 1:
			if o.maxTracks > 1 && o.maxTracks > o.minTracks {
				o.maxTracks = 40
				o.minTracks = intn(rt, o.minTracks, 40, "least")
			}
		default:
			if o.path.maxPts > o.path.minPts {
				o.path.maxPts = 300
				o.path.minPts = intn(rt, o.path.minPts, 300, "least")
			}
		}
	}
	var it itinerary
	n := intn(rt, o.minRoutes, o.maxRoutes, "nroutes")
	for i := 0; i < n; i++ {
		r, pts := genRoute(rt, o)
		it.routes = append(it.routes, r)
		it.points = append(it.points, pts)
	}
	return it
}

func genRoute(rt *rapid.T, o itinOpts) (*navigator.Route, [][]pt) {
	var r *navigator.Route
	if o.meta && chance(rt, 15, "restored") {
		r = navigator.RestoreRoute(genRestoredID(rt), genColor(rt).Hex(), nil)
	} else {
		r = navigator.NewRoute()
	}
	if o.meta {
		decorateRoute(rt, r)
	}
	m := intn(rt, o.minTracks, o.maxTracks, "ntracks")
	var all [][]pt
	for j := 0; j < m; j++ {
		if j > 0 && chance(rt, 3, "same") { // a lap track is driven again
			l := intn(rt, 0, j-1, "lap")
			r.AddTrack(r.TrackAt(l))
			all = append(all, all[l])
			continue
		}
		tr, pts := genTrack(rt, o.path)
		if o.meta {
			if chance(rt, 15, "restoredT") {
				tr = must(navigator.RestoreTrack(genRestoredID(rt), genColor(rt).Hex(), pts))
			}
			decorateTrack(rt, tr)
		}
		r.AddTrack(tr)
		all = append(all, pts)
	}
	return r, all
}

// genRestoredID draws an id, short or long, that is not drawn twice (but for
// negligible odds).
func genRestoredID(rt *rapid.T) string {
	n := bitGens[32].Draw(rt, "idn")
	switch intn(rt, 0, 4, "idkind") {
	case 0:
		return fmt.Sprint(n)
	case 3:
		return fmt.Sprintf("%s-%d", strings.Repeat("long ", intn(rt, 7, 60, "idlen")), n)
	case 1:
		return uuid.NewSHA1(uuid.Nil, []byte(fmt.Sprint(n))).String()
	case 2:
		return fmt.Sprintf("true-%d", n)
	default:
		return fmt.Sprintf("Route %d", n)
	}
}

// genAbsentID draws an id that is none of those given, often one that is much
// like one of them.
func genAbsentID(rt *rapid.T, ids ...string) string {
	if len(ids) > 0 && coin.Draw(rt, "near") {
		id := nearID(rt, ids[intn(rt, 0, len(ids)-1, "to")])
		if !slices.Contains(ids, id) {
			return id
		}
	}
	return oneOf(rt, "badid", "", "nope", uuid.Nil.String(), "0123456789012345678901234567890123456789")
}

// nearID is another id, which differs from the one given in its case, its end, or
// its spaces.
func nearID(rt *rapid.T, id string) string {
	near := id
	switch intn(rt, 0, 5, "nearid") {
	case 0:
		near = strings.ToUpper(id)
	case 1:
		near = strings.ToLower(id)
	case 2:
		near = id[:len(id)-1]
	case 3:
		near = id[1:]
	case 4:
		near = " " + id
	}
	if near == id || near == "" || !utf8.ValidString(near) {
		near = id + "x"
	}
	return near
}

func decorateRoute(rt *rapid.T, r *navigator.Route) {
	if chance(rt, 60, "named") {
		noErr(r.ChangeName(genName(rt)))
	}
	if chance(rt, 50, "colored") {
		noErr(r.ChangeColor(genColor(rt)))
	}
	if chance(rt, 60, "props") {
		r.Props().Merge(genJSONMap(rt, 2))
	}
}

func decorateTrack(rt *rapid.T, t *navigator.Track) {
	if chance(rt, 60, "named") {
		noErr(t.ChangeName(genName(rt)))
	}
	if chance(rt, 50, "colored") {
		noErr(t.ChangeColor(genColor(rt).Hex()))
	}
	if chance(rt, 60, "props") {
		t.Props().Merge(genJSONMap(rt, 2))
	}
}

func smallItin() itinOpts {
	return itinOpts{minRoutes: 1, maxRoutes: 3, minTracks: 1, maxTracks: 3, path: defaultPath()}
}

// ---- devices -------------------------------------------------------------

var modes = []types.SensorMode{0, types.WithSensorRandomMode, types.WithSensorStartMode, types.WithSensorEndMode, types.WithSensorStartMode | types.WithSensorEndMode,
	types.WithSensorRandomMode | types.WithSensorStartMode, types.WithSensorRandomMode | types.WithSensorEndMode, types.WithSensorRandomMode | types.WithSensorStartMode | types.WithSensorEndMode}

func genAmplitude(rt *rapid.T) int {
	if chance(rt, 15, "bigamp") {
		return intn(rt, 4, 512, "amp")
	}
	return intn(rt, 4, 24, "amp")
}

// steady are options under which a device draws no randomness that matters:
// constant speed and elevation, a battery that lasts, fixed offline time.
func steadyOptions(speed float64) *gpsgen.DeviceOptions {
	o := gpsgen.NewDeviceOptions()
	o.Speed.Min, o.Speed.Max, o.Speed.Amplitude = speed, speed, 4
	o.Navigator.Elevation.Min, o.Navigator.Elevation.Max = 120, 120
	o.Battery.ChargeTime = 1000000 * time.Hour
	o.Navigator.SkipOffline = true
	return o
}

func genOptions(rt *rapid.T) *gpsgen.DeviceOptions {
	o := gpsgen.NewDeviceOptions()
	if chance(rt, 40, "id") {
		o.ID = rapid.StringMatching(`[a-z0-9\-]{1,36}`).Draw(rt, "devid")
	}
	if chance(rt, 40, "model") {
		o.Model = rapid.StringMatching(`[A-Za-z0-9 \-]{3,64}`).Draw(rt, "devmodel")
	}
	if chance(rt, 40, "dcolor") {
		o.Color = genColor(rt).Hex()
	}
	if chance(rt, 40, "user") {
		o.UserID = rapid.StringMatching(`[ -~]{0,20}`).Draw(rt, "user")
	}
	if chance(rt, 40, "descr") {
		o.Descr = rapid.StringMatching(`[ -~]{0,40}|ü{1,5}`).Draw(rt, "descr")
	}
	o.Navigator.SkipOffline = chance(rt, 40, "skip")
	o.Navigator.Offline.Min = oneOf(rt, "omin", 0, 1, 2, 3, 10)
	o.Navigator.Offline.Max = o.Navigator.Offline.Min + oneOf(rt, "ospan", 0, 1, 2, 5, 60)
	if chance(rt, 5, "long offline") {
		o.Navigator.Offline.Min = oneOf(rt, "ominlong", 100, 127, 200, 255, 300, 1000, 3400)
		o.Navigator.Offline.Max = o.Navigator.Offline.Min + oneOf(rt, "ospanlong", 0, 1, 100)
	}
	if o.Navigator.Offline.Max == 0 {
		o.Navigator.Offline.Max = 1
	}
	switch intn(rt, 0, 4, "elev") {
	case 0:
		v := uni(rt, 1, 5000, "ev")
		o.Navigator.Elevation.Min, o.Navigator.Elevation.Max = v, v
	case 1:
		o.Navigator.Elevation.Min = oneOf(rt, "emin", 0, 0, 0.001, 0.3)
		o.Navigator.Elevation.Max = o.Navigator.Elevation.Min + uni(rt, 0.001, 1.2, "espan")
	default:
		o.Navigator.Elevation.Min = uni(rt, 0, 2000, "emin")
		o.Navigator.Elevation.Max = o.Navigator.Elevation.Min + uni(rt, 0.1, 40000, "espan")
	}
	o.Navigator.Elevation.Amplitude = genAmplitude(rt)
	o.Navigator.Elevation.Mode = oneOf(rt, "emode", modes...)
	o.Battery.Min = oneOf(rt, "bmin", 0.0, 0.0, 5, 20, 50, 99.5)
	o.Battery.Max = oneOf(rt, "bmax", 100.0, 100.0, 99.9)
	o.Battery.ChargeTime = oneOf(rt, "charge", 30*time.Second, 10*time.Minute, time.Hour, 7*time.Hour, 1500*time.Millisecond)
	switch intn(rt, 0, 4, "spd") {
	case 0:
		v := uni(rt, 0.1, 200, "sv")
		o.Speed.Min, o.Speed.Max = v, v
	case 1:
		o.Speed.Min = oneOf(rt, "smin", 0, 0, 0.001, 0.2)
		o.Speed.Max = o.Speed.Min + uni(rt, 0.001, 1, "sspan")
	default:
		o.Speed.Min = uni(rt, 0, 50, "smin")
		o.Speed.Max = o.Speed.Min + uni(rt, 0.1, 150, "sspan")
	}
	o.Speed.Amplitude = genAmplitude(rt)
	return o
}

func genSensor(rt *rapid.T) *types.Sensor {
	min := uni(rt, -1000, 1000, "smin")
	max := min + uni(rt, 0, 500, "sspan")
	if chance(rt, 25, "const") {
		max = min
	}
	if chance(rt, 10, "swap") {
		min, max = max, min
	}
	name := oneOf(rt, "sname", "temp", "fuel", "s", "данные", "a b")
	s := must(types.NewSensor(name, min, max, genAmplitude(rt), oneOf(rt, "mode", modes...)))
	if chance(rt, 8, "oddid") {
		s = sensorWithID(s, genRestoredID(rt))
	}
	return s
}

// sensorWithID is a sensor like s that has the id given: a snapshot may hold
// any id.
func sensorWithID(s *types.Sensor, id string) *types.Sensor {
	snap := s.Snapshot()
	snap.Id = id
	n := new(types.Sensor)
	n.FromSnapshot(snap)
	return n
}

// genTick draws the length of a step.
func genTick(rt *rapid.T) float64 {
	switch intn(rt, 0, 5, "tk") {
	case 0, 1:
		return float64(intn(rt, 1, 10, "tick"))
	case 2:
		return uni(rt, 0.001, 1, "tick")
	case 3:
		return uni(rt, 1, 60, "tick")
	case 4:
		return uni(rt, 60, 2000, "tick")
	default:
		return oneOf(rt, "tick", 1.0, 0.25, 3, 0)
	}
}
