package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/google/uuid"
	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"github.com/mmadfox/go-gpsgen/properties"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/random"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- P26 -----------------------------------------------------------------

// around draws a number near the limits lo and hi, or any other.
func around(rt *rapid.T, lo, hi float64, label string) float64 {
	switch intn(rt, 0, 9, label+"kind") {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return math.Nextafter(lo, math.Inf(-1))
	case 3:
		return math.Nextafter(hi, math.Inf(1))
	case 4:
		return lo - uni(rt, 0, hi-lo, label)
	case 5:
		return hi + uni(rt, 0, hi-lo, label)
	case 6:
		return float64(intn(rt, int(lo)-2, int(hi)+2, label))
	default:
		return uni(rt, lo, hi, label)
	}
}

// inside draws a number within the limits.
func inside(rt *rapid.T, lo, hi float64, label string) float64 {
	switch intn(rt, 0, 6, label+"kind") {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return math.Min(hi, lo+oneOf(rt, label+"small", 1e-9, 0.001, 0.3, 0.999, 1, 1.001, 2))
	case 3:
		return math.Max(lo, hi-oneOf(rt, label+"small", 1e-9, 0.001, 0.3, 0.999, 1, 1.001, 2))
	default:
		return uni(rt, lo, hi, label)
	}
}

func aroundInt(rt *rapid.T, lo, hi int, label string) int {
	switch intn(rt, 0, 7, label+"kind") {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return lo - 1
	case 3:
		return hi + 1
	case 4:
		return intn(rt, lo-1000, hi+1000, label)
	default:
		return intn(rt, lo, hi, label)
	}
}

// The documented rules.

func wantSpeed(min, max float64, amp int) (float64, float64, bool) {
	if max <= 0 {
		max = min
	}
	if min < 0 || max > 1000 || min > max || amp < 4 || amp > 512 {
		return 0, 0, false
	}
	if min == 0 && max == 0 {
		return 1, 1, true
	}
	return min, max, true
}

func wantBattery(min, max float64) (float64, float64, bool) {
	if min < 0 || max < 0 || max > 100 {
		return 0, 0, false
	}
	return math.Min(min, max), max, true
}

func wantElevation(min, max float64, amp int) (float64, float64, bool) {
	if min < 0 || max < 0 || max > 50000 || amp < 4 || amp > 512 {
		return 0, 0, false
	}
	if min > max {
		min = math.Max(max-1, 0)
	}
	if min == 0 && max == 0 {
		return 0, 100, true
	}
	return min, max, true
}

func wantOffline(min, max int) (int, int, bool) {
	if min < 0 || max < 0 || max > 3600 {
		return 0, 0, false
	}
	if min > max {
		min = max - 1
		if min < 0 {
			min = 0
		}
	}
	if min == 0 && max == 0 {
		return 0, 10, true
	}
	return min, max, true
}

func validModel(s string) bool { return len(s) >= 3 && len(s) <= 64 }
func validName(s string) bool  { return len(s) >= 3 && len(s) <= 256 }

// genLength draws a string of some length around the limits, sometimes of
// characters that take several bytes.
func genLength(rt *rapid.T, lo, hi int) string {
	n := aroundInt(rt, lo, hi, "len")
	if n < 0 {
		n = -n
	}
	if chance(rt, 30, "wide") {
		return strings.Repeat("é", n/2) + strings.Repeat("x", n%2)
	}
	return strings.Repeat("n", n)
}

var goodHex = []string{"#ff0000", "#000000", "#FFffFF", "#1a2B3c", "#abc", "#F00", "#fff"}
var badHex = []string{"red", "ff0000", "#ggg", "#", "#12", "0xff0000", "rgb(1,2,3)", " #ff0000", "#gggggg"}

var longHex = regexp.MustCompile(`^#[0-9a-f]{6}$`)

func wantHex(s string) string {
	s = strings.ToLower(s)
	if len(s) == 4 {
		return "#" + s[1:2] + s[1:2] + s[2:3] + s[2:3] + s[3:4] + s[3:4]
	}
	return s
}

func TestP26_Device(t *testing.T) {
	seen := map[string]bool{}
	check(t, 1500, func(rt *rapid.T, k *kase) {
		o := gpsgen.NewDeviceOptions()
		// Mostly valid, so that a single bad value decides.
		wild := func(label string) bool { return chance(rt, 12, "wild"+label) }
		if wild("speed") {
			o.Speed.Min, o.Speed.Max = around(rt, 0, 1000, "smin"), around(rt, 0, 1000, "smax")
		} else {
			o.Speed.Min = inside(rt, 0, 1000, "smin")
			o.Speed.Max = oneOf(rt, "smaxkind", o.Speed.Min, inside(rt, o.Speed.Min, 1000, "smax"), 0)
		}
		o.Speed.Amplitude = intn(rt, 4, 20, "samp")
		if wild("samp") {
			o.Speed.Amplitude = aroundInt(rt, 4, 512, "sampw")
		}
		if wild("battery") {
			o.Battery.Min, o.Battery.Max = around(rt, 0, 100, "bmin"), around(rt, 0, 100, "bmax")
		} else {
			o.Battery.Min, o.Battery.Max = inside(rt, 0, 100, "bmin"), inside(rt, 0, 100, "bmax")
		}
		o.Battery.ChargeTime = oneOf(rt, "charge", time.Hour, 7*time.Hour, time.Second, -1, -time.Hour)
		e := &o.Navigator.Elevation
		if wild("elevation") {
			e.Min, e.Max = around(rt, 0, 50000, "emin"), around(rt, 0, 50000, "emax")
		} else {
			e.Min, e.Max = inside(rt, 0, 50000, "emin"), inside(rt, 0, 50000, "emax")
		}
		e.Amplitude = intn(rt, 4, 20, "eamp")
		if wild("eamp") {
			e.Amplitude = aroundInt(rt, 4, 512, "eampw")
		}
		e.Mode = oneOf(rt, "emode", modes...)
		off := &o.Navigator.Offline
		if wild("offline") {
			off.Min, off.Max = aroundInt(rt, 0, 3600, "omin"), aroundInt(rt, 0, 3600, "omax")
		} else {
			off.Min, off.Max = int(inside(rt, 0, 3600, "omin")), int(inside(rt, 0, 3600, "omax"))
		}
		o.Navigator.SkipOffline = chance(rt, 30, "skip")
		o.ID = oneOf(rt, "id", "", "", "x", "device 1", "ünïcödé", strings.Repeat("i", 200))
		o.UserID = oneOf(rt, "user", "", "u", "user 1")
		o.Descr = oneOf(rt, "descr", "", "d", "описание")
		if coin.Draw(rt, "model") {
			o.Model = genLength(rt, 3, 64)
		}
		badColor := false
		switch intn(rt, 0, 5, "color") {
		case 0:
			o.Color, badColor = oneOf(rt, "badhex", badHex...), true
		case 1, 2:
			o.Color = oneOf(rt, "hex", goodHex...)
		}
		k.note("%+v", *o)
		given := *o
		smin, smax, ok1 := wantSpeed(o.Speed.Min, o.Speed.Max, o.Speed.Amplitude)
		bmin, bmax, ok2 := wantBattery(o.Battery.Min, o.Battery.Max)
		emin, emax, ok3 := wantElevation(e.Min, e.Max, e.Amplitude)
		omin, omax, ok4 := wantOffline(off.Min, off.Max)
		ok5 := o.Model == "" || validModel(o.Model)
		want := ok1 && ok2 && ok3 && ok4 && ok5 && !badColor
		d, err := gpsgen.NewDevice(o)
		if (err == nil) != want || (d == nil) != (err != nil) {
			rt.Fatalf("NewDevice(%+v) = %v, %v; valid: speed %v battery %v elevation %v offline %v model %v color %v", given, d != nil, err, ok1, ok2, ok3, ok4, ok5, !badColor)
		}
		if *o != given {
			rt.Fatalf("NewDevice changed its options from %+v to %+v", given, *o)
		}
		if err != nil {
			k.class("refused")
			k.nontrivial()
			return
		}
		k.class("accepted")
		k.nontrivial()
		w := given
		w.Speed.Min, w.Speed.Max = smin, smax
		w.Battery.Min, w.Battery.Max = bmin, bmax
		if w.Battery.ChargeTime < 0 {
			w.Battery.ChargeTime = 9 * time.Hour
		}
		w.Navigator.Elevation.Min, w.Navigator.Elevation.Max = emin, emax
		w.Navigator.Offline.Min, w.Navigator.Offline.Max = omin, omax
		if msg := settings(d.Snapshot(), &w); msg != "" {
			rt.Fatalf("NewDevice(%+v): %s", given, msg)
		}
		if d.UserID() != given.UserID || d.Descr() != given.Descr {
			rt.Fatalf("user %q, description %q", d.UserID(), d.Descr())
		}
		if given.ID != "" && d.ID() != given.ID || d.ID() == "" {
			rt.Fatalf("id %q, want %q", d.ID(), given.ID)
		}
		if given.ID == "" {
			if seen[d.ID()] {
				rt.Fatalf("the id %s is used twice", d.ID())
			}
			seen[d.ID()] = true
		}
		if given.Model != "" && d.Model() != given.Model || !validModel(d.Model()) {
			rt.Fatalf("model %q, want %q", d.Model(), given.Model)
		}
		if !longHex.MatchString(d.Color()) || given.Color != "" && d.Color() != wantHex(given.Color) {
			rt.Fatalf("color %q, want %q", d.Color(), given.Color)
		}
		if d.Status() != gpsgen.Stopped || d.NumRoutes() != 0 || d.NumSensors() != 0 {
			rt.Fatalf("a new device has status %v, %d routes, %d sensors", d.Status(), d.NumRoutes(), d.NumSensors())
		}
		st := d.State()
		if st.Id != d.ID() || st.Model != d.Model() || st.Color != d.Color() || st.UserId != d.UserID() || st.Description != d.Descr() {
			rt.Fatalf("published %v", st)
		}
	})
}

func TestP26_Parts(t *testing.T) {
	check(t, 2500, func(rt *rapid.T, k *kase) {
		switch intn(rt, 0, 7, "part") {
		case 0:
			min, max, amp := around(rt, 0, 1000, "min"), around(rt, 0, 1000, "max"), intn(rt, 4, 16, "amp")
			if chance(rt, 20, "ampw") {
				amp = aroundInt(rt, 4, 512, "amp")
			}
			k.note("speed %v %v %d", min, max, amp)
			wmin, wmax, ok := wantSpeed(min, max, amp)
			s, err := types.NewSpeed(min, max, amp)
			if (err == nil) != ok || (s == nil) != (err != nil) {
				rt.Fatalf("NewSpeed(%v, %v, %d): %v", min, max, amp, err)
			}
			if ok && (s.Min() != wmin || s.Max() != wmax) {
				rt.Fatalf("NewSpeed(%v, %v): %v..%v, want %v..%v", min, max, s.Min(), s.Max(), wmin, wmax)
			}
		case 1:
			min, max := around(rt, 0, 100, "min"), around(rt, 0, 100, "max")
			charge := time.Duration(intn(rt, -5, 5, "charge")) * 17 * time.Minute
			k.note("battery %v %v %v", min, max, charge)
			wmin, wmax, ok := wantBattery(min, max)
			b, err := types.NewBattery(min, max, charge)
			if (err == nil) != ok || (b == nil) != (err != nil) {
				rt.Fatalf("NewBattery(%v, %v): %v", min, max, err)
			}
			if ok && (b.Min() != wmin || b.Max() != wmax) {
				rt.Fatalf("NewBattery(%v, %v): %v..%v", min, max, b.Min(), b.Max())
			}
			if ok && (charge > 0 && b.ChargeTime() != charge || charge < 0 && b.ChargeTime() != 9*time.Hour) {
				rt.Fatalf("NewBattery: charge time %v, want %v", b.ChargeTime(), charge)
			}
		case 2, 3:
			name := oneOf(rt, "name", "", "s", "temperature", "ünïcödé", strings.Repeat("n", 300))
			min := uni(rt, -1000, 1000, "min")
			max := min + uni(rt, 0, 1000, "span")
			amp := aroundInt(rt, 4, 512, "amp")
			mode := oneOf(rt, "mode", modes...)
			id := oneOf(rt, "id", "", "x", "not-a-uuid", uuid.NewString(), "00000000-0000-0000-0000-00000000000g", strings.ToUpper(uuid.NewString()))
			_, iderr := uuid.Parse(id)
			ok := name != "" && amp >= 4 && amp <= 512
			restore := coin.Draw(rt, "restore")
			k.note("sensor %q %v %v %d %v %q %v", name, min, max, amp, mode, id, restore)
			var s *types.Sensor
			var err error
			if restore {
				ok = ok && iderr == nil
				s, err = types.RestoreSensor(id, name, min, max, amp, mode)
			} else {
				s, err = types.NewSensor(name, min, max, amp, mode)
			}
			if (err == nil) != ok || (s == nil) != (err != nil) {
				rt.Fatalf("sensor %q %q amplitude %d: %v", id, name, amp, err)
			}
			if !ok {
				break
			}
			if s.Name() != name || s.Min() != min || s.Max() != max {
				rt.Fatalf("sensor is %q %v..%v, want %q %v..%v", s.Name(), s.Min(), s.Max(), name, min, max)
			}
			if _, err := uuid.Parse(s.ID()); err != nil || restore && s.ID() != strings.ToLower(id) {
				rt.Fatalf("sensor id is %q, want %q", s.ID(), id)
			}
			if n := s.Snapshot().Gen; len(n.Points) != amp {
				rt.Fatalf("%d control points for an amplitude of %d", len(n.Points), amp)
			}
		case 4:
			v := genLength(rt, 3, 64)
			k.note("model %d", len(v))
			m, err := types.NewModel(v)
			if (err == nil) != validModel(v) || err == nil && m.String() != v || err != nil && !m.IsEmpty() {
				rt.Fatalf("NewModel of %d bytes: %q %v", len(v), m, err)
			}
			if m := types.RandomModel(); !validModel(m.String()) || m.IsEmpty() {
				rt.Fatalf("random model %q", m)
			}
		case 5:
			v := genLength(rt, 3, 256)
			k.note("name %d", len(v))
			n, err := navigator.ParseName(v)
			if (err == nil) != validName(v) || err == nil && n.String() != v || err != nil && !n.IsEmpty() {
				rt.Fatalf("ParseName of %d bytes: %q %v", len(v), n, err)
			}
		case 6:
			// A navigator by itself.
			var opts []navigator.Option
			ok := true
			if coin.Draw(rt, "elev") {
				min, max, amp := around(rt, 0, 50000, "emin"), around(rt, 0, 50000, "emax"), aroundInt(rt, 4, 512, "eamp")
				_, _, good := wantElevation(min, max, amp)
				ok = ok && good
				opts = append(opts, navigator.WithElevation(min, max, amp, 0))
				k.note("elevation %v %v %d", min, max, amp)
			}
			wmin, wmax := 1, 10
			if coin.Draw(rt, "off") {
				min, max := aroundInt(rt, 0, 3600, "omin"), aroundInt(rt, 0, 3600, "omax")
				a, b, good := wantOffline(min, max)
				wmin, wmax = a, b
				ok = ok && good
				opts = append(opts, navigator.WithOffline(min, max))
				k.note("offline %v %v", min, max)
			}
			n, err := navigator.New(opts...)
			if (err == nil) != ok || (n == nil) != (err != nil) {
				rt.Fatalf("navigator: %v, want valid %v", err, ok)
			}
			if ok {
				if s := n.Snapshot(); s.OfflineMin != int64(wmin) || s.OfflineMax != int64(wmax) {
					rt.Fatalf("offline %d..%d, want %d..%d", s.OfflineMin, s.OfflineMax, wmin, wmax)
				}
			}
		case 7:
			id := oneOf(rt, "id", "", "t1", uuid.NewString())
			path := genPath(rt, defaultPath())
			k.note("track %q", id)
			tr, err := navigator.RestoreTrack(id, "#ff0000", path)
			if (err == nil) != (id != "") || (tr == nil) != (err != nil) {
				rt.Fatalf("RestoreTrack(%q): %v", id, err)
			}
			if err == nil && (tr.ID() != id || tr.Color() != "#ff0000") {
				rt.Fatalf("restored track %q %q", tr.ID(), tr.Color())
			}
		}
		k.nontrivial()
	})
}

// The presets are valid and give devices that work.
func TestP26_Presets(t *testing.T) {
	presets := map[string]func() *gpsgen.DeviceOptions{
		"new": gpsgen.NewDeviceOptions, "default": gpsgen.DefaultTrackerOptions, "kids": gpsgen.KidsTrackerOptions,
		"dog": gpsgen.DogTrackerOptions, "bicycle": gpsgen.BicycleTrackerOptions, "drone": gpsgen.DroneTrackerOptions,
	}
	trackers := map[string]func() *gpsgen.Device{
		"default": gpsgen.NewTracker, "kids": gpsgen.NewKidsTracker, "dog": gpsgen.NewAnimalTracker,
		"bicycle": gpsgen.NewBicycleTracker, "drone": gpsgen.NewDroneTracker,
	}
	var keys []string
	for n := range presets {
		keys = append(keys, n)
	}
	sort.Strings(keys)
	seen := map[string]bool{}
	check(t, 60, func(rt *rapid.T, k *kase) {
		name := oneOf(rt, "preset", keys...)
		k.note("%s", name)
		o := presets[name]()
		if *o != *presets[name]() {
			rt.Fatalf("the preset changes")
		}
		d, err := gpsgen.NewDevice(o)
		if err != nil {
			rt.Fatalf("the preset %s is invalid: %v", name, err)
		}
		if name == "new" {
			d = must(gpsgen.NewDevice(nil))
		} else if coin.Draw(rt, "tracker") {
			d = trackers[name]()
		}
		if d == nil {
			rt.Fatalf("no device")
		}
		if msg := settings(d.Snapshot(), o); msg != "" {
			rt.Fatalf("preset %s: %s", name, msg)
		}
		if d.Descr() != o.Descr || !validModel(d.Model()) || !longHex.MatchString(d.Color()) || d.ID() == "" || seen[d.ID()] {
			rt.Fatalf("preset %s gives %q %q %q %q", name, d.ID(), d.Model(), d.Color(), d.Descr())
		}
		seen[d.ID()] = true
		noErr(d.AddRoute(gpsgen.RandomRoute(10, 20, 1, gpsgen.RouteLevelL)))
		for i := 0; i < 20; i++ {
			if !d.Next(1) {
				rt.Fatalf("preset %s: step %d failed", name, i)
			}
			st := d.State()
			if st.Speed < o.Speed.Min-1e-9 || st.Speed > o.Speed.Max+1e-9 {
				rt.Fatalf("preset %s: speed %v not in %v..%v", name, st.Speed, o.Speed.Min, o.Speed.Max)
			}
			if el := st.Location.Elevation; el < o.Navigator.Elevation.Min-1e-6 || el > o.Navigator.Elevation.Max+1e-6 {
				rt.Fatalf("preset %s: elevation %v not in %v..%v", name, el, o.Navigator.Elevation.Min, o.Navigator.Elevation.Max)
			}
		}
		k.nontrivial()
	})
}

// ---- P27 -----------------------------------------------------------------

var letters = regexp.MustCompile(`^[A-Za-z0-9]*$`)

// wrap is the difference of two longitudes.
func wrap(d float64) float64 { return d - 360*math.Round(d/360) }

// surrounds tells whether the points, seen from the centre, leave no gap of
// half a turn.
func surrounds(lat, lon float64, pts []pt) bool {
	var a []float64
	for _, p := range pts {
		a = append(a, math.Atan2(p.Lat-lat, wrap(p.Lon-lon)))
	}
	sort.Float64s(a)
	gap := a[0] + 2*math.Pi - a[len(a)-1]
	for i := 1; i < len(a); i++ {
		gap = math.Max(gap, a[i]-a[i-1])
	}
	return gap < math.Pi
}

func trackPoints(tr *navigator.Track) []pt {
	var pts []pt
	for i := 0; i < tr.NumSegments(); i++ {
		pts = append(pts, tr.SegmentAt(i).PointA())
	}
	return append(pts, tr.SegmentAt(tr.NumSegments()-1).PointB())
}

func TestP27_Route(t *testing.T) {
	seen := map[string]bool{}
	check(t, 400, func(rt *rapid.T, k *kase) {
		lat, lon := uni(rt, -88, 88, "lat"), uni(rt, -180, 180, "lon")
		n := oneOf(rt, "tracks", 1, 1, 2, 3, 8, 0, -1, -7, intn(rt, 1, 60, "anytracks"))
		level := oneOf(rt, "level", gpsgen.RouteLevelXS, gpsgen.RouteLevelS, gpsgen.RouteLevelM, gpsgen.RouteLevelL, gpsgen.RouteLevelXL, gpsgen.RouteLevelXXL,
			0, -5, 5000, intn(rt, 10, 600, "anylevel"))
		make := func() *navigator.Route { return gpsgen.RandomRoute(lon, lat, n, level) }
		switch intn(rt, 0, 20, "city") {
		case 0:
			lat, lon, n, level = 40.7128, -74.006, 3, 120
			make = gpsgen.RandomRouteForNewYork
		case 1:
			lat, lon, n, level = 55.753437064373315, 37.621096697276414, 3, 120
			make = gpsgen.RandomRouteForMoscow
		case 2:
			lat, lon, n, level = 48.855323829674006, 2.349892200521907, 3, 120
			make = gpsgen.RandomRouteForParis
		}
		pole := false
		if chance(rt, 10, "edge") {
			switch intn(rt, 0, 3, "edgekind") {
			case 0:
				lat = oneOf(rt, "pole", 90.0, -90, 89.999, -89.95)
				pole = true
			default:
				lon = oneOf(rt, "meridian", 180.0, -180, 179.99, -179.999)
			}
			make = func() *navigator.Route { return gpsgen.RandomRoute(lon, lat, n, level) }
		}
		k.note("%v %v tracks %d level %d", lat, lon, n, level)
		want := n
		if n < 0 {
			want = 1
		}
		scale := math.Min(math.Max(float64(level), 10), 600)
		for try := 0; ; try++ {
			r := make()
			if r == nil || r.NumTracks() != want {
				rt.Fatalf("%d tracks, want %d", r.NumTracks(), want)
			}
			if seen[r.ID()] || !validName(r.Name().String()) || !longHex.MatchString(r.Color()) {
				rt.Fatalf("route %q %q %q", r.ID(), r.Name(), r.Color())
			}
			seen[r.ID()] = true
			around := true
			sum, cnt, dist := 0.0, 0, 0.0
			for i := 0; i < want; i++ {
				tr := r.TrackAt(i)
				if tr.NumSegments() != 16 || !tr.IsClosed() {
					rt.Fatalf("track of %d segments, closed: %v", tr.NumSegments(), tr.IsClosed())
				}
				if seen[tr.ID()] || !validName(tr.Name().String()) || !longHex.MatchString(tr.Color()) {
					rt.Fatalf("track %q %q %q", tr.ID(), tr.Name(), tr.Color())
				}
				seen[tr.ID()] = true
				dist += tr.Distance()
				pts := trackPoints(tr)
				if pts[0] != pts[16] {
					rt.Fatalf("the track is not closed")
				}
				for _, p := range pts {
					if !(math.Abs(p.Lat) <= 90 && math.Abs(p.Lon) <= 180) {
						rt.Fatalf("invalid point %v", p)
					}
					radius := math.Hypot(p.Lat-lat, wrap(p.Lon-lon))
					sum += radius
					cnt++
					if !pole && (radius < 1e-4*scale*(1-1e-3) || radius > 0.017*scale) {
						rt.Fatalf("a point %v degrees from the centre at level %d", radius, level)
					}
				}
				around = around && surrounds(lat, lon, pts)
			}
			if want > 0 && !(dist > 0) || !near(r.Distance(), dist, 1e-6*dist) {
				rt.Fatalf("length %v of a route with tracks of %v", r.Distance(), dist)
			}
			if pole || want == 0 {
				return
			}
			mean := sum / float64(cnt) / scale
			if around && mean > 2e-4 && mean < 1.4e-3 {
				break
			}
			if try == 4 {
				rt.Fatalf("five routes in a row do not surround %v %v (%v) or are %v degrees times the level wide", lat, lon, around, mean)
			}
		}
		k.nontrivial()
	})
}

// The size of a route is proportional to its level, levels outside the range of
// the levels count as the nearest one. 60 tracks have 960 points, so the mean
// distance of a point from the centre is within a few percent of the expected one.
func TestP27_Size(t *testing.T) {
	check(t, 60, func(rt *rapid.T, k *kase) {
		genLevel := func(label string) int {
			return oneOf(rt, label, intn(rt, gpsgen.RouteLevelS, gpsgen.RouteLevelXXL, label+"in"), gpsgen.RouteLevelXXL, intn(rt, gpsgen.RouteLevelXXL+1, 1_000_000, label+"above"),
				gpsgen.RouteLevelS, intn(rt, -100, gpsgen.RouteLevelS-1, label+"below"))
		}
		size := func(level int) float64 {
			r := gpsgen.RandomRoute(10, 20, 60, level)
			sum := 0.0
			for i := 0; i < r.NumTracks(); i++ {
				for j := 0; j < r.TrackAt(i).NumSegments(); j++ {
					p := r.TrackAt(i).SegmentAt(j).PointA()
					sum += math.Hypot(p.Lat-20, p.Lon-10)
				}
			}
			return sum / 960
		}
		a, b := genLevel("a"), genLevel("b")
		k.note("levels %d, %d", a, b)
		scale := func(level int) float64 {
			return math.Min(math.Max(float64(level), gpsgen.RouteLevelS), gpsgen.RouteLevelXXL)
		}
		want := scale(a) / scale(b)
		if got := size(a) / size(b); !(got > want*0.7 && got < want*1.4) {
			rt.Fatalf("routes of level %d are %v times as wide as those of level %d, want about %v", a, got, b, want)
		}
		k.nontrivial()
	})
}

// Capitals, to compare the table of countries with something else.
var capitals = []struct {
	code, name string
	lat, lon   float64
}{
	{"AF", "Afghanistan", 34.53, 69.17}, {"AL", "Albania", 41.33, 19.82}, {"DZ", "Algeria", 36.75, 3.06}, {"AO", "Angola", -8.84, 13.23},
	{"AR", "Argentina", -34.60, -58.38}, {"AU", "Australia", -35.28, 149.13}, {"AT", "Austria", 48.21, 16.37}, {"BE", "Belgium", 50.85, 4.35},
	{"BR", "Brazil", -15.79, -47.88}, {"BG", "Bulgaria", 42.70, 23.32}, {"CA", "Canada", 45.42, -75.70}, {"CL", "Chile", -33.45, -70.67},
	{"CN", "China", 39.90, 116.41}, {"CO", "Colombia", 4.71, -74.07}, {"CU", "Cuba", 23.11, -82.37}, {"CZ", "Czech Republic", 50.08, 14.44},
	{"DE", "Germany", 52.52, 13.40}, {"EG", "Egypt", 30.04, 31.24}, {"ET", "Ethiopia", 9.03, 38.74}, {"FI", "Finland", 60.17, 24.94},
	{"FR", "France", 48.86, 2.35}, {"GB", "United Kingdom", 51.51, -0.13}, {"GR", "Greece", 37.98, 23.73}, {"HU", "Hungary", 47.50, 19.04},
	{"ID", "Indonesia", -6.21, 106.85}, {"IE", "Ireland", 53.35, -6.26}, {"IN", "India", 28.61, 77.21}, {"IR", "Iran", 35.69, 51.39},
	{"IS", "Iceland", 64.15, -21.94}, {"IT", "Italy", 41.90, 12.50}, {"JP", "Japan", 35.68, 139.69}, {"KE", "Kenya", -1.29, 36.82},
	{"KZ", "Kazakhstan", 51.17, 71.45}, {"LT", "Lithuania", 54.69, 25.28}, {"LV", "Latvia", 56.95, 24.11}, {"MA", "Morocco", 34.02, -6.84},
	{"MG", "Madagascar", -18.88, 47.51}, {"MN", "Mongolia", 47.89, 106.91}, {"MX", "Mexico", 19.43, -99.13}, {"NG", "Nigeria", 9.08, 7.40},
	{"NL", "Netherlands", 52.37, 4.90}, {"NO", "Norway", 59.91, 10.75}, {"NP", "Nepal", 27.72, 85.32}, {"NZ", "New Zealand", -41.29, 174.78},
	{"PE", "Peru", -12.05, -77.04}, {"PK", "Pakistan", 33.68, 73.05}, {"PL", "Poland", 52.23, 21.01}, {"PT", "Portugal", 38.72, -9.14},
	{"RO", "Romania", 44.43, 26.10}, {"RU", "Russia", 55.76, 37.62}, {"SA", "Saudi Arabia", 24.71, 46.68}, {"SE", "Sweden", 59.33, 18.07},
	{"TH", "Thailand", 13.76, 100.50}, {"TR", "Turkey", 39.93, 32.86}, {"TZ", "Tanzania", -6.17, 35.74}, {"UA", "Ukraine", 50.45, 30.52},
	{"US", "United States", 38.91, -77.04}, {"UY", "Uruguay", -34.90, -56.16}, {"UZ", "Uzbekistan", 41.30, 69.24}, {"VE", "Venezuela", 10.48, -66.90},
	{"VN", "Vietnam", 21.03, 105.85}, {"ZA", "South Africa", -25.75, 28.19}, {"ZM", "Zambia", -15.39, 28.32}, {"ES", "Spain", 40.42, -3.70},
}

func mixCase(rt *rapid.T, s string) string {
	b := []byte(s)
	for i := range b {
		if coin.Draw(rt, "lower") {
			b[i] = s[i] | 0x20
		}
	}
	return string(b)
}

func TestP27_Countries(t *testing.T) {
	names := map[string]string{}
	var codes []string
	random.EachCountry(func(code, name string) {
		if _, ok := names[code]; ok {
			t.Errorf("%s is visited twice", code)
		}
		names[code] = name
		codes = append(codes, code)
	})
	if len(codes) < 170 {
		t.Errorf("%d countries", len(codes))
	}
	sort.Strings(codes)
	check(t, 1500, func(rt *rapid.T, k *kase) {
		if chance(rt, 20, "capital") {
			c := oneOf(rt, "capitals", capitals...)
			k.note("capital of %s", c.name)
			code := mixCase(rt, c.code)
			b, err := random.BoundingBox(code)
			if err != nil || !(b.MinLat <= c.lat && c.lat <= b.MaxLat && b.MinLon <= c.lon && c.lon <= b.MaxLon) {
				rt.Fatalf("the capital of %s at %v %v is not in %v (%v)", c.name, c.lat, c.lon, b, err)
			}
			if n, err := random.CountryName(code); err != nil || n != c.name {
				rt.Fatalf("%s is %q (%v)", c.code, n, err)
			}
			k.nontrivial()
			return
		}
		var code string
		switch intn(rt, 0, 3, "code") {
		case 0:
			code = rapid.StringMatching(`[A-Za-z]{2}`).Draw(rt, "anycode")
		case 1:
			code = oneOf(rt, "nocode", "", "D", "DEU", "D1", "??", "de ", "DEDE", "ß", "é", "xx", "ZZ")
		default:
			code = mixCase(rt, oneOf(rt, "codes", codes...))
		}
		k.note("%q", code)
		upper := ""
		for _, c := range []byte(code) {
			if c >= 'a' && c <= 'z' {
				c -= 'a' - 'A'
			}
			upper += string(rune(c))
		}
		want, known := names[upper]
		name, err := random.CountryName(code)
		if (err == nil) != known || name != want {
			rt.Fatalf("CountryName(%q) = %q %v, want %q", code, name, err, want)
		}
		b, err := random.BoundingBox(code)
		p, perr := random.LatLonByCountry(code)
		if (err == nil) != known || (perr == nil) != known {
			rt.Fatalf("%q: %v, %v", code, err, perr)
		}
		if !known {
			if b != (geo.BBox{}) || p != (pt{}) {
				rt.Fatalf("%q: %v %v with an error", code, b, p)
			}
			k.class("unknown")
			k.nontrivial()
			return
		}
		if name == "" || b.MinLat >= b.MaxLat || b.MinLon >= b.MaxLon || b.MinLat < -90 || b.MaxLat > 90 || b.MinLon < -180 || b.MaxLon > 180 {
			rt.Fatalf("%s: %v", name, b)
		}
		if u := must(random.BoundingBox(upper)); u != b {
			rt.Fatalf("%q: %v, %q: %v", code, b, upper, u)
		}
		// The points fill the box: some are in each quarter.
		var lo, hi, west, east bool
		for i := 0; i < 60; i++ {
			p := must(random.LatLonByCountry(code))
			if !(p.Lat >= b.MinLat && p.Lat <= b.MaxLat && p.Lon >= b.MinLon && p.Lon <= b.MaxLon) {
				rt.Fatalf("%v is not in %s %v", p, name, b)
			}
			c := pt{Lat: (b.MinLat + b.MaxLat) / 2, Lon: (b.MinLon + b.MaxLon) / 2}
			lo, hi = lo || p.Lat < c.Lat, hi || p.Lat > c.Lat
			west, east = west || p.Lon < c.Lon, east || p.Lon > c.Lon
		}
		if !lo || !hi || !west || !east {
			rt.Fatalf("60 points of %s are all in one half", name)
		}
		k.class("known")
		k.nontrivial()
	})
}

func TestP27_Anywhere(t *testing.T) {
	check(t, 150, func(rt *rapid.T, k *kase) {
		var q [8]bool
		for i := 0; i < 400; i++ {
			p := random.LatLon()
			if !(math.Abs(p.Lat) <= 90 && math.Abs(p.Lon) <= 180) {
				rt.Fatalf("%v is not a coordinate", p)
			}
			k.note("%v", p)
			n := 0
			if p.Lat > 0 {
				n += 4
			}
			n += int(math.Min(3, (p.Lon+180)/90))
			q[n] = true
		}
		for i, ok := range q {
			if !ok {
				rt.Fatalf("400 points leave out eighth %d of the world", i)
			}
		}
		k.nontrivial()
	})
}

func TestP27_PolygonAndString(t *testing.T) {
	check(t, 800, func(rt *rapid.T, k *kase) {
		n := oneOf(rt, "points", 1, 2, 3, 16, 0, -1, -16, intn(rt, 1, 200, "n"))
		zoom := oneOf(rt, "zoom", 0.0, -1, 1, 1000, 5000, uni(rt, 0, 1000, "z"))
		k.note("%d points zoom %v", n, zoom)
		want := n
		if n <= 0 {
			want = 16
		}
		pts := random.Polygon(n, zoom)
		if len(pts) != want+1 || pts[0] != pts[len(pts)-1] {
			rt.Fatalf("Polygon(%d): %d points from %v to %v", n, len(pts), pts[0], pts[len(pts)-1])
		}
		z := math.Min(math.Max(zoom, 0), 1000)
		if z == 0 {
			z = 1
		}
		for _, p := range pts {
			if r := math.Hypot(p[0], p[1]); !(r >= 1e-4*z*(1-1e-9) && r < 0.017*z) {
				rt.Fatalf("Polygon(%d, %v) has a point at %v", n, zoom, r)
			}
		}
		l := oneOf(rt, "length", 0, -3, 1, 8, intn(rt, 0, 300, "l"))
		s := random.String(l)
		if len(s) != int(math.Max(float64(l), 0)) || !letters.MatchString(s) {
			rt.Fatalf("String(%d) = %q", l, s)
		}
		if l >= 20 && s == random.String(l) {
			rt.Fatalf("the same string twice: %q", s)
		}
		if l == 300 || l > 250 {
			for _, class := range []string{`[a-z]`, `[A-Z]`, `[0-9]`} {
				if !regexp.MustCompile(class).MatchString(s) {
					rt.Fatalf("no %s in %q", class, s)
				}
			}
		}
		k.nontrivial()
	})
}

// ---- P28 -----------------------------------------------------------------

func TestP28_Edits(t *testing.T) {
	check(t, 500, func(rt *rapid.T, k *kase) {
		io := smallItin()
		io.meta = true
		o := steadyOptions(uni(rt, 0.5, 3, "speed"))
		d, it := genDevice(rt, o, io, 1)
		type meta struct{ name, color string }
		routes, tracks := map[string]*meta{}, map[string]*meta{}
		for _, r := range it.routes {
			routes[r.ID()] = &meta{r.Name().String(), r.Color()}
			for j := 0; j < r.NumTracks(); j++ {
				tracks[r.TrackAt(j).ID()] = &meta{r.TrackAt(j).Name().String(), r.TrackAt(j).Color()}
			}
		}
		model, user, descr, color := d.Model(), d.UserID(), d.Descr(), d.Color()
		for i := intn(rt, 1, 20, "edits"); i > 0; i-- {
			r := oneOf(rt, "route", it.routes...)
			var tr *navigator.Track
			if chance(rt, 3, "burst") { // of edits, the last of which is the color seen
				for n := oneOf(rt, "bursts", 7, 15, 16, 63, 127, 255, 256, 1023, 65535); n > 0; n-- {
					noErr(r.ChangeColor(colorful.Color{R: float64(n%256) / 255, G: float64(n/256) / 255}))
				}
				routes[r.ID()].color = r.Color()
				if r.Color() != "#010000" {
					rt.Fatalf("route color %q", r.Color())
				}
				k.class("burst")
			}
			if r.NumTracks() > 0 {
				tr = r.TrackAt(intn(rt, 0, r.NumTracks()-1, "track"))
			}
			switch intn(rt, 0, 9, "edit") {
			case 0:
				v := genLength(rt, 3, 64)
				err := d.SetModel(v)
				if (err == nil) != validModel(v) {
					rt.Fatalf("SetModel of %d bytes: %v", len(v), err)
				}
				if err == nil {
					model = v
				} else {
					k.class("refused")
				}
			case 1:
				user = oneOf(rt, "user", "", "u1", "someone", "ünïcödé")
				noErr(d.SetUserID(user))
			case 2:
				descr = oneOf(rt, "descr", "", "d", "a description", "описание")
				d.SetDescription(descr)
			case 3:
				c := genAnyColor(rt)
				err := d.SetColor(c)
				if (err == nil) != c.IsValid() {
					rt.Fatalf("SetColor(%v): %v", c, err)
				}
				if err == nil {
					color = hexOf(c)
				} else {
					k.class("refused")
				}
			case 4:
				c := genAnyColor(rt)
				err := r.ChangeColor(c)
				if (err == nil) != c.IsValid() {
					rt.Fatalf("route.ChangeColor(%v): %v", c, err)
				}
				if err == nil {
					routes[r.ID()].color = hexOf(c)
				} else {
					k.class("refused")
				}
			case 5:
				v := genLength(rt, 3, 256)
				err := r.ChangeName(v)
				if (err == nil) != validName(v) {
					rt.Fatalf("route.ChangeName of %d bytes: %v", len(v), err)
				}
				if err == nil {
					routes[r.ID()].name = v
				} else {
					k.class("refused")
				}
			case 6:
				if tr != nil {
					v := oneOf(rt, "hex", append(append([]string{}, goodHex...), badHex...)...)
					good := false
					for _, g := range goodHex {
						good = good || g == v
					}
					err := tr.ChangeColor(v)
					if (err == nil) != good {
						rt.Fatalf("track.ChangeColor(%q): %v", v, err)
					}
					if err == nil {
						tracks[tr.ID()].color = wantHex(v)
					} else {
						k.class("refused")
					}
				}
			case 7:
				if tr != nil {
					v := genLength(rt, 3, 256)
					err := tr.ChangeName(v)
					if (err == nil) != validName(v) {
						rt.Fatalf("track.ChangeName of %d bytes: %v", len(v), err)
					}
					if err == nil {
						tracks[tr.ID()].name = v
					} else {
						k.class("refused")
					}
				}
			case 8:
				p := r.Props()
				if tr != nil && coin.Draw(rt, "trackprops") {
					p = tr.Props()
				}
				key := oneOf(rt, "key", "a", "b", "c")
				if coin.Draw(rt, "remove") {
					p.Remove(key)
				} else {
					p.Set(key, genJSONValue(rt, 1))
				}
			case 9:
				// A step or an update publishes the edits.
				step := coin.Draw(rt, "step")
				if step {
					if d.IsOffline() || !d.Next(0.001) {
						continue
					}
				} else {
					d.Update()
				}
				st := d.State()
				if len(st.Routes.GetRoutes()) != len(it.routes) {
					rt.Fatalf("%d routes published", len(st.Routes.GetRoutes()))
				}
				for j, got := range st.Routes.Routes {
					if step { // properties need an update
						got = proto.Clone(got).(*publishedRoute)
						r := it.routes[j]
						got.Props, got.PropsCount = propsJSON(r.Props()), int64(len(r.Props()))
						for n, g := range got.Tracks {
							tr := r.TrackAt(n)
							if tr != nil {
								g.Props, g.PropsCount = propsJSON(tr.Props()), int64(len(tr.Props()))
							}
						}
					}
					comparePublishedRoute(rt, "edits", got, it.routes[j])
				}
				k.class("published")
				k.nontrivial()
			}
			if d.Model() != model || d.UserID() != user || d.Descr() != descr || d.Color() != color {
				rt.Fatalf("device is %q %q %q %q, want %q %q %q %q", d.Model(), d.UserID(), d.Descr(), d.Color(), model, user, descr, color)
			}
			if st := d.State(); st.Model != model || st.UserId != user || st.Description != descr || st.Color != color {
				rt.Fatalf("published %q %q %q %q, want %q %q %q %q", st.Model, st.UserId, st.Description, st.Color, model, user, descr, color)
			}
			for i, r := range it.routes {
				if d.RouteAt(i) != r {
					rt.Fatalf("route %d is another", i)
				}
				if w := routes[r.ID()]; r.Name().String() != w.name || r.Color() != w.color {
					rt.Fatalf("route is %q %q, want %q %q", r.Name(), r.Color(), w.name, w.color)
				}
				for j := 0; j < r.NumTracks(); j++ {
					tr := r.TrackAt(j)
					if w := tracks[tr.ID()]; tr.Name().String() != w.name || tr.Color() != w.color {
						rt.Fatalf("track is %q %q, want %q %q", tr.Name(), tr.Color(), w.name, w.color)
					}
				}
			}
		}
		k.note("%s model %q user %q descr %q color %q", it, model, user, descr, color)
	})
}

// genAnyColor draws colours of which some are outside the unit cube.
func genAnyColor(rt *rapid.T) colorful.Color {
	c := genColor(rt)
	if chance(rt, 25, "badcolor") {
		v := oneOf(rt, "component", -0.1, 1.01, 5, -3)
		switch intn(rt, 0, 2, "which") {
		case 0:
			c.R = v
		case 1:
			c.G = v
		default:
			c.B = v
		}
	}
	return c
}

func hexOf(c colorful.Color) string {
	q := func(x float64) int { return int(x*255 + 0.5) }
	return fmt.Sprintf("#%02x%02x%02x", q(c.R), q(c.G), q(c.B))
}

// ---- properties ----------------------------------------------------------

func genPropValue(rt *rapid.T) any {
	switch intn(rt, 0, 9, "kind") {
	case 0:
		return intn(rt, -100, 100, "int")
	case 1:
		return int32(intn(rt, -100, 100, "int32"))
	case 2:
		return int64(intn(rt, -100, 100, "int64")) << 33
	case 3:
		return uni(rt, -10, 10, "float")
	case 4:
		return coin.Draw(rt, "bool")
	case 5:
		return rapid.StringN(0, 5, 20).Draw(rt, "string")
	case 6:
		return nil
	case 7:
		return []int{1, 2}
	case 8:
		return oneOf[any](rt, "zero", 0, "", false, 0.0, int64(0))
	default:
		return float32(1.5)
	}
}

func TestP28_Properties(t *testing.T) {
	keys := []string{"", "a", "b", "c", "d", "ключ"}
	check(t, 1500, func(rt *rapid.T, k *kase) {
		var p properties.Properties
		m := map[string]any{}
		switch intn(rt, 0, 2, "origin") {
		case 0:
			p = properties.Make()
		case 1:
			p = navigator.NewRoute().Props()
		default:
			p = routeOf(genPath(rt, defaultPath())).TrackAt(0).Props()
		}
		for i := intn(rt, 1, 20, "ops"); i > 0; i-- {
			key := oneOf(rt, "key", keys...)
			switch intn(rt, 0, 7, "op") {
			case 0, 1, 2, 3:
				v := genPropValue(rt)
				k.note("set %q %T %v", key, v, v)
				if q := p.Set(key, v); q == nil {
					rt.Fatalf("Set returns nothing")
				}
				m[key] = v
			case 4, 5:
				k.note("remove %q", key)
				p.Remove(key)
				delete(m, key)
			case 6:
				other := properties.Make()
				before := map[string]any{}
				for j := intn(rt, 0, 3, "n"); j > 0; j-- {
					key, v := oneOf(rt, "key", keys...), genPropValue(rt)
					other.Set(key, v)
					before[key] = v
					m[key] = v
				}
				k.note("merge %v", before)
				p.Merge(other)
				if d := diffMaps(map[string]any(other), before); d != "" {
					rt.Fatalf("merging changed the other collection: %s", d)
				}
				if len(before) > 1 {
					k.nontrivial()
				}
			case 7:
				if chance(rt, 30, "reset") {
					k.note("reset")
					p.Reset()
					m = map[string]any{}
				}
			}
			if d := diffMaps(map[string]any(p), m); d != "" {
				rt.Fatalf("properties differ: %s", d)
			}
			for _, key := range keys {
				v := m[key]
				ws, oks := v.(string)
				if s, ok := p.String(key); ok != oks || s != ws {
					rt.Fatalf("String(%q) of %T %v = %q %v", key, v, v, s, ok)
				}
				wb, okb := v.(bool)
				if b, ok := p.Bool(key); ok != okb || b != wb {
					rt.Fatalf("Bool(%q) of %T %v = %v %v", key, v, v, b, ok)
				}
				wf, okf := v.(float64)
				if f, ok := p.Float64(key); ok != okf || f != wf {
					rt.Fatalf("Float64(%q) of %T %v = %v %v", key, v, v, f, ok)
				}
				wi, oki := 0, false
				switch x := v.(type) {
				case int:
					wi, oki = x, true
				case int32:
					wi, oki = int(x), true
				case int64:
					wi, oki = int(x), true
				}
				if n, ok := p.Int(key); ok != oki || n != wi {
					rt.Fatalf("Int(%q) of %T %v = %v %v", key, v, v, n, ok)
				}
			}
		}
		if len(m) > 1 {
			k.nontrivial()
		}
	})
}

type publishedRoute = pb.Device_Routes_Route

func propsJSON(p properties.Properties) []byte {
	if len(p) == 0 {
		return nil
	}
	return must(json.Marshal(p))
}

// Shifted points are coordinates, exactly the sum where that is one; beyond a
// pole they are at the pole, beyond the antimeridian on the same meridian.
func TestP27_Normalize(t *testing.T) {
	check(t, 2000, func(rt *rapid.T, k *kase) {
		lat, lon := uni(rt, -90, 90, "lat"), uni(rt, -180, 180, "lon")
		if chance(rt, 30, "edge") {
			lat = oneOf(rt, "latedge", 90.0, -90, 89.99, 0, lat)
			lon = oneOf(rt, "lonedge", 180.0, -180, 179.99, -179.99, 0)
		}
		pts := make([][2]float64, intn(rt, 0, 20, "n"))
		size := oneOf(rt, "size", 0.001, 1, 90, 1000)
		for i := range pts {
			pts[i] = [2]float64{uni(rt, -size, size, "dlat"), uni(rt, -size, size, "dlon")}
		}
		old := append([][2]float64{}, pts...)
		got := geo.NormalizeCoordinates(lat, lon, pts)
		if len(got) != len(pts) || !reflect.DeepEqual(old, pts) {
			rt.Fatalf("%d points shifted to %d, or the points given changed", len(pts), len(got))
		}
		for i, p := range got {
			la, lo := old[i][0]+lat, old[i][1]+lon
			k.note("%v %v", la, lo)
			if !(math.Abs(p.Lat) <= 90 && math.Abs(p.Lon) <= 180) {
				rt.Fatalf("%v %v is shifted to %v", la, lo, p)
			}
			if math.Abs(p.Lat-la) > 1e-9 && !(la > 90 && p.Lat == 90) && !(la < -90 && p.Lat == -90) {
				rt.Fatalf("latitude %v is shifted to %v", la, p.Lat)
			}
			if math.Abs(lo) <= 180 {
				if math.Abs(p.Lon-lo) > 1e-9 {
					rt.Fatalf("longitude %v is shifted to %v", lo, p.Lon)
				}
				continue
			}
			k.nontrivial()
			if turns := (lo - p.Lon) / 360; math.Abs(turns-math.Round(turns)) > 1e-9 {
				rt.Fatalf("longitude %v is shifted to another meridian %v", lo, p.Lon)
			}
		}
	})
}

// Numbers drawn from a source stay in their range, reach all of it and are not
// repeated by every source.
func TestP27_Numbers(t *testing.T) {
	check(t, 200, func(rt *rapid.T, k *kase) {
		r := random.NewRandom()
		n := intn(rt, 1, 20, "n")
		seen := make([]bool, n)
		var quarter [4]bool
		exp := 0.0
		for i := 0; i < 1000; i++ {
			x := r.Intn(n)
			if x < 0 || x >= n {
				rt.Fatalf("Intn(%d) = %d", n, x)
			}
			seen[x] = true
			f, e := r.Float64(), r.ExpFloat64()
			if !(f >= 0 && f < 1) || !(e >= 0 && e <= math.MaxFloat64) {
				rt.Fatalf("Float64() = %v, ExpFloat64() = %v", f, e)
			}
			quarter[int(f*4)] = true
			exp += e / 1000
		}
		k.note("%d", n)
		k.nontrivial()
		for i := range seen {
			if !seen[i] {
				rt.Fatalf("1000 numbers below %d leave out %d", n, i)
			}
		}
		if quarter != [4]bool{true, true, true, true} || exp < 0.6 || exp > 1.5 {
			rt.Fatalf("1000 numbers leave out a quarter: %v, or their mean is %v", quarter, exp)
		}
	})
}
