package checks

import (
	"fmt"
	"math"
	"testing"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// genDevice makes a device with an itinerary and sensors.
func genDevice(rt *rapid.T, o *gpsgen.DeviceOptions, io itinOpts, maxSensors int) (*gpsgen.Device, itinerary) {
	d := must(gpsgen.NewDevice(o))
	it := genItinerary(rt, io)
	if len(it.routes) > 0 {
		noErr(d.AddRoute(it.routes...))
	}
	if maxSensors > 1 && chance(rt, 2, "manysensors") {
		maxSensors = 40
	}
	for n := intn(rt, 0, maxSensors, "nsensors"); n > 0; n-- {
		d.AddSensor(genSensor(rt))
	}
	return d, it
}

// act does one random thing to a device and describes it.
func act(rt *rapid.T, d *gpsgen.Device) string {
	switch intn(rt, 0, 19, "act") {
	case 0:
		x := uni(rt, 0, 1.1, "frac") * d.Distance()
		return fmt.Sprintf("DestinationTo(%.6g)=%v", x, d.DestinationTo(x))
	case 1:
		if n := d.NumRoutes(); n > 0 {
			ri := intn(rt, 0, n-1, "ri")
			if r := d.RouteAt(ri); r.NumTracks() > 0 {
				ti := intn(rt, 0, r.NumTracks()-1, "ti")
				si := intn(rt, 0, r.TrackAt(ti).NumSegments()-1, "si")
				return fmt.Sprintf("MoveToSegment(%d,%d,%d)=%v", ri, ti, si, d.MoveToSegment(ri, ti, si))
			}
		}
		return ""
	case 2:
		return fmt.Sprintf("ToNextRoute=%v", d.ToNextRoute())
	case 3:
		d.ToOffline()
		return "ToOffline"
	case 4:
		if n := d.NumRoutes(); n > 0 {
			decorateRoute(rt, d.RouteAt(intn(rt, 0, n-1, "ri")))
			return "decorate"
		}
		return ""
	case 5:
		switch intn(rt, 0, 4, "set") {
		case 0:
			noErr(d.SetModel("model " + fmt.Sprint(intn(rt, 0, 99, "m"))))
		case 1:
			noErr(d.SetUserID("user " + fmt.Sprint(intn(rt, 0, 99, "m"))))
		case 2:
			d.SetDescription("описание " + fmt.Sprint(intn(rt, 0, 99, "m")))
		case 3:
			noErr(d.SetColor(genColor(rt)))
		default:
			if n := d.NumSensors(); n > 0 && coin.Draw(rt, "rm") {
				d.RemoveSensor(d.SensorAt(intn(rt, 0, n-1, "si")).ID())
			} else if n < 4 {
				d.AddSensor(genSensor(rt))
			}
		}
		return "set"
	case 6:
		if n := d.NumRoutes(); n > 0 && chance(rt, 40, "rmtrack") {
			r := d.RouteAt(intn(rt, 0, n-1, "ri"))
			if m := r.NumTracks(); m > 1 {
				d.RemoveTrack(r.ID(), r.TrackAt(intn(rt, 0, m-1, "ti")).ID())
				return "RemoveTrack"
			}
		}
		return ""
	case 7, 8: // to the end of the track
		if t := d.CurrentTrack(); t != nil && !d.IsOffline() {
			dt := t.Distance()/math.Max(0.01, d.State().Speed) + 1
			return fmt.Sprintf("Next(%.5g)=%v", dt, d.Next(dt))
		}
	case 9:
		for i := 0; d.IsOffline() && i < 80; i++ {
			d.Next(1)
		}
		return "sit out"
	case 10, 11, 12, 13: // some way along the track
		if t := d.CurrentTrack(); t != nil {
			dt := uni(rt, 0, 0.3, "fr") * t.Distance() / math.Max(0.01, d.State().Speed)
			return fmt.Sprintf("Next(%.5g)=%v", dt, d.Next(dt))
		}
	}
	dt := genTick(rt)
	return fmt.Sprintf("Next(%.5g)=%v", dt, d.Next(dt))
}

// The speed of a device with a constant speed is not published before its
// first step but is after decoding; everything that follows from it is exempt.
func copySpeed(to, from *pb.Device) {
	to.Speed, to.TimeEstimate = from.Speed, from.TimeEstimate
}

func metaItin() itinOpts {
	io := itinOpts{minRoutes: 0, maxRoutes: 3, minTracks: 0, maxTracks: 3, path: defaultPath(), meta: true}
	return io
}

// settings compares the settings in a snapshot with the options of the device.
func settings(s *pb.Snapshot, o *gpsgen.DeviceOptions) string {
	for _, x := range []struct {
		what      string
		got, want any
	}{
		{"minimum speed", s.Speed.GetMin(), o.Speed.Min},
		{"maximum speed", s.Speed.GetMax(), o.Speed.Max},
		{"minimum charge", s.Battery.GetMin(), o.Battery.Min},
		{"maximum charge", s.Battery.GetMax(), o.Battery.Max},
		{"charge time", s.Battery.GetChargeTime(), int64(o.Battery.ChargeTime)},
		{"minimum elevation", s.Navigator.GetElevation().GetMin(), o.Navigator.Elevation.Min},
		{"maximum elevation", s.Navigator.GetElevation().GetMax(), o.Navigator.Elevation.Max},
		{"skip offline", s.Navigator.GetSkipOffline(), o.Navigator.SkipOffline},
	} {
		if x.got != x.want {
			return fmt.Sprintf("%s is %v, want %v", x.what, x.got, x.want)
		}
	}
	if o.Navigator.SkipOffline {
		return ""
	}
	if a, b := s.Navigator.GetOfflineMin(), s.Navigator.GetOfflineMax(); a != int64(o.Navigator.Offline.Min) || b != int64(o.Navigator.Offline.Max) {
		return fmt.Sprintf("offline %d..%d, want %d..%d", a, b, o.Navigator.Offline.Min, o.Navigator.Offline.Max)
	}
	return ""
}

func parseSnapshot(data []byte) *pb.Snapshot {
	s := new(pb.Snapshot)
	noErr(proto.Unmarshal(data, s))
	return s
}

// ---- P01 -----------------------------------------------------------------

func TestP01_RoundTrip(t *testing.T) {
	check(t, 1000, func(rt *rapid.T, k *kase) {
		o := genOptions(rt)
		d, it := genDevice(rt, o, metaItin(), 3)
		k.note("%v", it)
		stepped := false
		n := length(rt, 0, 25, "acts")
		for i := 0; i < n; i++ {
			what := act(rt, d)
			k.note("%s", what)
			stepped = stepped || (len(what) > 4 && what[:4] == "Next")
		}
		d.Update()
		before := observe(d)
		data, err := gpsgen.EncodeTracker(d)
		if err != nil {
			rt.Fatalf("EncodeTracker: %v", err)
		}
		if diff := before.diff(observe(d)); diff != "" {
			rt.Fatalf("encoding changed the device: %s", diff)
		}
		c, err := gpsgen.DecodeTracker(data)
		if err != nil {
			rt.Fatalf("DecodeTracker: %v", err)
		}
		got := observe(c)
		if got.state.Speed != before.state.Speed {
			if stepped && d.NumRoutes() > 0 && before.state.Speed != 0 || o.Speed.Min != o.Speed.Max {
				rt.Fatalf("decoded speed %v, want %v", got.state.Speed, before.state.Speed)
			}
			copySpeed(got.state, before.state)
		}
		if diff := before.diff(got, "status", "finish"); diff != "" {
			rt.Fatalf("the decoded device differs (original first): %s", diff)
		}
		if c.Status() != gpsgen.Stopped {
			rt.Fatalf("decoded device has status %v", c.Status())
		}
		s := parseSnapshot(data)
		if diff := settings(s, o); diff != "" {
			rt.Fatalf("encoded settings: %s", diff)
		}
		for i := 0; i < d.NumSensors(); i++ {
			if a, b := d.SensorAt(i).Snapshot(), c.SensorAt(i).Snapshot(); !proto.Equal(a, b) {
				rt.Fatalf("sensor %d: %v and %v", i, a, b)
			}
		}
		again, err := gpsgen.EncodeTracker(c)
		if err != nil {
			rt.Fatalf("encoding the decoded device: %v", err)
		}
		if s2 := parseSnapshot(again); !proto.Equal(s, s2) {
			rt.Fatalf("encoding the decoded device again describes another tracker:\n%v\n%v", s, s2)
		}
		if diff := settings(c.Snapshot(), o); diff != "" {
			rt.Fatalf("decoded settings: %s", diff)
		}
		k.nontrivial()
		if before.si+before.ti+before.ri > 0 {
			k.class("past the first segment")
		}
		if d.IsOffline() {
			k.class("offline")
		}
		if before.m["nsensors"].(int) > 0 {
			k.class("sensors")
		}
		if d.NumRoutes() == 0 {
			k.class("no routes")
		}

		// a device that already holds other data
		if chance(rt, 50, "reuse") {
			u, _ := genDevice(rt, genOptions(rt), metaItin(), 3)
			for i := length(rt, 0, 8, "usedacts"); i > 0; i-- {
				act(rt, u)
			}
			if chance(rt, 40, "busy") { // a step the used device could not make
				u.EachRoute(func(int, *gpsgen.Route) bool { u.Next(uni(rt, 1, 500, "busydt")); return coin.Draw(rt, "on") })
			}
			if err := u.UnmarshalBinary(data); err != nil {
				rt.Fatalf("UnmarshalBinary into a used device: %v", err)
			}
			u.Update()
			if diff := observe(c).diff(observe(u)); diff != "" {
				rt.Fatalf("a used device keeps old data (fresh one first): %s", diff)
			}
			if a, b := c.Snapshot(), u.Snapshot(); !proto.Equal(a, b) {
				rt.Fatalf("a used device keeps old data: %v and %v", a, b)
			}
			// and it moves on like the fresh one
			dt := genTick(rt)
			val := c.Snapshot().Battery.Val
			cf, uf := c.Next(dt), u.Next(dt)
			drawn := c.Snapshot().Battery.Val < val+dt/2 // battery exhausted: offline time drawn
			if cf != uf && !drawn {
				rt.Fatalf("the next step of the fresh device returns %v, of the used device %v", cf, uf)
			}
			if cf && !drawn {
				if diff := observe(c).diff(observe(u)); diff != "" {
					rt.Fatalf("after the next step a used device differs (fresh one first): %s", diff)
				}
			}
			k.class("decoded into a used device")
		}
	})
}

// ---- P02 -----------------------------------------------------------------

func TestP02_Continues(t *testing.T) {
	check(t, 1000, func(rt *rapid.T, k *kase) {
		var o *gpsgen.DeviceOptions
		forever := chance(rt, 50, "forever")
		fixed := true
		if forever {
			o = steadyOptions(genSpeed(rt))
			o.Battery.ChargeTime = oneOf(rt, "charge", dsec(100), dsec(3000), dsec(1e6))
			o.Battery.Min = oneOf(rt, "bmin", 0.0, 30, 95)
			o.Navigator.SkipOffline = chance(rt, 30, "skip")
			o.Navigator.Offline.Min = intn(rt, 1, 6, "omin")
			o.Navigator.Offline.Max = o.Navigator.Offline.Min + intn(rt, 0, 1, "ospan")
		} else {
			o = genOptions(rt)
			fixed = o.Navigator.SkipOffline || o.Navigator.Offline.Max-o.Navigator.Offline.Min <= 1
		}
		io := metaItin()
		io.minRoutes = 1
		io.meta = chance(rt, 20, "meta")
		d, it := genDevice(rt, o, io, 0)
		k.note("%v forever %v", it, forever)
		for n := intn(rt, 0, 3, "nsensors"); n > 0; n-- {
			if forever {
				v := uni(rt, -5, 5, "const")
				d.AddSensor(must(types.NewSensor("c", v, v, genAmplitude(rt), oneOf(rt, "mode", modes...))))
			} else {
				d.AddSensor(genSensor(rt))
			}
		}
		for i := length(rt, 0, 20, "acts"); i > 0; i-- {
			k.note("%s", act(rt, d))
		}
		for _, s := range d.Sensors() {
			forever = forever && s.Min() == s.Max()
		}
		data := must(gpsgen.EncodeTracker(d))
		c := must(gpsgen.DecodeTracker(data))
		if forever {
			k.class("constant")
		}
		stepped := false
		n := length(rt, 1, 30, "ops")
		for i := 0; i < n; i++ {
			what := ""
			var a, b bool
			event := false // new randomness was drawn
			switch intn(rt, 0, 9, "op") {
			case 0:
				x := uni(rt, 0, 1.1, "frac") * d.Distance()
				what = fmt.Sprintf("DestinationTo(%v)", x)
				a, b = d.DestinationTo(x), c.DestinationTo(x)
			case 1:
				ri := intn(rt, 0, d.NumRoutes()-1, "ri")
				r := d.RouteAt(ri)
				if r.NumTracks() == 0 {
					continue
				}
				ti := intn(rt, 0, r.NumTracks()-1, "ti")
				si := intn(rt, 0, r.TrackAt(ti).NumSegments()-1, "si")
				what = fmt.Sprintf("MoveToSegment(%d,%d,%d)", ri, ti, si)
				a, b = d.MoveToSegment(ri, ti, si), c.MoveToSegment(ri, ti, si)
			default:
				dt := genTick(rt)
				if tr := d.CurrentTrack(); tr != nil {
					frac := oneOf(rt, "span", 0.1, 0.1, 0.5, 1.2)
					dt = uni(rt, 0, frac, "fr") * tr.Distance() / math.Max(0.01, d.State().Speed)
				}
				if d.IsOffline() {
					dt = uni(rt, 0.1, 5, "offdt")
				}
				what = fmt.Sprintf("Next(%v)", dt)
				stepped = true
				online := !d.IsOffline()
				val := d.Snapshot().Battery.Val
				a, b = d.Next(dt), c.Next(dt)
				left := online && !a
				dead := d.Snapshot().Battery.Val < val+dt/2
				lap := left && d.Duration() == 0
				if left && !fixed || lap && !forever {
					event = true
				}
				if dead && !fixed {
					// the offline time was drawn and may be over already
					k.class("ended at new randomness")
					return
				}
				if left {
					k.class("left a track")
				}
				if lap {
					k.class("finished a lap")
				}
				if dead {
					k.class("battery")
				}
			}
			k.note("%s", what)
			if a != b {
				rt.Fatalf("%s on the original returns %v, on the restored device %v", what, a, b)
			}
			ignore := []string{"status", "finish"}
			if event {
				// the offline time (and with it whether the device is offline) was drawn
				ignore = append(ignore, "offline", "state")
			} else if coin.Draw(rt, "update") {
				d.Update()
				c.Update()
			} else if !a || what[0] != 'N' {
				// the published state is that of the last successful step or update
				ignore = append(ignore, "state")
			}
			x, y := observe(d), observe(c)
			if !stepped && o.Speed.Min == o.Speed.Max {
				copySpeed(y.state, x.state)
			}
			if diff := x.diff(y, ignore...); diff != "" {
				rt.Fatalf("after %s the restored device differs (original first): %s\n%s", what, diff, k.notes.String())
			}
			if event {
				k.class("ended at new randomness")
				break
			}
			if a {
				k.nontrivial()
			}
		}
	})
}

// ---- P03 -----------------------------------------------------------------

func TestP03_Routes(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		io := metaItin()
		io.minRoutes, io.maxRoutes = 1, 4
		io.path.maxLat = oneOf(rt, "maxlat", 80, 90.0)
		it := genItinerary(rt, io)
		k.note("%v", it)
		var want []map[string]any
		for _, r := range it.routes {
			want = append(want, observeRoute(r))
		}
		data, err := gpsgen.EncodeRoutes(it.routes)
		if err != nil {
			rt.Fatalf("EncodeRoutes: %v", err)
		}
		if len(data) == 0 {
			rt.Fatalf("EncodeRoutes returned nothing")
		}
		for i, r := range it.routes {
			if diff := diffMaps(want[i], observeRoute(r)); diff != "" {
				rt.Fatalf("encoding changed route %d: %s", i, diff)
			}
			// the expectation is the generated input, too
			if r.NumTracks() != len(it.points[i]) {
				rt.Fatalf("route %d has %d tracks, %d added", i, r.NumTracks(), len(it.points[i]))
			}
		}
		got, err := gpsgen.DecodeRoutes(data)
		if err != nil {
			rt.Fatalf("DecodeRoutes: %v", err)
		}
		if len(got) != len(want) {
			rt.Fatalf("decoded %d routes of %d", len(got), len(want))
		}
		for i, r := range got {
			if diff := diffMaps(want[i], observeRoute(r)); diff != "" {
				rt.Fatalf("route %d (original first): %s", i, diff)
			}
			comparePoints(rt, r, it.points[i], 0)
			if r.NumTracks() > 0 {
				k.nontrivial()
			}
			// a decoded track serves navigation like the original one
			a, b := must(navigator.New(navigator.SkipOfflineMode())), must(navigator.New(navigator.SkipOfflineMode()))
			noErr(a.AddRoute(it.routes[i]))
			noErr(b.AddRoute(r))
			x := uni(rt, 0, 1, "at") * a.Distance()
			if ja, jb := a.DestinationTo(x), b.DestinationTo(x); ja != jb || a.Location() != b.Location() {
				rt.Fatalf("route %d: %v m along the original is %v, along the decoded one %v", i, x, a.Location(), b.Location())
			}
			step := uni(rt, 0, 1, "step") * a.Distance()
			if na, nb := a.NextLocation(1, step), b.NextLocation(1, step); na != nb || a.Location() != b.Location() {
				rt.Fatalf("route %d: a step of %v m on the original leads to %v, on the decoded one to %v", i, step, a.Location(), b.Location())
			}
		}
	})
}

// comparePoints compares the geometry of a route with the points its tracks
// were built from.
func comparePoints(rt *rapid.T, r *navigator.Route, pts [][]pt, tol float64) {
	if r.NumTracks() != len(pts) {
		rt.Fatalf("route %s has %d tracks, want %d", r.ID(), r.NumTracks(), len(pts))
	}
	for j := range pts {
		tr := r.TrackAt(j)
		if tr.NumSegments() != len(pts[j])-1 {
			rt.Fatalf("track %d has %d segments, want %d", j, tr.NumSegments(), len(pts[j])-1)
		}
		for i := 0; i < tr.NumSegments(); i++ {
			s := tr.SegmentAt(i)
			for _, x := range [][2]pt{{s.PointA(), pts[j][i]}, {s.PointB(), pts[j][i+1]}} {
				if !near(x[0].Lat, x[1].Lat, tol) || !near(x[0].Lon, x[1].Lon, tol) {
					rt.Fatalf("segment %d of track %d has the end point %.17g %.17g, want %.17g %.17g", i, j, x[0].Lat, x[0].Lon, x[1].Lat, x[1].Lon)
				}
			}
		}
	}
}

func TestP03_Empty(t *testing.T) {
	check(t, 1, func(rt *rapid.T, k *kase) {
		k.note("no routes, no data")
		if _, err := gpsgen.EncodeRoutes(nil); err == nil {
			rt.Fatalf("EncodeRoutes(nil) is no error")
		}
		if _, err := gpsgen.EncodeRoutes([]*navigator.Route{}); err == nil {
			rt.Fatalf("EncodeRoutes of no routes is no error")
		}
		if _, err := gpsgen.DecodeRoutes(nil); err == nil {
			rt.Fatalf("DecodeRoutes(nil) is no error")
		}
		if _, err := gpsgen.DecodeRoutes([]byte{}); err == nil {
			rt.Fatalf("DecodeRoutes of no data is no error")
		}
	})
}

// ---- P04 -----------------------------------------------------------------

func TestP04_Sensors(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		n := intn(rt, 1, 6, "n")
		list := make([]*types.Sensor, n)
		mode := make([]types.SensorMode, n)
		amp := make([]int, n)
		for i := range list {
			min := uni(rt, -1000, 1000, "smin")
			max := min + oneOf(rt, "span", 0, 0.001, 1, 500, 1e6)*uni(rt, 0, 1, "sspan")
			amp[i] = genAmplitude(rt)
			mode[i] = oneOf(rt, "mode", modes...)
			name := oneOf(rt, "sname", "temp", "данные", "a b", "x<y>")
			if chance(rt, 30, "restored") {
				list[i] = must(types.RestoreSensor(fmt.Sprintf("00000000-0000-4000-8000-%012d", intn(rt, 0, 65000, "sid")*10+i), name, min, max, amp[i], mode[i]))
			} else {
				list[i] = must(types.NewSensor(name, min, max, amp[i], mode[i]))
			}
			for j := intn(rt, 0, 3, "used"); j > 0; j-- {
				list[i].Next(uni(rt, 0, 1, "t"))
			}
			if chance(rt, 20, "shuffled") {
				list[i].Shuffle()
			}
		}
		type view struct {
			id, name       string
			min, max, x, y float64
		}
		look := func(s *types.Sensor) view {
			return view{s.ID(), s.Name(), s.Min(), s.Max(), s.ValueX(), s.ValueY()}
		}
		want := make([]view, n)
		for i, s := range list {
			want[i] = look(s)
		}
		k.note("%v", want)
		k.nontrivial()
		data, err := gpsgen.EncodeSensors(list)
		if err != nil {
			rt.Fatalf("EncodeSensors: %v", err)
		}
		for i, s := range list {
			if look(s) != want[i] {
				rt.Fatalf("encoding changed sensor %d: %v, was %v", i, look(s), want[i])
			}
		}
		got, err := gpsgen.DecodeSensors(data)
		if err != nil {
			rt.Fatalf("DecodeSensors: %v", err)
		}
		if len(got) != n {
			rt.Fatalf("decoded %d sensors of %d", len(got), n)
		}
		for i, s := range got {
			if look(s) != want[i] {
				rt.Fatalf("sensor %d is %v, was %v", i, look(s), want[i])
			}
		}
		for j := intn(rt, 1, 8, "times"); j > 0; j-- {
			x := oneOf(rt, "t", uni(rt, 0, 1, "tu"), uni(rt, 0, 1, "tv"), 0, 1)
			for i := range list {
				list[i].Next(x)
				got[i].Next(x)
				if look(list[i]) != look(got[i]) {
					rt.Fatalf("sensor %d at %v gives %v %v, the original %v %v", i, x, got[i].ValueX(), got[i].ValueY(), list[i].ValueX(), list[i].ValueY())
				}
			}
		}
		// shuffled, a decoded sensor has new values but the same range and mode
		i := intn(rt, 0, n-1, "which")
		s := got[i]
		at := func(x float64) float64 { s.Next(x); return s.ValueY() }
		old := make([]float64, 5)
		for j := range old {
			old[j] = at(float64(j) / 4)
		}
		changed := false
		for rounds := 0; rounds < 3; rounds++ {
			s.Shuffle()
			for j := range old {
				y := at(float64(j) / 4)
				changed = changed || y != old[j]
				if msg := inRange(y, want[i].min, want[i].max, amp[i]); msg != "" {
					rt.Fatalf("decoded and shuffled sensor %d: %s", i, msg)
				}
			}
			tol := rangeTol(want[i].min, want[i].max, amp[i])
			if mode[i]&types.WithSensorStartMode != 0 && !near(at(0), want[i].min, tol) {
				rt.Fatalf("decoded sensor %d in start mode starts at %v after shuffling, minimum %v", i, at(0), want[i].min)
			}
			if mode[i]&types.WithSensorEndMode != 0 && !near(at(1), want[i].min, tol) {
				rt.Fatalf("decoded sensor %d in end mode ends at %v after shuffling, minimum %v", i, at(1), want[i].min)
			}
		}
		if want[i].max-want[i].min > 1e-3 && !changed {
			rt.Fatalf("shuffling a decoded sensor changed nothing")
		}
	})
}

// rangeTol is the rounding allowed on values of a curve.
func rangeTol(min, max float64, amp int) float64 {
	return 1e-9 * (1 + math.Abs(min) + math.Abs(max)) * float64(1+amp/64)
}

func inRange(y, min, max float64, amp int) string {
	if min > max {
		min, max = max, min
	}
	tol := rangeTol(min, max, amp)
	if !finite(y) || y < min-tol || y > max+tol {
		return fmt.Sprintf("value %v is not within %v..%v", y, min, max)
	}
	return ""
}

func TestP04_Empty(t *testing.T) {
	check(t, 1, func(rt *rapid.T, k *kase) {
		k.note("no sensors, no data")
		if _, err := gpsgen.EncodeSensors(nil); err == nil {
			rt.Fatalf("EncodeSensors(nil) is no error")
		}
		if _, err := gpsgen.EncodeSensors([]*types.Sensor{}); err == nil {
			rt.Fatalf("EncodeSensors of no sensors is no error")
		}
		if _, err := gpsgen.DecodeSensors(nil); err == nil {
			rt.Fatalf("DecodeSensors(nil) is no error")
		}
		if _, err := gpsgen.DecodeSensors([]byte{}); err == nil {
			rt.Fatalf("DecodeSensors of no data is no error")
		}
	})
}

// Restoring a snapshot into a route, track, sensor, battery, speed or navigator
// that held something else gives the same as restoring it into a new one.
func TestP01_UsedParts(t *testing.T) {
	check(t, 600, func(rt *rapid.T, k *kase) {
		io := metaItin()
		io.minRoutes, io.maxRoutes = 0, 3
		io.path.maxPts = 5
		d, _ := genDevice(rt, genOptions(rt), io, 3)
		u, _ := genDevice(rt, genOptions(rt), io, 3)
		for _, x := range []*gpsgen.Device{d, u} {
			for n := length(rt, 0, 8, "nacts"); n > 0; n-- {
				act(rt, x)
			}
		}
		snap, used := d.Snapshot(), u.Snapshot()
		same := func(what string, want, fresh, got proto.Message) {
			if !proto.Equal(want, fresh) {
				rt.Fatalf("%s: restored to %v, want %v", what, fresh, want)
			}
			if !proto.Equal(want, got) {
				rt.Fatalf("%s: restored into a used one it is %v, want %v", what, got, want)
			}
		}
		for i, r := range snap.Navigator.Routes {
			a, b := new(navigator.Route), navigator.NewRoute()
			if len(used.Navigator.Routes) > 0 {
				noErr(b.RouteFromSnapshot(used.Navigator.Routes[i%len(used.Navigator.Routes)]))
				k.nontrivial()
			}
			noErr(a.RouteFromSnapshot(r))
			noErr(b.RouteFromSnapshot(r))
			same("route", r, a.Snapshot(), b.Snapshot())
			if diff := diffMaps(observeRoute(a), observeRoute(b)); diff != "" {
				rt.Fatalf("a route restored into a used one (fresh one first): %s", diff)
			}
			for j, tr := range r.Tracks {
				x, y := new(navigator.Track), must(navigator.NewTrack([]pt{{Lat: 1, Lon: 2}, {Lat: 3, Lon: 4}, {Lat: 1, Lon: 2}}))
				if o := u.RouteAt(0); o != nil && o.NumTracks() > 0 {
					navigator.TrackFromSnapshot(y, o.TrackAt(j%o.NumTracks()).Snapshot())
				}
				navigator.TrackFromSnapshot(x, tr)
				navigator.TrackFromSnapshot(y, tr)
				same("track", tr, x.Snapshot(), y.Snapshot())
				for l, sg := range tr.Segmenets {
					if got := navigator.SegmentFromSnapshot(sg); !proto.Equal(got.Snapshot(), sg) || got != x.SegmentAt(l) {
						rt.Fatalf("segment: restored to %v, want %v", got.Snapshot(), sg)
					}
				}
			}
		}
		for i, s := range snap.Sensors {
			a, b := new(types.Sensor), genSensor(rt)
			if i < len(used.Sensors) {
				b.FromSnapshot(used.Sensors[i])
			}
			a.FromSnapshot(s)
			b.FromSnapshot(s)
			same("sensor", s, a.Snapshot(), b.Snapshot())
		}
		ba, bb := new(types.Battery), new(types.Battery)
		bb.FromSnapshot(used.Battery)
		ba.FromSnapshot(snap.Battery)
		bb.FromSnapshot(snap.Battery)
		same("battery", snap.Battery, ba.Snapshot(), bb.Snapshot())
		sa, sb := new(types.Speed), new(types.Speed)
		sb.FromSnapshot(used.Speed)
		sa.FromSnapshot(snap.Speed)
		sb.FromSnapshot(snap.Speed)
		same("speed", snap.Speed, sa.Snapshot(), sb.Snapshot())

		na, nb := must(navigator.New()), must(navigator.New(navigator.WithOffline(2, 5)))
		if chance(rt, 70, "used") {
			nb.FromSnapshot(used.Navigator)
		}
		for n := intn(rt, 0, 6, "nsteps"); n > 0; n-- { // often leaves a track or finishes a lap
			nb.NextLocation(1, uni(rt, 0, 1.5, "frac")*(1+nb.Distance()))
			k.class("used navigator moved")
		}
		na.FromSnapshot(snap.Navigator)
		nb.FromSnapshot(snap.Navigator)
		same("navigator", snap.Navigator, na.Snapshot(), nb.Snapshot())
		for n := intn(rt, 0, 4, "more"); n > 0; n-- {
			if fa, fb := na.IsFinish(), nb.IsFinish(); fa != fb {
				rt.Fatalf("a restored navigator is finished %v, restored into a used one %v", fa, fb)
			}
			x := uni(rt, 0, 0.6, "move") * (1 + na.Distance())
			if ma, mb := na.NextLocation(1, x), nb.NextLocation(1, x); ma != mb || na.Location() != nb.Location() || na.CurrentDistance() != nb.CurrentDistance() {
				rt.Fatalf("a step of %v m takes a restored navigator to %v (%v), one restored into a used one to %v (%v)", x, na.Location(), ma, nb.Location(), mb)
			}
			if na.IsOffline() || nb.IsOffline() {
				break
			}
		}
	})
}
