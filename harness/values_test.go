package checks

import (
	"fmt"
	"math"
	"testing"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/curve"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"pgregory.net/rapid"
)

// ---- P17: ranges ---------------------------------------------------------

type sample struct{ t, y float64 }

// smooth tells whether the samples can come from a curve with n control
// points within min..max: it cannot change faster than this.
func smooth(s []sample, n int, min, max float64) string {
	if min > max {
		min, max = max, min
	}
	for i := range s {
		for j := 0; j < i; j++ {
			d, limit := math.Abs(s[i].y-s[j].y), float64(n-1)*(max-min)*math.Abs(s[i].t-s[j].t)+2*rangeTol(min, max, n)
			if d > limit {
				return fmt.Sprintf("it changes by %v from %v at %v to %v at %v", d, s[j].y, s[j].t, s[i].y, s[i].t)
			}
		}
	}
	return ""
}

func genProgress(rt *rapid.T) float64 {
	return oneOf(rt, "t", 0, 1, uni(rt, 0, 1, "tu"), uni(rt, 0, 0.01, "tlo"), uni(rt, 0.99, 1, "thi"))
}

func TestP17_Sensor(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		min := oneOf(rt, "min", uni(rt, -1000, 1000, "m"), 0, -5, 1e6)
		max := min + oneOf(rt, "span", uni(rt, 0, 500, "s"), 0, 1e-3, 1e5)
		n := genAmplitude(rt)
		mode := oneOf(rt, "mode", modes...)
		s := must(gpsgen.NewSensor("s", min, max, n, mode))
		if coin.Draw(rt, "restored") {
			s = must(types.RestoreSensor(s.ID(), "s", min, max, n, mode))
		}
		if s.Min() != min || s.Max() != max {
			rt.Fatalf("range %v..%v became %v..%v", min, max, s.Min(), s.Max())
		}
		k.note("%v..%v amplitude %d mode %x", min, max, n, mode)
		for round := intn(rt, 1, 4, "rounds"); round > 0; round-- {
			var hist []sample
			first := map[float64][2]float64{}
			for m := intn(rt, 2, 10, "nt"); m > 0; m-- {
				x := genProgress(rt)
				s.Next(x)
				y := s.ValueY()
				if msg := inRange(y, min, max, n); msg != "" {
					rt.Fatalf("at %v: %s", x, msg)
				}
				if want := x * float64(n-1); !near(s.ValueX(), want, 1e-9*float64(n)) {
					rt.Fatalf("horizontal value at %v is %v, want %v", x, s.ValueX(), want)
				}
				if min == max && !near(y, min, rangeTol(min, max, n)) {
					rt.Fatalf("constant range gives %v", y)
				}
				if mode&types.WithSensorStartMode != 0 && x == 0 && !near(y, min, rangeTol(min, max, n)) {
					rt.Fatalf("start mode begins at %v, want %v", y, min)
				}
				if mode&types.WithSensorEndMode != 0 && x == 1 && !near(y, min, rangeTol(min, max, n)) {
					rt.Fatalf("end mode ends at %v, want %v", y, min)
				}
				v := [2]float64{s.ValueX(), y}
				if w, ok := first[x]; ok && v != w {
					rt.Fatalf("values at %v are %v, were %v", x, v, w)
				}
				first[x] = v
				hist = append(hist, sample{x, y})
			}
			if msg := smooth(hist, n, min, max); msg != "" {
				rt.Fatalf("not smooth: %s", msg)
			}
			s.Shuffle()
		}
		k.nontrivial()
		if n > 64 {
			k.class("many control points")
		}
	})
}

// Where the mode does not fix it, a curve starts and ends anywhere in its range,
// differently for every sensor and after every reshuffling. Each of the 80 values
// is below the middle of the range with a chance of one half.
func TestP17_Spread(t *testing.T) {
	const draws = 80
	check(t, 40, func(rt *rapid.T, k *kase) {
		min := uni(rt, -1000, 1000, "min")
		max := min + oneOf(rt, "span", uni(rt, 0.01, 500, "s"), uni(rt, 1e-4, 0.01, "narrow"))
		n := genAmplitude(rt)
		mode := oneOf(rt, "mode", modes...)
		what := oneOf(rt, "what", "sensors", "restored sensors", "shuffled sensor", "shuffled copy", "curves", "shuffled curve", "speeds", "shuffled speed")
		k.note("%s, %v..%v amplitude %d mode %x", what, min, max, n, mode)
		var at func(x float64) float64 // of the present generator
		var next func()
		switch what {
		case "sensors", "restored sensors", "shuffled sensor", "shuffled copy":
			s := must(gpsgen.NewSensor("s", min, max, n, mode))
			if what == "shuffled copy" {
				s = must(gpsgen.DecodeSensors(must(gpsgen.EncodeSensors([]*types.Sensor{s}))))[0]
			}
			next = func() {
				switch what {
				case "sensors":
					s = must(gpsgen.NewSensor("s", min, max, n, mode))
				case "restored sensors":
					s = must(types.RestoreSensor(s.ID(), "s", min, max, n, mode))
				default:
					s.Shuffle()
				}
			}
			at = func(x float64) float64 { s.Next(x); return s.ValueY() }
		case "curves", "shuffled curve":
			c := curve.New(min, max, n, mode)
			next = func() {
				if what == "curves" {
					c = curve.New(min, max, n, mode)
				} else {
					c.Shuffle()
				}
			}
			at = func(x float64) float64 { return c.Point(x).Y }
		default:
			mode = types.WithSensorRandomMode
			min, max = math.Abs(min)/2, math.Abs(min)/2+(max-min)
			v := must(types.NewSpeed(min, max, n))
			next = func() {
				if what == "speeds" {
					v = must(types.NewSpeed(min, max, n))
				} else {
					v.Shuffle()
				}
			}
			at = func(x float64) float64 { v.Next(x); return v.Value() }
		}
		low, high := map[float64]int{}, map[float64]int{}
		for i := 0; i < draws; i++ {
			for _, x := range []float64{0, 0.5, 1} {
				if at(x) < (min+max)/2 {
					low[x]++
				} else {
					high[x]++
				}
			}
			next()
		}
		free := func(x float64) bool {
			return x == 0 && mode&types.WithSensorStartMode == 0 || x == 1 && mode&types.WithSensorEndMode == 0 || x == 0.5 && n > 4
		}
		for _, x := range []float64{0, 0.5, 1} {
			if free(x) && (low[x] == 0 || high[x] == 0) && (x != 0.5 || low[x] == draws) {
				rt.Fatalf("%s: of %d values at %v, %d are in the lower half of the range %v..%v and %d in the upper", what, draws, x, low[x], min, max, high[x])
			}
		}
		k.nontrivial()
	})
}

// Every lap follows new curves: a device and its copy, which are the same until
// they finish a lap, differ in every value that varies in the lap after it.
func TestP17_Laps(t *testing.T) {
	check(t, 250, func(rt *rapid.T, k *kase) {
		o := genOptions(rt)
		o.Speed.Min = uni(rt, 1, 20, "smin")
		o.Speed.Max = o.Speed.Min + uni(rt, 0.5, 50, "sspan")
		o.Navigator.SkipOffline = true
		o.Battery.ChargeTime = dsec(1e7)
		e := &o.Navigator.Elevation
		e.Min = uni(rt, 0.1, 1000, "emin")
		e.Max = e.Min + uni(rt, 1, 500, "espan")
		io := smallItin()
		io.minRoutes, io.minTracks = 1, 1
		d, _ := genDevice(rt, o, io, 0)
		for n := intn(rt, 1, 3, "nsensors"); n > 0; n-- {
			min := uni(rt, -100, 100, "min")
			d.AddSensor(must(types.NewSensor("s", min, min+uni(rt, 0.1, 50, "span"), genAmplitude(rt), oneOf(rt, "mode", modes...))))
		}
		if coin.Draw(rt, "restored") {
			d = must(gpsgen.DecodeTracker(must(gpsgen.EncodeTracker(d))))
		}
		avgT := d.Distance() / ((o.Speed.Min + o.Speed.Max) / 2)
		laps := intn(rt, 1, 3, "laps")
		k.note("%v m at %v..%v m/s, %d sensors, %d laps", d.Distance(), o.Speed.Min, o.Speed.Max, d.NumSensors(), laps)
		finished := func(d *gpsgen.Device, dt float64) bool { return !d.Next(dt) && d.Duration() == 0 }
		for i := 0; laps > 0 && i < 600; i++ {
			dt := uni(rt, 0.02, 0.5, "fr") * avgT
			data := must(gpsgen.EncodeTracker(d))
			c := must(gpsgen.DecodeTracker(data))
			end := finished(d, dt)
			if !end {
				continue
			}
			laps--
			if !finished(c, dt) {
				rt.Fatalf("the copy does not finish the lap with the device")
			}
			var a, b [][]float64
			for j := 0; j < 40; j++ {
				step := avgT / 40
				if d.Next(step) && c.Next(step) {
					read := func(d *gpsgen.Device) []float64 {
						st := d.State()
						v := []float64{st.Speed, st.Location.Elevation}
						for _, s := range st.Sensors {
							v = append(v, s.ValY)
						}
						return v
					}
					a, b = append(a, read(d)), append(b, read(c))
				}
			}
			if len(a) < 5 {
				continue
			}
			k.nontrivial()
			for v := range a[0] {
				same := true
				for j := range a {
					same = same && near(a[j][v], b[j][v], 1e-9)
				}
				if same {
					rt.Fatalf("value %d (speed, elevation, sensors) of the lap after the first is the same on the device and its copy: %v", v, a)
				}
			}
		}
	})
}

// The same for speeds and for curves themselves.
func TestP17_Speed(t *testing.T) {
	check(t, 800, func(rt *rapid.T, k *kase) {
		min := uni(rt, 0, 500, "min")
		max := min + oneOf(rt, "span", uni(rt, 0.001, 500, "s"), 0)
		n := genAmplitude(rt)
		s := must(types.NewSpeed(min, max, n))
		k.note("%v..%v amplitude %d", min, max, n)
		for round := intn(rt, 1, 3, "rounds"); round > 0; round-- {
			var hist []sample
			for m := intn(rt, 2, 8, "nt"); m > 0; m-- {
				x := genProgress(rt)
				s.Next(x)
				if msg := inRange(s.Value(), s.Min(), s.Max(), n); msg != "" {
					rt.Fatalf("at %v: %s", x, msg)
				}
				hist = append(hist, sample{x, s.Value()})
			}
			if msg := smooth(hist, n, s.Min(), s.Max()); msg != "" {
				rt.Fatalf("not smooth: %s", msg)
			}
			if min == max && s.Value() != s.Min() {
				rt.Fatalf("constant speed %v gives %v", min, s.Value())
			}
			s.Shuffle()
		}
		k.nontrivial()
	})
}

func TestP17_Curve(t *testing.T) {
	check(t, 800, func(rt *rapid.T, k *kase) {
		min := uni(rt, -100, 100, "min")
		max := min + uni(rt, 0, 100, "span")
		n := oneOf(rt, "n", 1, 2, 3, intn(rt, 4, 512, "points"), intn(rt, 4, 20, "few"))
		mode := oneOf(rt, "mode", modes...)
		c := curve.New(min, max, n, mode)
		k.note("%v..%v, %d points, mode %x", min, max, n, mode)
		if c.NumControlPoints() != n || c.Min() != min || c.Max() != max {
			rt.Fatalf("curve of %d points %v..%v", c.NumControlPoints(), c.Min(), c.Max())
		}
		for round := 0; round < 3; round++ {
			var hist []sample
			for m := 0; m < 6; m++ {
				x := genProgress(rt)
				p := c.Point(x)
				if msg := inRange(p.Y, min, max, n); msg != "" {
					rt.Fatalf("at %v: %s", x, msg)
				}
				if !near(p.X, x*float64(n-1), 1e-9*float64(n)) {
					rt.Fatalf("horizontal value at %v is %v of %d points", x, p.X, n)
				}
				if n > 1 && mode&types.WithSensorStartMode != 0 && x == 0 && !near(p.Y, min, rangeTol(min, max, n)) {
					rt.Fatalf("start mode begins at %v, want %v", p.Y, min)
				}
				if n > 1 && mode&types.WithSensorEndMode != 0 && x == 1 && !near(p.Y, min, rangeTol(min, max, n)) {
					rt.Fatalf("end mode ends at %v, want %v", p.Y, min)
				}
				hist = append(hist, sample{x, p.Y})
			}
			if msg := smooth(hist, n, min, max); msg != "" {
				rt.Fatalf("not smooth: %s", msg)
			}
			if coin.Draw(rt, "shuffle") {
				c.Shuffle()
			} else if coin.Draw(rt, "restore") {
				d := new(curve.Curve)
				d.FromSnapshot(c.Snapshot())
				c = d
			}
		}
		k.nontrivial()
	})
}

// A whole device over whole laps.
func TestP17_Device(t *testing.T) {
	check(t, 400, func(rt *rapid.T, k *kase) {
		o := genOptions(rt)
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = 1, 2
		io := smallItin()
		d, _ := genDevice(rt, o, io, 3)
		type shape struct{ n int }
		var shapes []shape
		for i := 0; i < d.NumSensors(); i++ {
			shapes = append(shapes, shape{len(d.SensorAt(i).Snapshot().GetGen().GetPoints())})
		}
		avgT := d.Distance() / ((o.Speed.Min + o.Speed.Max) / 2)
		k.note("%v m at %v..%v m/s, %d sensors", d.Distance(), o.Speed.Min, o.Speed.Max, len(shapes))
		laps, steps := 0, 0
		type hist struct{ speed, elev []sample }
		var h hist
		ys := make([][]sample, len(shapes))
		for i := 0; i < 150 && laps < 3; i++ {
			before := d.Duration()
			dt := oneOf(rt, "dt", uni(rt, 0.01, 0.4, "fr")*avgT, uni(rt, 0, 0.05, "fr")*avgT, 1, genTick(rt))
			curves := d.Snapshot()
			ok := d.Next(dt)
			if d.IsFinish() && !d.IsOffline() || d.Duration() == 0 {
				laps++
				h = hist{}
				for j := range ys {
					ys[j] = nil
				}
			}
			if !ok {
				if v := d.State().Speed; inRange(v, o.Speed.Min, o.Speed.Max, o.Speed.Amplitude) != "" {
					rt.Fatalf("speed %v", v)
				}
				continue
			}
			steps++
			st := d.State()
			lo, hi := math.Min(1, (before+dt)/avgT), math.Min(1, (before+2*dt)/avgT)
			if !(avgT > 0) {
				lo, hi = 1, 1
			}
			if msg := inRange(st.Speed, o.Speed.Min, o.Speed.Max, o.Speed.Amplitude); msg != "" {
				rt.Fatalf("speed: %s", msg)
			}
			e := o.Navigator.Elevation
			if msg := inRange(st.Location.Elevation, e.Min, e.Max, e.Amplitude); msg != "" {
				rt.Fatalf("elevation: %s", msg)
			}
			x := -1.0
			for j, s := range st.Sensors {
				q := d.SensorAt(j)
				if s.ValX != q.ValueX() || s.ValY != q.ValueY() {
					rt.Fatalf("state has sensor %v, it is %v", s, q)
				}
				n := shapes[j].n
				if msg := inRange(s.ValY, q.Min(), q.Max(), n); msg != "" {
					rt.Fatalf("sensor: %s", msg)
				}
				p := s.ValX / float64(n-1)
				if !(p >= lo-1e-6 && p <= hi+1e-6) {
					rt.Fatalf("sensor %d of %d points is at %v (%v of the lap) after %v+%v of %v s", j, n, s.ValX, p, before, dt, avgT)
				}
				if x >= 0 && !near(p, x, 1e-6) {
					rt.Fatalf("sensors are at %v and %v of the lap", x, p)
				}
				x = p
				ys[j] = append(ys[j], sample{p, s.ValY})
			}
			if x >= 0 {
				// Speed, elevation and sensors are where their curves are then.
				var speed types.Speed
				speed.FromSnapshot(curves.Speed)
				speed.Next(x)
				var elev types.Sensor
				elev.FromSnapshot(curves.Navigator.Elevation)
				elev.Next(x)
				if !near(st.Speed, speed.Value(), 1e-4*(1e-3+o.Speed.Max)) || !near(st.Location.Elevation, elev.ValueY(), 1e-4*(1e-3+e.Max)) {
					rt.Fatalf("speed %v and elevation %v, the curves are at %v and %v at %v of the lap", st.Speed, st.Location.Elevation, speed.Value(), elev.ValueY(), x)
				}
				for j, s := range st.Sensors {
					var c types.Sensor
					c.FromSnapshot(curves.Sensors[j])
					c.Next(x)
					if !near(s.ValY, c.ValueY(), 1e-4*(1e-3+math.Abs(c.Max())+math.Abs(c.Min()))) {
						rt.Fatalf("sensor %d is %v, its curve is at %v at %v of the lap", j, s.ValY, c.ValueY(), x)
					}
				}
				h.speed = append(h.speed, sample{x, st.Speed})
				h.elev = append(h.elev, sample{x, st.Location.Elevation})
			}
		}
		for j := range ys {
			if msg := smooth(ys[j], shapes[j].n, d.SensorAt(j).Min(), d.SensorAt(j).Max()); msg != "" {
				rt.Fatalf("sensor %d is not smooth: %s", j, msg)
			}
		}
		if msg := smooth(h.speed, o.Speed.Amplitude, o.Speed.Min, o.Speed.Max); msg != "" {
			rt.Fatalf("speed is not smooth: %s", msg)
		}
		if msg := smooth(h.elev, o.Navigator.Elevation.Amplitude, o.Navigator.Elevation.Min, o.Navigator.Elevation.Max); msg != "" {
			rt.Fatalf("elevation is not smooth: %s", msg)
		}
		if steps > 3 {
			k.nontrivial()
		}
		if laps > 0 {
			k.class("a lap or more")
		}
		k.note("%d steps, %d laps", steps, laps)
	})
}

// ---- P18: battery --------------------------------------------------------

func genBattery(rt *rapid.T) (min, max float64, charge time.Duration) {
	min = oneOf(rt, "bmin", 0, uni(rt, 0, 99, "bminu"), 5, 100)
	max = oneOf(rt, "bmax", 100, uni(rt, min, 100, "bmaxu"), min)
	charge = oneOf(rt, "charge", time.Nanosecond, time.Second, dsec(uni(rt, 0.5, 1e5, "chargeu")), 9*time.Hour, 1000*time.Hour, 0)
	return
}

func TestP18_Battery(t *testing.T) {
	check(t, 2000, func(rt *rapid.T, k *kase) {
		min, max, charge := genBattery(rt)
		b := must(types.NewBattery(min, max, charge))
		if b.Min() != min || b.Max() != max {
			rt.Fatalf("range %v..%v became %v..%v", min, max, b.Min(), b.Max())
		}
		charge = b.ChargeTime()
		k.note("%v..%v%% in %v", min, max, charge)
		elapsed, prev := 0.0, math.Inf(1)
		for n := length(rt, 1, 20, "n"); n > 0; n-- {
			v := b.Value()
			if !finite(v) || v < min || v > max {
				rt.Fatalf("charge %v is not within %v..%v", v, min, max)
			}
			if v > prev {
				rt.Fatalf("charge rose from %v to %v", prev, v)
			}
			prev = v
			if charge > 0 {
				raw := 100 - elapsed/charge.Seconds()*100
				want := math.Max(min, math.Min(max, raw))
				if !near(v, want, 1e-6) {
					rt.Fatalf("charge %v%% after %v of %v s, want %v%%", v, elapsed, charge.Seconds(), want)
				}
				if raw < min-1e-6 && v != min {
					rt.Fatalf("charge %v, want the minimum", v)
				}
				if raw <= min {
					k.class("empty")
				}
			}
			if b.IsLow() != (v == min) {
				rt.Fatalf("low is %v at %v with minimum %v", b.IsLow(), v, min)
			}
			switch intn(rt, 0, 9, "op") {
			case 0:
				b.Reset()
				elapsed, prev = 0, math.Inf(1)
				if want := math.Max(min, math.Min(100, max)); charge > 0 && !near(b.Value(), want, 1e-9) {
					rt.Fatalf("a reset battery is at %v, want %v", b.Value(), want)
				}
				k.class("reset")
			case 1:
				c := new(types.Battery)
				c.FromSnapshot(b.Snapshot())
				b = c
			default:
				s := oneOf(rt, "sec", uni(rt, 0, 0.4, "fr")*charge.Seconds(), 0, genTick(rt))
				b.Next(s)
				elapsed += s
			}
		}
		k.nontrivial()
	})
}

func TestP18_Device(t *testing.T) {
	check(t, 400, func(rt *rapid.T, k *kase) {
		o := genOptions(rt)
		o.Navigator.Offline.Min = intn(rt, 2, 4, "omin")
		o.Navigator.Offline.Max = o.Navigator.Offline.Min + intn(rt, 0, 3, "ospan")
		var charge time.Duration
		o.Battery.Min, o.Battery.Max, charge = genBattery(rt)
		if charge < time.Second {
			charge = time.Minute
		}
		if o.Battery.Min >= o.Battery.Max { // always low
			o.Battery.Max = 100
			o.Battery.Min = 99
		}
		o.Battery.ChargeTime = charge
		d, _ := genDevice(rt, o, smallItin(), 0)
		life := charge.Seconds() * (100 - o.Battery.Min) / 100
		k.note("%v..%v%% in %v", o.Battery.Min, o.Battery.Max, charge)
		elapsed := 0.0
		lows := 0
		if v := d.State(); v.Battery == nil {
			rt.Fatalf("no battery in the state")
		}
		for n := length(rt, 1, 40, "n"); n > 0; n-- {
			dt := oneOf(rt, "dt", uni(rt, 0, 0.4, "fr")*life, uni(rt, 0, 0.02, "fr")*life, 1)
			elapsed += dt
			if math.Abs(elapsed-life) < 1e-6*life {
				break
			}
			low := elapsed >= life
			if low {
				elapsed = 0
				lows++
			}
			ok := d.Next(dt)
			if low && !o.Navigator.SkipOffline {
				if ok || !d.IsOffline() {
					rt.Fatalf("an exhausted battery did not send the device offline (moved %v)", ok)
				}
				k.class("offline for lack of charge")
			}
			if low && o.Navigator.SkipOffline {
				k.class("exhausted but skips offline mode")
			}
			if d.IsOffline() && o.Navigator.SkipOffline {
				rt.Fatalf("offline")
			}
			if !ok {
				if coin.Draw(rt, "look") {
					d.Update()
				} else {
					continue
				}
			}
			st := d.State()
			want := math.Max(o.Battery.Min, math.Min(o.Battery.Max, 100-elapsed/charge.Seconds()*100))
			if !near(st.Battery.Charge, want, 1e-6) {
				rt.Fatalf("charge %v%% %v s after it was full, want %v%% (empty after %v s)", st.Battery.Charge, elapsed, want, life)
			}
			if st.Battery.ChargeTime != int64(charge.Seconds()) {
				rt.Fatalf("charge time %v of %v", st.Battery.ChargeTime, charge)
			}
		}
		if elapsed > 0 {
			k.nontrivial()
		}
		k.note("exhausted %d times", lows)
	})
}

// ---- P19: the published state --------------------------------------------

// checkFinite finds a number in a message that is infinite or not a number.
func checkFinite(m protoreflect.Message) (bad string) {
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.IsList():
			for i := 0; i < v.List().Len() && bad == ""; i++ {
				if f.Kind() == protoreflect.MessageKind {
					bad = checkFinite(v.List().Get(i).Message())
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			bad = checkFinite(v.Message())
		case f.Kind() == protoreflect.DoubleKind:
			if !finite(v.Float()) {
				bad = fmt.Sprintf("%s is %v", f.FullName(), v.Float())
			}
		}
		return bad == ""
	})
	return
}

// refUTM projects a point with the Krüger series.
func refUTM(lat, lon, meridian float64) (easting, northing float64) {
	const a, f, k0 = 6378137.0, 1 / 298.257223563, 0.9996
	n := f / (2 - f)
	A := a / (1 + n) * (1 + n*n/4 + n*n*n*n/64)
	alpha := []float64{n/2 - 2*n*n/3 + 5*n*n*n/16 + 41*n*n*n*n/180, 13*n*n/48 - 3*n*n*n/5 + 557*n*n*n*n/1440, 61*n*n*n/240 - 103*n*n*n*n/140, 49561 * n * n * n * n / 161280}
	φ, λ := lat*math.Pi/180, (lon-meridian)*math.Pi/180
	c := 2 * math.Sqrt(n) / (1 + n)
	t := math.Sinh(math.Atanh(math.Sin(φ)) - c*math.Atanh(c*math.Sin(φ)))
	ξ, η := math.Atan2(t, math.Cos(λ)), math.Atanh(math.Sin(λ)/math.Sqrt(1+t*t))
	x, y := η, ξ
	for j, α := range alpha {
		m := 2 * float64(j+1)
		x += α * math.Cos(m*ξ) * math.Sinh(m*η)
		y += α * math.Sin(m*ξ) * math.Cosh(m*η)
	}
	easting, northing = 500000+k0*A*x, k0*A*y
	if lat < 0 {
		northing += 1e7
	}
	return
}

func checkDMS(d *pb.Device_Location_DMS, x float64, pos, neg string) string {
	if d == nil {
		return "missing"
	}
	if d.Degrees < 0 || d.Minutes < 0 || d.Minutes > 59 || d.Seconds < -1e-6 || d.Seconds > 60+1e-6 {
		return fmt.Sprintf("out of range: %v", d)
	}
	v := float64(d.Degrees) + float64(d.Minutes)/60 + d.Seconds/3600
	if !near(v, math.Abs(x), 1e-9) {
		return fmt.Sprintf("%v denotes %v, want %v", d, v, x)
	}
	want := pos
	if x < 0 {
		want = neg
	}
	if d.Direction != want && !(x == 0 && (d.Direction == pos || d.Direction == neg)) {
		return fmt.Sprintf("direction of %v is %q", x, d.Direction)
	}
	return ""
}

func checkUTM(u *pb.Device_Location_UTM, lat, lon float64) string {
	if u == nil {
		return "missing"
	}
	if lat < -79.9 || lat > 83.9 || math.Abs(lon) >= 180 {
		return ""
	}
	dl := lon - u.CentralMeridian
	limit := 3.0
	if lat >= 56 && lon >= 0 && lon <= 42 { // the zones of Norway and Svalbard
		limit = 9
	}
	if u.LongZone < 1 || u.LongZone > 60 || u.CentralMeridian != float64(u.LongZone)*6-183 || math.Abs(dl) > limit+1e-6 {
		return fmt.Sprintf("zone %d with meridian %v for longitude %v", u.LongZone, u.CentralMeridian, lon)
	}
	e, n := refUTM(lat, lon, u.CentralMeridian)
	if !near(e, u.Easting, 1) || !(near(n, u.Northing, 1) || lat == 0) {
		return fmt.Sprintf("%v %v, want %v %v", u.Easting, u.Northing, e, n)
	}
	const bands = "CDEFGHJKLMNPQRSTUVWXX"
	if q := (lat + 80) / 8; math.Abs(q-math.Round(q)) > 1e-9 && u.LatZone != string(bands[int(q)]) {
		return fmt.Sprintf("latitude band %q, want %q", u.LatZone, bands[int(q)])
	}
	h, srid := "N", 32600+u.LongZone
	if lat < 0 {
		h, srid = "S", 32700+u.LongZone
	}
	if lat != 0 && (u.Hemisphere != h || u.Srid != srid) {
		return fmt.Sprintf("hemisphere %q, SRID %d, want %q, %d", u.Hemisphere, u.Srid, h, srid)
	}
	return ""
}

// checkState compares a state just published with the device.
func checkState(d *gpsgen.Device) string {
	st, snap := d.State(), d.Snapshot()
	for _, x := range []struct {
		what      string
		got, want any
	}{
		{"id", st.Id, d.ID()}, {"user", st.UserId, d.UserID()}, {"model", st.Model, d.Model()},
		{"description", st.Description, d.Descr()}, {"color", st.Color, d.Color()},
		{"duration", st.Duration, d.Duration()},
		{"distance", st.Distance.GetDistance(), d.Distance()},
		{"current distance", st.Distance.GetCurrentDistance(), d.CurrentDistance()},
		{"route distance", st.Distance.GetRouteDistance(), d.RouteDistance()},
		{"current route distance", st.Distance.GetCurrentRouteDistance(), d.CurrentRouteDistance()},
		{"track distance", st.Distance.GetTrackDistance(), d.TrackDistance()},
		{"current track distance", st.Distance.GetCurrentTrackDistance(), d.CurrentTrackDistance()},
		{"segment distance", st.Distance.GetSegmentDistance(), d.SegmentDistance()},
		{"current segment distance", st.Distance.GetCurrentSegmentDistance(), d.CurrentSegmentDistance()},
		{"route index", st.Navigator.GetCurrentRouteIndex(), int64(d.RouteIndex())},
		{"track index", st.Navigator.GetCurrentTrackIndex(), int64(d.TrackIndex())},
		{"segment index", st.Navigator.GetCurrentSegmentIndex(), int64(d.SegmentIndex())},
		{"bearing", st.Location.GetBearing(), d.CurrentBearing()},
		{"latitude", st.Location.GetLat(), d.Location().Lat},
		{"longitude", st.Location.GetLon(), d.Location().Lon},
		{"offline", st.IsOffline, d.IsOffline()},
		{"an offline duration", st.OfflineDuration > 0, d.IsOffline()},
		{"offline duration", st.OfflineDuration, snap.Navigator.GetOfflineIndex()},
		{"elevation", st.Location.GetElevation(), snap.Navigator.GetElevation().GetValY()},
		{"number of routes", len(st.Routes.GetRoutes()), d.NumRoutes()},
		{"number of sensors", len(st.Sensors), d.NumSensors()},
		{"distance unit", st.Units.GetDistance(), "meters"},
		{"speed unit", st.Units.GetSpeed(), "meter per second"},
		{"time unit", st.Units.GetTime(), "seconds"},
		{"elevation unit", st.Units.GetElevation(), "meters"},
	} {
		if x.got != x.want {
			return fmt.Sprintf("%s is %v, device has %v", x.what, x.got, x.want)
		}
	}
	rid, tid := "", ""
	if r := d.CurrentRoute(); r != nil {
		rid = r.ID()
	}
	if t := d.CurrentTrack(); t != nil {
		tid = t.ID()
	}
	if st.Navigator.CurrentRouteId != rid || st.Navigator.CurrentTrackId != tid {
		return fmt.Sprintf("current route and track %q %q, want %q %q", st.Navigator.CurrentRouteId, st.Navigator.CurrentTrackId, rid, tid)
	}
	b := new(types.Battery)
	b.FromSnapshot(snap.Battery)
	if st.Battery.GetCharge() != b.Value() || st.Battery.GetChargeTime() != int64(b.ChargeTime().Seconds()) {
		return fmt.Sprintf("battery %v, device has %v", st.Battery, b)
	}
	for i, s := range st.Sensors {
		q := d.SensorAt(i)
		if s.Id != q.ID() || s.Name != q.Name() || s.ValX != q.ValueX() || s.ValY != q.ValueY() {
			return fmt.Sprintf("sensor %d is %v, device has %s %v", i, s, q.ID(), q)
		}
	}
	if st.Speed > 0 && !near(st.TimeEstimate, st.Distance.Distance/st.Speed, 1e-9*st.TimeEstimate) {
		return fmt.Sprintf("time estimate %v for %v m at %v m/s", st.TimeEstimate, st.Distance.Distance, st.Speed)
	}
	lat, lon := st.Location.Lat, st.Location.Lon
	if msg := checkDMS(st.Location.LatDms, lat, "N", "S"); msg != "" {
		return "latitude in degrees, minutes, seconds: " + msg
	}
	if msg := checkDMS(st.Location.LonDms, lon, "E", "W"); msg != "" {
		return "longitude in degrees, minutes, seconds: " + msg
	}
	if msg := checkUTM(st.Location.Utm, lat, lon); msg != "" {
		return fmt.Sprintf("UTM of %v %v: %s", lat, lon, msg)
	}
	return checkFinite(st.ProtoReflect())
}

// scribble changes everything in a message.
func scribble(m protoreflect.Message) {
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.IsList():
			for i := 0; i < v.List().Len(); i++ {
				if f.Kind() == protoreflect.MessageKind {
					scribble(v.List().Get(i).Message())
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			scribble(v.Message())
		case f.Kind() == protoreflect.StringKind:
			m.Set(f, protoreflect.ValueOfString(v.String()+"?"))
		case f.Kind() == protoreflect.DoubleKind:
			m.Set(f, protoreflect.ValueOfFloat64(v.Float()+1))
		case f.Kind() == protoreflect.Int64Kind:
			m.Set(f, protoreflect.ValueOfInt64(v.Int()+1))
		case f.Kind() == protoreflect.BytesKind:
			for i := range v.Bytes() {
				v.Bytes()[i]++
			}
		}
		return true
	})
}

func TestP19_State(t *testing.T) {
	check(t, 600, func(rt *rapid.T, k *kase) {
		o := genOptions(rt)
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = 1, 3
		if chance(rt, 10, "long offline") {
			o.Navigator.Offline.Min = intn(rt, 100, 3500, "omin")
			o.Navigator.Offline.Max = o.Navigator.Offline.Min + 50
		}
		if chance(rt, 15, "standing") {
			o.Speed.Min, o.Speed.Max = 0, 0.5
		}
		io := metaItin()
		io.minRoutes = 0
		if chance(rt, 80, "tracks") {
			io.minRoutes, io.minTracks = 1, 1
		}
		io.path.maxLat = oneOf(rt, "maxlat", 80.0, 89)
		d, it := genDevice(rt, o, io, 3)
		k.note("%v", it)
		type kept struct{ st, copy *pb.Device }
		var states []kept
		edited := false
		look := func(what string) {
			if msg := checkState(d); msg != "" {
				rt.Fatalf("state after %s: %s", what, msg)
			}
			st := d.State()
			if st.Speed != 0 || what != "Update" {
				if msg := inRange(st.Speed, o.Speed.Min, o.Speed.Max, o.Speed.Amplitude); msg != "" {
					rt.Fatalf("state after %s: speed: %s", what, msg)
				}
			}
			if what == "Update" {
				edited = false
			}
			for i, r := range st.Routes.Routes {
				if !edited { // edits of properties are published by the next update
					comparePublishedRoute(rt, what, r, d.RouteAt(i))
				}
			}
			scribble(d.State().ProtoReflect())
			if now := d.State(); !proto.Equal(st, now) {
				rt.Fatalf("after %s: changing a state that was returned changes the device: %v, was %v", what, now, st)
			}
			states = append(states, kept{st, proto.Clone(st).(*pb.Device)})
		}
		steps := 0
		for n := length(rt, 2, 14, "n"); n > 0; n-- {
			a := act(rt, d)
			edited = edited || a == "decorate"
			if chance(rt, 30, "update") {
				d.Update()
				look("Update")
				continue
			}
			dt := genTick(rt)
			dur := d.Duration()
			if d.Next(dt) {
				look("Next")
				st := d.State()
				if st.Tick != dt || !near(st.Duration, dur+dt, 1e-9*(1+dur+dt)) {
					rt.Fatalf("after %s and Next(%v): tick %v, duration %v, was %v", a, dt, st.Tick, st.Duration, dur)
				}
				steps++
			} else if d.NumRoutes() > 0 {
				st := d.State()
				if left := d.Snapshot().Navigator.OfflineIndex; st.IsOffline != d.IsOffline() || st.OfflineDuration != left {
					rt.Fatalf("after %s and Next(%v): offline %v for %d, it is %v for %d", a, dt, st.IsOffline, st.OfflineDuration, d.IsOffline(), left)
				}
			}
		}
		if steps > 0 {
			k.nontrivial()
		}
		p := &pb.Packet{Timestamp: int64(intn(rt, 0, 1<<20, "ts"))}
		for _, s := range states {
			if !proto.Equal(s.st, s.copy) {
				rt.Fatalf("a state changed after it was returned: %s", diffState(s.copy, s.st))
			}
			p.Devices = append(p.Devices, s.st)
		}
		data, err := proto.Marshal(p)
		if err != nil {
			rt.Fatalf("encoding a packet: %v", err)
		}
		if len(data) > 0 {
			q, err := gpsgen.PacketFromBytes(data)
			if err != nil || !proto.Equal(p, q) {
				rt.Fatalf("a packet decodes to another one (%v)", err)
			}
		}
		if _, err := gpsgen.PacketFromBytes(nil); err == nil {
			rt.Fatalf("no data is a packet")
		}
		// changing a returned state does not change the device
		if len(states) > 0 {
			before := proto.Clone(d.State())
			s := d.State()
			s.Id, s.Distance.Distance, s.Location.Lat = "other", -1, 12
			s.Routes.Routes = nil
			if !proto.Equal(before, d.State()) {
				rt.Fatalf("changing a returned state changed the device")
			}
		}
	})
}

// The renderings of the location, anywhere on Earth.
func TestP19_Location(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		a := oneOf(rt, "p", genPoint(rt, 89), pt{Lat: uni(rt, -80, 84, "lat"), Lon: uni(rt, -180, 180, "lon")}, pt{Lat: float64(intn(rt, -79, 79, "lat")), Lon: float64(intn(rt, -179, 179, "lon"))})
		b := refDest(a, uni(rt, 5, 5000, "len"), uni(rt, 0, 360, "brg"))
		d := must(gpsgen.NewDevice(steadyOptions(1)))
		noErr(d.AddRoute(routeOf([]pt{a, b})))
		k.note("%v %v", a, b)
		d.MoveToSegment(0, 0, 0)
		for i := 0; i < 3; i++ {
			if i > 0 {
				d.DestinationTo(uni(rt, 1, d.Distance(), "m"))
			}
			d.Update()
			if msg := checkState(d); msg != "" {
				rt.Fatalf("state: %s", msg)
			}
		}
		k.nontrivial()
	})
}

// The navigator on its own writes what its getters say into any message, an
// empty one, an incomplete one or one written before.
func TestP19_Navigator(t *testing.T) {
	check(t, 600, func(rt *rapid.T, k *kase) {
		emin := uni(rt, 0, 20000, "emin")
		emax := emin + uni(rt, 1, 20000, "espan")
		amp := intn(rt, 4, 512, "eamp")
		opts := []navigator.Option{navigator.WithElevation(emin, emax, amp, oneOf(rt, "emode", modes...)), navigator.WithOffline(1, oneOf(rt, "omax", 3, 3, 3, 3500))}
		skip := chance(rt, 40, "skip")
		if skip {
			opts = append(opts, navigator.SkipOfflineMode())
		}
		nav := must(navigator.New(opts...))
		io := metaItin()
		io.path.maxLat = oneOf(rt, "maxlat", 80.0, 89)
		io.minRoutes, io.minTracks = 0, oneOf(rt, "mintracks", 0, 1)
		it := genItinerary(rt, io)
		if len(it.routes) > 0 {
			noErr(nav.AddRoute(it.routes...))
		}
		stepped := false
		k.note("%v, elevation %v..%v", it, emin, emax)
		kept := &pb.Device{Location: &pb.Device_Location{}}
		for n := length(rt, 1, 15, "n"); n > 0; n-- {
			switch intn(rt, 0, 6, "op") {
			case 0:
				nav.DestinationTo(uni(rt, 0, 1.1, "frac") * nav.Distance())
			case 1:
				nav.NextRoute()
			case 2:
				nav.ToOffline()
			case 3:
				if r := nav.CurrentRoute(); r != nil && r.NumTracks() > 0 {
					ti := intn(rt, 0, r.NumTracks()-1, "ti")
					nav.MoveToSegment(nav.RouteIndex(), ti, intn(rt, 0, r.TrackAt(ti).NumSegments()-1, "si"))
				}
			default:
				dt, v := genTick(rt), genSpeed(rt)
				if tr := nav.CurrentTrack(); tr != nil && coin.Draw(rt, "near") {
					dt = uni(rt, 0, 1.05, "frac") * tr.Distance() / v
				}
				was := nav.CurrentDistance()
				if nav.NextLocation(dt, v) {
					k.nontrivial()
					if now := nav.CurrentDistance(); !near(now, was+dt*v, 1e-9*(1+now)) {
						rt.Fatalf("moving %v s at %v m/s took the total odometer from %v to %v", dt, v, was, now)
					}
				}
				stepped = true
				if nav.NextElevation(uni(rt, 0, 1, "etick")); chance(rt, 10, "shuffle") {
					nav.ShuffleElevation()
				}
			}
			st := oneOf(rt, "message", kept, &pb.Device{}, &pb.Device{Distance: &pb.Device_Distance{Distance: 1}},
				&pb.Device{Location: &pb.Device_Location{LatDms: &pb.Device_Location_DMS{Degrees: 7, Direction: "?"}}, Navigator: &pb.Device_Navigator{CurrentRouteId: "x", CurrentTrackId: "y"}},
				&pb.Device{Location: &pb.Device_Location{Utm: &pb.Device_Location_UTM{Srid: 7}}, IsOffline: true, OfflineDuration: 9})
			nav.Update(st)
			if msg := checkNavState(nav, st); msg != "" {
				rt.Fatalf("state: %s", msg)
			}
			if msg := inRange(nav.Elevation(), emin, emax, amp); msg != "" && stepped {
				rt.Fatalf("elevation: %s", msg)
			}
			if skip && nav.IsOffline() {
				rt.Fatalf("offline although offline mode is skipped")
			}
		}
	})
}

func checkNavState(n *navigator.Navigator, st *pb.Device) string {
	rid, tid := "", ""
	if r := n.CurrentRoute(); r != nil {
		rid = r.ID()
	}
	if t := n.CurrentTrack(); t != nil {
		tid = t.ID()
	}
	for _, x := range []struct {
		what      string
		got, want any
	}{
		{"distance", st.Distance.GetDistance(), n.Distance()},
		{"current distance", st.Distance.GetCurrentDistance(), n.CurrentDistance()},
		{"route distance", st.Distance.GetRouteDistance(), n.RouteDistance()},
		{"current route distance", st.Distance.GetCurrentRouteDistance(), n.CurrentRouteDistance()},
		{"track distance", st.Distance.GetTrackDistance(), n.TrackDistance()},
		{"current track distance", st.Distance.GetCurrentTrackDistance(), n.CurrentTrackDistance()},
		{"segment distance", st.Distance.GetSegmentDistance(), n.SegmentDistance()},
		{"current segment distance", st.Distance.GetCurrentSegmentDistance(), n.CurrentSegmentDistance()},
		{"route index", st.Navigator.GetCurrentRouteIndex(), int64(n.RouteIndex())},
		{"track index", st.Navigator.GetCurrentTrackIndex(), int64(n.TrackIndex())},
		{"segment index", st.Navigator.GetCurrentSegmentIndex(), int64(n.SegmentIndex())},
		{"route id", st.Navigator.GetCurrentRouteId(), rid},
		{"track id", st.Navigator.GetCurrentTrackId(), tid},
		{"bearing", st.Location.GetBearing(), n.CurrentBearing()},
		{"elevation", st.Location.GetElevation(), n.Elevation()},
		{"latitude", st.Location.GetLat(), n.Location().Lat},
		{"longitude", st.Location.GetLon(), n.Location().Lon},
		{"offline", st.IsOffline, n.IsOffline()},
		{"offline duration", st.OfflineDuration, int64(n.OfflineDuration())},
	} {
		if x.got != x.want {
			return fmt.Sprintf("%s is %v, the navigator has %v", x.what, x.got, x.want)
		}
	}
	lat, lon := st.Location.Lat, st.Location.Lon
	if msg := checkDMS(st.Location.LatDms, lat, "N", "S"); msg != "" {
		return "latitude in degrees, minutes, seconds: " + msg
	}
	if msg := checkDMS(st.Location.LonDms, lon, "E", "W"); msg != "" {
		return "longitude in degrees, minutes, seconds: " + msg
	}
	if msg := checkUTM(st.Location.Utm, lat, lon); msg != "" {
		return fmt.Sprintf("UTM of %v %v: %s", lat, lon, msg)
	}
	return checkFinite(st.ProtoReflect())
}
