package checks

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/lucasb-eyer/go-colorful"
	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"pgregory.net/rapid"
)

// These tests are built with the race detector, which ends the process at the
// first data race.

type problems struct {
	mu   sync.Mutex
	list []string
}

func (p *problems) add(format string, args ...any) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(p.list) < 5 {
		p.list = append(p.list, fmt.Sprintf(format, args...))
	}
}

func (p *problems) report(rt *rapid.T) {
	if len(p.list) > 0 {
		rt.Fatalf("%s", strings.Join(p.list, "\n"))
	}
}

// procs varies the number of threads that run Go code.
func procs(rt *rapid.T) func() {
	if !chance(rt, 30, "procs") {
		return func() {}
	}
	old := runtime.GOMAXPROCS(oneOf(rt, "nprocs", 1, 2, 3))
	return func() { runtime.GOMAXPROCS(old) }
}

// at is the segment and the point that far along the track.
func (t *mTrack) at(d float64) pt {
	si := len(t.len) - 1
	for si > 0 && t.prefix[si] > d {
		si--
	}
	return t.pointAt(si, d-t.prefix[si])
}

// TestP25_SameStep: one device with a constant speed is advanced, edited and
// read by several goroutines. In everything read, distance, duration and
// position fit together.
func TestP25_SameStep(t *testing.T) {
	check(t, 60, func(rt *rapid.T, k *kase) {
		defer procs(rt)()
		speed := uni(rt, 0.5, 40, "speed")
		path := genPath(rt, pathOpts{minPts: 2, maxPts: 12, minSeg: 20, maxSeg: 3000, maxLat: 70})
		last := path[len(path)-1]
		path = append(path, refDest(last, 2e6, 90)) // never reaches the end
		tr := newMTrack("", path)
		d := must(gpsgen.NewDevice(steadyOptions(speed)))
		noErr(d.AddRoute(routeOf(path)))
		for i := intn(rt, 0, 3, "sensors"); i > 0; i-- {
			d.AddSensor(genSensor(rt))
		}
		steps := intn(rt, 5, 60, "steps")
		ticks := make([][]float64, intn(rt, 1, 3, "steppers"))
		total := 0.0
		for i := range ticks {
			for j := 0; j < steps; j++ {
				dt := oneOf(rt, "dt", 1.0, 1.0, 0.5, 2, 7, 0.25)
				ticks[i] = append(ticks[i], dt)
				total += dt
			}
		}
		byGen := chance(rt, 40, "gen")
		readers := intn(rt, 1, 4, "readers")
		writers := intn(rt, 0, 2, "writers")
		k.note("speed %.4g points %v steppers %v generator %v readers %d writers %d", speed, len(path), len(ticks), byGen, readers, writers)

		var probs problems
		var reads, mid atomic.Int64
		good := func(what string, dist, dur, tick float64, p pt, route, track, seg float64) {
			reads.Add(1)
			if dur == 0 {
				return
			}
			mid.Add(1)
			if !near(dist, dur*speed, 1e-6*(1+dist)) || !near(route, dist, 1e-6*(1+dist)) || !near(track, dist, 1e-6*(1+dist)) {
				probs.add("%s: distance %v (route %v, track %v) after %v s at %v m/s", what, dist, route, track, dur, speed)
				return
			}
			if refDist(tr.at(dist), p) > 1e-3+1e-7*dist && !(near(tick, dur, 1e-9) && refDist(path[0], p) < 1.01) {
				probs.add("%s: at %v after %v m, which is %v", what, p, dist, tr.at(dist))
			}
		}
		state := func(what string, s *pb.Device) {
			dd, l := s.Distance, s.Location
			good(what, dd.CurrentDistance, s.Duration, s.Tick, pt{Lat: l.Lat, Lon: l.Lon}, dd.CurrentRouteDistance, dd.CurrentTrackDistance, dd.CurrentSegmentDistance)
		}
		snapshot := func(what string, s *pb.Snapshot) {
			n := s.Navigator
			good(what, n.CurrentDistance, s.Duration, s.Tick, pt{Lat: n.Point.Lat, Lon: n.Point.Lon}, n.CurrentRouteDistance, n.CurrentTrackDistance, n.CurrentSegmentDistance)
		}

		stop := make(chan struct{})
		var steppers, others sync.WaitGroup
		for i := range ticks {
			steppers.Add(1)
			go func() {
				defer steppers.Done()
				for _, dt := range ticks[i] {
					d.Next(dt)
					runtime.Gosched()
				}
			}()
		}
		var g *gpsgen.Generator
		if byGen {
			g = gpsgen.New(&gpsgen.Options{Interval: time.Millisecond, PacketSize: 1024, NumWorkers: 2})
			noErr(g.Attach(d))
			g.OnPacket(func(data []byte) {
				p, err := gpsgen.PacketFromBytes(data)
				if err != nil || len(p.Devices) != 1 {
					probs.add("packet: %v %v", err, p)
					return
				}
				state("packet", p.Devices[0])
			})
			others.Add(1)
			go func() { defer others.Done(); g.Run() }()
		}
		for i := 0; i < readers; i++ {
			others.Add(1)
			go func() {
				defer others.Done()
				before := 0.0
				for n := i; ; n++ {
					select {
					case <-stop:
						return
					default:
					}
					switch n % 5 {
					case 0, 1:
						s := d.State()
						state("state", s)
						if s.Duration < before {
							probs.add("the duration went from %v to %v", before, s.Duration)
						}
						before = s.Duration
					case 2:
						snapshot("snapshot", d.Snapshot())
					case 3:
						data, err := d.MarshalBinary()
						if err != nil {
							probs.add("encoding: %v", err)
							continue
						}
						snapshot("encoding", parseSnapshot(data))
					case 4:
						a, dist, b := d.Duration(), d.CurrentDistance(), d.Duration()
						if dist < a*speed-1e-6*(1+dist) || dist > b*speed+1e-6*(1+dist) {
							probs.add("distance %v between %v and %v s at %v m/s", dist, a, b, speed)
						}
					}
					runtime.Gosched()
				}
			}()
		}
		for i := 0; i < writers; i++ {
			others.Add(1)
			go func() {
				defer others.Done()
				s := must(types.NewSensor("own", 0, 5, 4, 0))
				for n := 0; ; n++ {
					select {
					case <-stop:
						return
					default:
					}
					switch n % 5 {
					case 0:
						d.AddSensor(s)
					case 1:
						if !d.RemoveSensor(s.ID()) {
							probs.add("an attached sensor was not found")
						}
					case 2:
						noErr(d.SetModel(fmt.Sprintf("model %d", n)))
					case 3:
						d.Update()
					case 4:
						d.SetDescription(fmt.Sprint(n))
						noErr(d.SetUserID(fmt.Sprint(n)))
					}
					runtime.Gosched()
				}
			}()
		}
		steppers.Wait()
		if byGen {
			time.Sleep(3 * time.Millisecond)
			g.Close()
		}
		close(stop)
		others.Wait()
		probs.report(rt)
		// Steps that found the device busy are made up for.
		if !d.Next(1) {
			rt.Fatalf("the last step failed")
		}
		state("end", d.State())
		probs.report(rt)
		if !byGen && !near(d.Duration(), total+1, 1e-6*total) {
			rt.Fatalf("steps of %v s in all took %v s", total+1, d.Duration())
		}
		if byGen && d.Duration() < total+1-1e-6*total {
			rt.Fatalf("steps of more than %v s in all took %v s", total+1, d.Duration())
		}
		if mid.Load() > 0 {
			k.nontrivial()
		}
		if byGen {
			k.class("with a generator")
		}
	})
}

var colours = []colorful.Color{{R: 1}, {G: 1}, {B: 1}, {}}

type sharedOp struct{ kind, dev, a, b int }

// TestP25_Shared: goroutines use the same devices and the same running
// generator in every way. Each owns some sensors, routes and devices that only
// it adds and removes, so that what must be there at the end is known.
func TestP25_Shared(t *testing.T) {
	check(t, 60, func(rt *rapid.T, k *kase) {
		defer procs(rt)()
		nd := intn(rt, 1, 3, "devices")
		var devs []*gpsgen.Device
		var base [][]string
		var baseDist []float64
		for i := 0; i < nd+1; i++ { // the last one is also restored and reset
			o := genOptions(rt)
			o.ID = fmt.Sprintf("device %d", i)
			d, it := genDevice(rt, o, smallItin(), 2)
			devs = append(devs, d)
			var ids []string
			for _, r := range it.routes {
				ids = append(ids, r.ID())
			}
			base = append(base, ids)
			baseDist = append(baseDist, d.Distance())
		}
		snap := must(devs[nd].MarshalBinary())
		g := gpsgen.New(&gpsgen.Options{Interval: time.Millisecond, PacketSize: 1024, NumWorkers: intn(rt, 1, 4, "workers")})
		for _, d := range devs {
			noErr(g.Attach(d))
		}
		scripts := make([][]sharedOp, intn(rt, 2, 5, "goroutines"))
		for i := range scripts {
			for j := intn(rt, 5, 50, "nops"); j > 0; j-- {
				scripts[i] = append(scripts[i], sharedOp{intn(rt, 0, 29, "kind"), intn(rt, 0, nd, "dev"), intn(rt, 0, 3, "a"), intn(rt, 0, 3, "b")})
			}
		}
		k.note("devices %d scripts %v", nd, scripts)
		var probs problems
		var packets, ops atomic.Int64
		onPacket := func(data []byte) {
			packets.Add(1)
			p, err := gpsgen.PacketFromBytes(data)
			if err != nil || len(p.Devices) == 0 {
				probs.add("packet: %v %v", err, p)
				return
			}
			for _, s := range p.Devices {
				if bad := checkFinite(s.ProtoReflect()); bad != "" {
					probs.add("packet: %s", bad)
				}
				if d, ok := g.Lookup(s.Id); ok {
					d.State()
				}
			}
		}
		onNext := func() { g.NumDevices() }
		g.OnPacket(onPacket)
		g.OnNext(onNext)
		done := make(chan struct{})
		go func() { defer close(done); g.Run() }()

		// What each goroutine owns on each shared device.
		type owned struct {
			sensors [2]*types.Sensor
			routes  [2]*navigator.Route
			dist    [2]float64
			inS     [2]bool
			inR     [2]bool
			ntracks [2]int
			tracks  [2]float64
			cut     [2]bool // the second track was removed
		}
		own := make([][]*owned, len(scripts))
		side := make([]*gpsgen.Device, len(scripts))
		sideIn := make([]bool, len(scripts))
		for i := range scripts {
			for range devs {
				o := &owned{}
				for n := 0; n < 2; n++ {
					o.sensors[n] = genSensor(rt)
					a, b := genPath(rt, defaultPath()), genPath(rt, defaultPath())
					o.routes[n] = routeOf(a, b)
					o.dist[n], o.tracks[n] = o.routes[n].Distance(), o.routes[n].TrackAt(0).Distance()
				}
				own[i] = append(own[i], o)
			}
			o := genOptions(rt)
			o.ID = fmt.Sprintf("side %d", i)
			side[i], _ = genDevice(rt, o, smallItin(), 1)
		}
		// The ids are read here, not while the devices use the routes.
		rid := func(r *navigator.Route) string { return r.ID() }
		tid := make([][][2]string, len(scripts))
		for i := range scripts {
			for j := range devs {
				tid[i] = append(tid[i], [2]string{own[i][j].routes[0].TrackAt(1).ID(), own[i][j].routes[1].TrackAt(1).ID()})
			}
		}

		var wg sync.WaitGroup
		for i, script := range scripts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, o := range script {
					ops.Add(1)
					d, w := devs[o.dev], own[i][o.dev]
					a, n := o.a, o.b%2
					switch o.kind {
					case 0, 1:
						if bad := checkFinite(d.State().ProtoReflect()); bad != "" {
							probs.add("state: %s", bad)
						}
					case 2, 3:
						d.Next(float64(a) + 0.5)
					case 4:
						d.Update()
					case 5:
						if s := d.Snapshot(); s.Navigator == nil {
							probs.add("snapshot without a navigator")
						}
					case 6:
						data, err := d.MarshalBinary()
						if err == nil {
							err = new(gpsgen.Device).UnmarshalBinary(data)
						}
						if err != nil {
							probs.add("encoding: %v", err)
						}
					case 7:
						d.ID()
						d.Model()
						d.UserID()
						d.Color()
						d.Descr()
						d.Status()
						d.NumRoutes()
						d.NumSensors()
						d.Duration()
						d.Version()
						d.IsFinish()
						d.IsOffline()
						d.Location()
						d.CurrentBearing()
						d.RouteIndex()
						d.TrackIndex()
						d.SegmentIndex()
					case 8:
						for _, x := range []float64{d.Distance(), d.RouteDistance(), d.TrackDistance(), d.SegmentDistance(), d.CurrentDistance(),
							d.CurrentRouteDistance(), d.CurrentTrackDistance(), d.CurrentSegmentDistance()} {
							if math.IsNaN(x) || math.IsInf(x, 0) || x < 0 {
								probs.add("a distance is %v", x)
							}
						}
						d.CurrentRoute()
						d.CurrentTrack()
						d.CurrentSegment()
					case 9:
						d.DestinationTo(float64(a * 100))
					case 10:
						d.MoveToSegment(o.b, a, o.b)
						d.MoveToTrack(a, o.b)
						d.MoveToRoute(a)
					case 11:
						d.MoveToRouteByID(base[o.dev][a%len(base[o.dev])])
						d.MoveToTrackByID(rid(w.routes[n]), tid[i][o.dev][n])
					case 12:
						d.ToNextRoute()
						d.ToPrevRoute()
					case 13:
						d.ToOffline()
						d.ResetNavigator()
					case 14, 15:
						noErr(d.AddRoute(w.routes[n]))
						w.inR[n] = true
					case 16:
						if ok := d.RemoveRoute(rid(w.routes[n])); ok != w.inR[n] && o.dev < nd {
							probs.add("removing a route: %v", ok)
						}
						w.inR[n] = false
					case 17:
						ok := d.RemoveTrack(rid(w.routes[n]), tid[i][o.dev][n])
						if o.dev < nd {
							if want := w.inR[n] && !w.cut[n]; ok != want {
								probs.add("removing a track: %v, want %v", ok, want)
							}
						}
						w.cut[n] = w.cut[n] || ok
					case 18, 19:
						d.AddSensor(w.sensors[n])
						w.inS[n] = true
						if _, ok := d.SensorByID(w.sensors[n].ID()); !ok && o.dev < nd {
							probs.add("a sensor that was added is missing")
						}
					case 20:
						if ok := d.RemoveSensor(w.sensors[n].ID()); ok != w.inS[n] && o.dev < nd {
							probs.add("removing a sensor: %v", ok)
						}
						w.inS[n] = false
					case 21:
						d.SensorAt(a)
						d.RouteAt(a)
						for i, x := range d.Sensors() {
							if x == nil {
								probs.add("sensor %d of the list is missing", i)
							}
						}
						for i, x := range d.Routes() {
							if x == nil {
								probs.add("route %d of the list is missing", i)
							}
						}
					case 22:
						d.EachSensor(func(_ int, s *types.Sensor) bool { return s.ID() != "" && a > 0 })
						d.EachRoute(func(_ int, r *navigator.Route) bool { return r.ID() != "" && a > 0 })
					case 23:
						noErr(d.SetModel(fmt.Sprintf("model %d %d", i, a)))
						noErr(d.SetUserID(fmt.Sprint(a)))
						d.SetDescription(fmt.Sprint(a))
						noErr(d.SetColor(colours[a]))
					case 24:
						if d == devs[nd] {
							switch a {
							case 0:
								d.ResetSensors()
							case 1:
								d.ResetRoutes()
							default:
								noErr(d.UnmarshalBinary(snap))
							}
						}
					case 25, 26:
						if sideIn[i] {
							if g.Attach(side[i]) == nil {
								probs.add("a running device was attached again")
							}
							noErr(g.Detach(side[i].ID()))
						} else {
							noErr(g.Attach(side[i]))
						}
						sideIn[i] = !sideIn[i]
						if _, ok := g.Lookup(side[i].ID()); ok != sideIn[i] {
							probs.add("lookup after a change: %v", ok)
						}
					case 27:
						g.NumDevices()
						g.HasTracker(d.ID())
						g.Each(func(n int, d *gpsgen.Device) bool { d.State(); return n < a })
					case 28:
						g.OnPacket(onPacket)
						g.OnNext(onNext)
						g.OnError(func(error) {})
					case 29:
						if d == devs[nd] {
							d.FromSnapshot(parseSnapshot(snap))
						}
						time.Sleep(time.Duration(a) * time.Millisecond)
					}
				}
			}()
		}
		wg.Wait()
		if coin.Draw(rt, "linger") {
			time.Sleep(2 * time.Millisecond)
		}
		g.Close()
		<-done
		probs.report(rt)

		want := nd + 1
		for _, in := range sideIn {
			if in {
				want++
			}
		}
		if g.NumDevices() != want {
			rt.Fatalf("%d devices, want %d", g.NumDevices(), want)
		}
		for j := 0; j < nd; j++ {
			ids := append([]string{}, base[j]...)
			dist := baseDist[j]
			var sens []string
			for i := range scripts {
				w := own[i][j]
				for n := 0; n < 2; n++ {
					if w.inR[n] {
						ids = append(ids, w.routes[n].ID())
						if w.cut[n] {
							dist += w.tracks[n]
						} else {
							dist += w.dist[n]
						}
					}
					if w.inS[n] {
						sens = append(sens, w.sensors[n].ID())
					}
				}
			}
			var got []string
			devs[j].EachRoute(func(_ int, r *navigator.Route) bool { got = append(got, r.ID()); return true })
			sort.Strings(ids)
			sort.Strings(got)
			if fmt.Sprint(got) != fmt.Sprint(ids) {
				rt.Fatalf("device %d has routes %v, want %v", j, got, ids)
			}
			if !near(devs[j].Distance(), dist, 1e-6*(1+dist)) {
				rt.Fatalf("device %d has distance %v, want %v", j, devs[j].Distance(), dist)
			}
			have := map[string]bool{}
			devs[j].EachSensor(func(_ int, s *types.Sensor) bool { have[s.ID()] = true; return true })
			for _, id := range sens {
				if !have[id] {
					rt.Fatalf("device %d lost a sensor", j)
				}
				delete(have, id)
			}
			for i := range scripts {
				for n := 0; n < 2; n++ {
					if have[own[i][j].sensors[n].ID()] {
						rt.Fatalf("device %d has a sensor that was removed", j)
					}
				}
			}
			// The device still works.
			if bad := usable(devs[j]); bad != "" {
				rt.Fatalf("device %d: %s", j, bad)
			}
		}
		if ops.Load() > 10 {
			k.nontrivial()
		}
		if packets.Load() > 0 {
			k.class("packets delivered meanwhile")
		}
	})
}

// usable steps a device on until it moves and checks what it publishes.
func usable(d *gpsgen.Device) string {
	for i := 0; i < 200; i++ {
		if d.Next(0.01) {
			return checkState(d)
		}
	}
	return ""
}

// TestP25_Released: whatever a method is called with, the device can be used
// afterwards. A step shows whether it can, as it does not wait for the device.
func TestP25_Released(t *testing.T) {
	check(t, 150, func(rt *rapid.T, k *kase) {
		d := must(gpsgen.NewDevice(steadyOptions(5)))
		base := routeOf([]pt{{Lat: 1, Lon: 1}, {Lat: 1, Lon: 20}, {Lat: 2, Lon: 30}}, []pt{{Lat: 2, Lon: 30}, {Lat: 1, Lon: 80}})
		noErr(d.AddRoute(base))
		own := []*navigator.Route{base} // the first one stays
		var sensors []*types.Sensor
		str := func() string {
			return oneOf(rt, "str", "", "a", "abc", "unknown", strings.Repeat("x", 64), strings.Repeat("x", 65), strings.Repeat("y", 300), "\xff")
		}
		index := func() int { return oneOf(rt, "index", -1, 0, 0, 1, 1, 2, 100, -100) }
		routeID := func() string {
			if chance(rt, 40, "unknown") {
				return str()
			}
			return own[intn(rt, 0, len(own)-1, "route")].ID()
		}
		sensorID := func() string {
			if len(sensors) == 0 || chance(rt, 40, "unknown") {
				return str()
			}
			return sensors[intn(rt, 0, len(sensors)-1, "sensor")].ID()
		}
		trackID := func() string {
			if chance(rt, 40, "unknown") {
				return str()
			}
			if tr := own[intn(rt, 0, len(own)-1, "route")].TrackAt(0); tr != nil {
				return tr.ID()
			}
			return str()
		}
		g := gpsgen.New(nil)
		defer g.Close()
		var snap []byte
		ops := map[string]func(){
			"SetModel":       func() { _ = d.SetModel(str()) },
			"SetUserID":      func() { _ = d.SetUserID(str()) },
			"SetDescription": func() { d.SetDescription(oneOf(rt, "descr", "", "text")) },
			"SetColor": func() {
				_ = d.SetColor(oneOf(rt, "color", colorful.Color{R: 1}, colorful.Color{R: -1}, colorful.Color{G: 2}, colorful.Color{}))
			},
			"AddSensor": func() {
				var l []*types.Sensor
				for i := intn(rt, 0, 3, "nsensors"); i > 0; i-- {
					switch {
					case chance(rt, 20, "nil"):
						l = append(l, nil)
					case len(sensors) > 0 && chance(rt, 30, "again"):
						l = append(l, sensors[0])
					default:
						s := genSensor(rt)
						sensors = append(sensors, s)
						l = append(l, s)
					}
				}
				d.AddSensor(l...)
			},
			"ResetSensors": func() { d.ResetSensors() },
			"Sensors":      func() { d.Sensors() },
			"SensorByID":   func() { d.SensorByID(sensorID()) },
			"RemoveSensor": func() { d.RemoveSensor(sensorID()) },
			"SensorAt":     func() { d.SensorAt(index()) },
			"EachSensor":   func() { n := index(); d.EachSensor(func(i int, _ *types.Sensor) bool { return i != n }) },
			"EachRoute":    func() { n := index(); d.EachRoute(func(i int, _ *navigator.Route) bool { return i != n }) },
			"AddRoute": func() {
				var l []*navigator.Route
				for i := intn(rt, 0, 3, "nroutes"); i > 0; i-- {
					switch intn(rt, 0, 3, "what") {
					case 0:
						l = append(l, nil)
					case 1:
						l = append(l, own[intn(rt, 0, len(own)-1, "again")])
					default:
						r := routeOf(genPath(rt, defaultPath()), genPath(rt, defaultPath()))
						own = append(own, r)
						l = append(l, r)
					}
				}
				_ = d.AddRoute(l...)
			},
			"Routes": func() { d.Routes(); d.NumRoutes(); d.NumSensors() },
			"RemoveRoute": func() {
				if id := routeID(); id != base.ID() {
					d.RemoveRoute(id)
				}
			},
			"RemoveTrack": func() {
				if r, tr := routeID(), trackID(); r != base.ID() {
					d.RemoveTrack(r, tr)
				} else {
					d.RemoveTrack(r, str())
				}
			},
			"getters": func() {
				d.ID()
				d.Model()
				d.UserID()
				d.Color()
				d.Descr()
				d.Status()
				d.Duration()
				d.Version()
				d.IsFinish()
				d.IsOffline()
				d.Location()
				d.CurrentBearing()
			},
			"distances": func() {
				d.Distance()
				d.CurrentDistance()
				d.RouteDistance()
				d.CurrentRouteDistance()
				d.TrackDistance()
				d.CurrentTrackDistance()
				d.SegmentDistance()
				d.CurrentSegmentDistance()
			},
			"current": func() {
				d.CurrentRoute()
				d.CurrentTrack()
				d.CurrentSegment()
				d.RouteIndex()
				d.TrackIndex()
				d.SegmentIndex()
			},
			"State":           func() { d.State() },
			"Update":          func() { d.Update() },
			"DestinationTo":   func() { d.DestinationTo(oneOf(rt, "meters", -1, 0, 0.5, 1, 1000, 1e6, 1e9)) },
			"MoveToSegment":   func() { d.MoveToSegment(index(), index(), index()) },
			"MoveToTrack":     func() { d.MoveToTrack(index(), index()) },
			"MoveToRoute":     func() { d.MoveToRoute(index()) },
			"MoveToTrackByID": func() { d.MoveToTrackByID(routeID(), trackID()) },
			"MoveToRouteByID": func() { d.MoveToRouteByID(routeID()) },
			"ToPrevRoute":     func() { d.ToPrevRoute() },
			"ToNextRoute":     func() { d.ToNextRoute() },
			"ToOffline":       func() { d.ToOffline() },
			"ResetNavigator":  func() { d.ResetNavigator() },
			"RouteAt":         func() { d.RouteAt(index()) },
			"Snapshot":        func() { d.Snapshot() },
			"MarshalBinary": func() {
				if data, err := d.MarshalBinary(); err == nil { // an id may not be valid UTF-8
					snap = data
				}
			},
			"UnmarshalBinary": func() {
				if snap != nil && coin.Draw(rt, "valid") {
					noErr(d.UnmarshalBinary(snap))
					// The routes are copies now.
					own = d.Routes()
					base = own[0]
					return
				}
				if d.UnmarshalBinary(oneOf(rt, "data", nil, []byte{}, []byte("garbage"), []byte{0xff, 0xff})) == nil {
					rt.Fatalf("garbage is taken for a snapshot")
				}
			},
			"FromSnapshot": func() {
				d.FromSnapshot(d.Snapshot())
				own = d.Routes()
				base = own[0]
			},
			"attach": func() {
				_ = g.Attach(d)
				if coin.Draw(rt, "twice") {
					_ = g.Attach(d)
				}
				g.Lookup(d.ID())
				g.Each(func(int, *gpsgen.Device) bool { return false })
				if coin.Draw(rt, "detach") {
					noErr(g.Detach(d.ID()))
				}
			},
		}
		var names []string
		for n := range ops {
			names = append(names, n)
		}
		sort.Strings(names)
		for i := length(rt, 1, 30, "steps"); i > 0; i-- {
			name := oneOf(rt, "op", names...)
			k.note("%s", name)
			ops[name]()
			ok := false
			// Tracks and laps may end, and a route may have no tracks.
			tries := 10
			for _, r := range d.Routes() {
				tries += 1 + r.NumTracks()
			}
			for j := 0; j < tries && !ok; j++ {
				ok = d.Next(0.001)
			}
			if !ok {
				rt.Fatalf("the device cannot be used any more after %s", name)
			}
			k.nontrivial()
		}
	})
}
