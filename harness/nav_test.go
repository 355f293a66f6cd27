package checks

import (
	"fmt"
	"math"
	"testing"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"pgregory.net/rapid"
)

func genSpeed(rt *rapid.T) float64 {
	return oneOf(rt, "speedclass", 0.2, 1, 3, 10, 40, 150, 900) * uni(rt, 0.5, 1, "speed")
}

// genStepTime draws the length of a step relative to the track, so that small
// moves, moves over several segments, exact landings and overshoots all occur.
func (m *navModel) genStepTime(rt *rapid.T, speed float64) float64 {
	tr := m.track()
	if tr == nil || speed <= 0 {
		return genTick(rt)
	}
	rest := tr.total - m.pos
	switch intn(rt, 0, 9, "st") {
	case 0, 1, 2:
		return uni(rt, 0, 1.02, "frac") * rest / speed
	case 3: // just beyond the end
		return (rest + oneOf(rt, "over", 0.001, 0.5, 50, 3000)) / speed
	case 4: // just before the end
		return math.Max(0, rest-oneOf(rt, "under", 0.0001, 0.01, 0.7)) / speed
	case 5, 6: // around the end of a segment ahead
		if tr.total > 0 {
			i := intn(rt, m.si, len(tr.len)-1, "target")
			return math.Max(0, tr.prefix[i+1]-m.pos+oneOf(rt, "off", -0.3, -0.001, 0, 0.001, 0.4)) / speed
		}
		return genTick(rt)
	case 7:
		return uni(rt, 0, 0.08, "tiny") * rest / speed
	default:
		return genTick(rt)
	}
}

// ---- P10 -----------------------------------------------------------------

// Random histories of steps (constant or varying speed) against the model.
func TestP10_Steps(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		o := genOptions(rt)
		lasting(o)
		varying := chance(rt, 30, "varying")
		speed := genSpeed(rt)
		if !varying {
			o.Speed.Min, o.Speed.Max = speed, speed
		}
		io := smallItin()
		io.path.maxPts = 10
		it := genItinerary(rt, io)
		m := newModelled(rt, o, it)
		k.note("%v speed %.4g varying %v", it, speed, varying)
		m.verify(rt, "AddRoute")
		n := length(rt, 1, 25, "steps")
		for i := 0; i < n && !m.old(); i++ {
			if m.offline > 0 && chance(rt, 70, "skipoffline") {
				for m.offline > 0 {
					m.step(rt, 0.5)
				}
			}
			dt := m.genStepTime(rt, speed)
			k.note("%.5g", dt)
			m.step(rt, dt)
			m.verify(rt, fmt.Sprintf("Next(%v) (%s)", dt, m.lastOutcome))
		}
		if m.moved > 0 {
			k.nontrivial()
		}
		if m.crossed > 0 {
			k.class("crossed segments")
		}
		if m.switches > 0 {
			k.class("left a track")
		}
		if varying {
			k.class("varying speed")
		}
	})
}

// Steps that continue from wherever jumps and moves left the device.
func TestP10_StepsAfterJumpsAndMoves(t *testing.T) {
	check(t, 800, func(rt *rapid.T, k *kase) {
		speed := genSpeed(rt)
		o := steadyOptions(speed)
		it := genItinerary(rt, smallItin())
		m := newModelled(rt, o, it)
		k.note("%v speed %.4g", it, speed)
		n := length(rt, 2, 20, "ops")
		for i := 0; i < n && !m.old(); i++ {
			what := ""
			switch intn(rt, 0, 5, "op") {
			case 0:
				x := uni(rt, 0, 1.1, "jump") * m.total()
				what = fmt.Sprintf("DestinationTo(%v)", x)
				if m.jump(rt, x) {
					k.class("jumped")
				}
			case 1:
				ri := intn(rt, 0, len(m.routes)-1, "ri")
				ti := intn(rt, 0, len(m.routes[ri].tracks)-1, "ti")
				si := intn(rt, 0, len(m.routes[ri].tracks[ti].len)-1, "si")
				what = fmt.Sprintf("MoveToSegment(%d,%d,%d)", ri, ti, si)
				if got, want := m.dev.MoveToSegment(ri, ti, si), m.moveTo(ri, ti, si); got != want {
					rt.Fatalf("%s = %v", what, got)
				} else if got {
					k.class("moved")
				}
			default:
				dt := m.genStepTime(rt, speed)
				what = fmt.Sprintf("Next(%v)", dt)
				m.step(rt, dt)
			}
			k.note("%s", what)
			m.verify(rt, what)
		}
		if m.moved > 0 {
			k.nontrivial()
		}
	})
}

// The place reached depends on the total time on the track, not on its
// division into steps.
func TestP10_DivisionOfTime(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		speed := genSpeed(rt)
		po := defaultPath()
		po.maxPts = 12
		pts := genPath(rt, po)
		tr := newMTrack("", pts)
		if tr.total < 1e-3 {
			return
		}
		T := uni(rt, 0.02, 0.999, "total") * tr.total / speed
		run := func(parts []float64) *gpsgen.Device {
			d := must(gpsgen.NewDevice(steadyOptions(speed)))
			noErr(d.AddRoute(routeOf(pts)))
			sum := 0.0
			for _, p := range parts {
				sum += p
			}
			for i, p := range parts {
				if !d.Next(p / sum * T) {
					rt.Fatalf("step %d of %d of total time %v was not made (track %v m)", i, len(parts), T, tr.total)
				}
			}
			return d
		}
		gen := func() []float64 {
			parts := make([]float64, intn(rt, 1, 40, "parts"))
			small := chance(rt, 30, "uneven")
			for i := range parts {
				parts[i] = uni(rt, 0.1, 1, "part")
				if small && i%3 == 1 {
					parts[i] *= 0.001
				}
			}
			return parts
		}
		pa, pb := gen(), gen()
		a, b := run(pa), run(pb)
		k.note("%.4g m/s, %.4g s, track %.4g m, %d and %d steps", speed, T, tr.total, len(pa), len(pb))
		if len(pa) > 1 && len(pb) > 1 && len(pts) > 2 {
			k.nontrivial()
		}
		tol := 1e-5 + 1e-9*tr.total
		pos := func(d *gpsgen.Device) float64 { return tr.prefix[d.SegmentIndex()] + d.CurrentSegmentDistance() }
		for _, x := range []struct {
			what string
			a, b float64
		}{
			{"position", pos(a), pos(b)},
			{"position and speed times time", pos(a), speed * T},
			{"total odometer", a.CurrentDistance(), b.CurrentDistance()},
			{"route odometer", a.CurrentRouteDistance(), b.CurrentRouteDistance()},
			{"track odometer", a.CurrentTrackDistance(), b.CurrentTrackDistance()},
		} {
			if !near(x.a, x.b, tol) {
				rt.Fatalf("%s differ by division of time: %v and %v (%d and %d steps)", x.what, x.a, x.b, len(pa), len(pb))
			}
		}
		if len(pa) > 1 && len(pb) > 1 {
			if d := refDist(a.Location(), b.Location()); d > 2e-3 {
				rt.Fatalf("locations %v and %v differ by %v m (%d and %d steps)", a.Location(), b.Location(), d, len(pa), len(pb))
			}
		}
	})
}

// A step that ends exactly at the end of the track is still on the track. The
// numbers are chosen so that no rounding is involved.
func TestP10_ExactEnd(t *testing.T) {
	check(t, 800, func(rt *rapid.T, k *kase) {
		speed := oneOf(rt, "speed", 1.0, 2, 4, 8, 64, 0.5, 0.25)
		m := newModelled(rt, steadyOptions(speed), genItinerary(rt, smallItin()))
		d := m.dev
		for n := intn(rt, 1, 4, "tracks"); n > 0; n-- {
			ri := intn(rt, 0, len(m.routes)-1, "ri")
			ti := intn(rt, 0, len(m.routes[ri].tracks)-1, "ti")
			si := len(m.routes[ri].tracks[ti].len) - 1
			if got, want := d.MoveToSegment(ri, ti, si), m.moveTo(ri, ti, si); got != want {
				rt.Fatalf("MoveToSegment(%d,%d,%d) = %v", ri, ti, si, got)
			}
			length := d.SegmentDistance()
			if m.pos != m.track().prefix[si] || length < 1e-3 || d.CurrentSegmentDistance() != 0 {
				continue
			}
			k.nontrivial()
			k.note("segment %d of %.6g m at %v m/s", si, length, speed)
			before := [3]float64{d.CurrentDistance(), d.CurrentRouteDistance(), d.CurrentTrackDistance()}
			if !d.Next(length / speed) {
				rt.Fatalf("a step of %v m, exactly to the end of the last segment, was not made", length)
			}
			if d.RouteIndex() != ri || d.TrackIndex() != ti || d.SegmentIndex() != si {
				rt.Fatalf("at %d/%d/%d after a step to the end of %d/%d/%d", d.RouteIndex(), d.TrackIndex(), d.SegmentIndex(), ri, ti, si)
			}
			for i, now := range []float64{d.CurrentDistance(), d.CurrentRouteDistance(), d.CurrentTrackDistance()} {
				if !near(now, before[i]+length, m.tol()) {
					rt.Fatalf("odometer %d grew from %v to %v in a step of %v m", i, before[i], now, length)
				}
			}
			pts := m.track().pts
			if loc := d.Location(); refDist(loc, pts[len(pts)-1]) > 1e-3 && !(si == 0 && refDist(loc, m.track().pointAt(0, 1)) < 1e-3) {
				rt.Fatalf("location %v, want the end of the track %v", loc, pts[len(pts)-1])
			}
			if d.Next(0.01 / speed) {
				rt.Fatalf("a step beyond the end of the track was made")
			}
			m.ri, m.ti, m.si = d.RouteIndex(), d.TrackIndex(), d.SegmentIndex()
			m.pos = 0
			if si != 0 && m.si != 0 {
				rt.Fatalf("the next track starts at segment %d", m.si)
			}
		}
	})
}

// ---- P11 -----------------------------------------------------------------

func TestP11_Laps(t *testing.T) {
	check(t, 1200, func(rt *rapid.T, k *kase) {
		o := genOptions(rt)
		lasting(o)
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = 0, oneOf(rt, "offmax", 1, 2, 4)
		speed := genSpeed(rt)
		o.Speed.Min, o.Speed.Max = speed, speed
		io := itinOpts{minRoutes: 1, maxRoutes: 4, minTracks: 0, maxTracks: 4, path: defaultPath()}
		io.path.maxPts = 5
		it := genItinerary(rt, io)
		m := newModelled(rt, o, it)
		k.note("%v", it)
		var visited, want [][2]int
		var walked []float64 // distance travelled on each visited track
		tracks := 0
		for i := range it.points {
			tracks += len(it.points[i])
		}
		laps := length(rt, 1, 3, "laps")
		visited = append(visited, [2]int{0, 0})
		walked = append(walked, 0)
		finishes := 0
		for steps := 0; m.laps < laps; steps++ {
			if steps > 400 {
				break
			}
			var dt float64
			if tr := m.track(); tr != nil && steps < 200 {
				dt = uni(rt, 0.1, 0.9, "frac") * tr.total / speed
			} else if tr != nil {
				dt = tr.total/speed + 1
			} else {
				dt = 1
			}
			if m.offline > 0 {
				dt = 1
			}
			m.step(rt, dt)
			m.verify(rt, fmt.Sprintf("Next(%v) (%s)", dt, m.lastOutcome))
			if m.dev.IsFinish() && m.lastOutcome == "lap" {
				finishes++
			}
			switch m.lastOutcome {
			case "move":
				walked[len(walked)-1] += dt * speed
			case "switch", "lap":
				visited = append(visited, [2]int{m.dev.RouteIndex(), m.dev.TrackIndex()})
				walked = append(walked, 0)
			}
		}
		// every track of every route, in order, once per lap
		for l := 0; l < m.laps; l++ {
			for i := range it.points {
				n := len(it.points[i])
				if n == 0 {
					n = 1
				}
				for j := 0; j < n; j++ {
					want = append(want, [2]int{i, j})
				}
			}
		}
		for i := range want {
			if visited[i] != want[i] {
				rt.Fatalf("visited %v, want %v", visited, want)
			}
		}
		if finishes != m.laps {
			rt.Fatalf("%d laps finished, %d completed", finishes, m.laps)
		}
		if m.laps > 0 && m.moved > 0 && tracks > 1 {
			k.nontrivial()
		}
		if m.laps > 1 {
			k.class("several laps")
		}
		if tracks == 0 {
			k.class("no tracks")
		}
	})
}

// Laps with moves, jumps and offline requests in between.
func TestP11_LapsWithMoves(t *testing.T) {
	check(t, 800, func(rt *rapid.T, k *kase) {
		speed := genSpeed(rt)
		o := steadyOptions(speed)
		o.Navigator.SkipOffline = chance(rt, 60, "skip")
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = 0, oneOf(rt, "offmax", 1, 3)
		io := itinOpts{minRoutes: 1, maxRoutes: 3, minTracks: 0, maxTracks: 2, path: defaultPath()}
		io.path.maxPts = 4
		m := newModelled(rt, o, genItinerary(rt, io))
		k.note("%v", m.total())
		after := false
		for n := intn(rt, 5, 30, "actions"); n > 0; n-- {
			what := ""
			switch intn(rt, 0, 11, "action") {
			case 0:
				x := uni(rt, 0, 1.2, "x") * m.total()
				what = fmt.Sprintf("DestinationTo(%v)", x)
				m.jump(rt, x)
			case 1, 2:
				what = m.randomMove(rt, k)
			case 3:
				m.dev.ToOffline()
				m.dev.Update()
				m.goOffline(rt)
				what = "ToOffline"
			case 4:
				m.dev.Update()
				what = "Update"
			default:
				dt := m.genStepTime(rt, speed)
				if tr := m.track(); tr != nil && chance(rt, 60, "pass the end") {
					dt = (tr.total - m.pos + 1) / speed
				}
				m.step(rt, dt)
				what = fmt.Sprintf("Next(%v) (%s)", dt, m.lastOutcome)
			}
			k.note("%s", what)
			m.verify(rt, what)
			if after && !m.finished {
				k.class("no longer finished")
			}
			after = m.finished
		}
		if m.laps > 0 {
			k.nontrivial()
		}
	})
}

// ---- P12 -----------------------------------------------------------------

func TestP12_Offline(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		o := genOptions(rt)
		o.Navigator.SkipOffline = chance(rt, 15, "skip")
		o.Navigator.Offline.Min = oneOf(rt, "omin", 0, 1, 2, 3, 7, 20, intn(rt, 0, 3590, "min"))
		o.Navigator.Offline.Max = o.Navigator.Offline.Min + oneOf(rt, "ospan", 0, 1, 2, 3, 8)
		if o.Navigator.Offline.Max == 0 {
			o.Navigator.Offline.Max = 1
		}
		lasting(o)
		speed := genSpeed(rt)
		o.Speed.Min, o.Speed.Max = speed, speed
		it := genItinerary(rt, smallItin())
		m := newModelled(rt, o, it)
		k.note("%v offline %d..%d skip %v", it, m.offMin, m.offMax, m.skip)
		periods := 0
		n := length(rt, 5, 40, "ops")
		for i := 0; i < n && !m.old(); i++ {
			what := ""
			switch intn(rt, 0, 9, "op") {
			case 0:
				what = "ToOffline"
				m.dev.ToOffline()
				m.dev.Update()
				m.goOffline(rt)
				periods++
			case 1:
				ri := intn(rt, 0, len(m.routes)-1, "ri")
				ti := intn(rt, 0, len(m.routes[ri].tracks)-1, "ti")
				si := intn(rt, 0, len(m.routes[ri].tracks[ti].len)-1, "si")
				kind := intn(rt, 0, 3, "kind")
				if kind == 0 {
					ti, si = 0, 0
				} else if kind == 1 {
					si = 0
				}
				wasOff := m.offline > 0
				want := m.moveTo(ri, ti, si)
				var got bool
				switch kind {
				case 0:
					got = m.dev.MoveToRoute(ri)
				case 1:
					got = m.dev.MoveToTrack(ri, ti)
				default:
					got = m.dev.MoveToSegment(ri, ti, si)
				}
				what = fmt.Sprintf("move(%d,%d,%d)", ri, ti, si)
				if got != want {
					rt.Fatalf("%s = %v", what, got)
				}
				if got && wasOff {
					k.class("move ends offline")
				}
			case 2: // leave the track
				if tr := m.track(); m.offline == 0 && tr != nil {
					dt := (tr.total-m.pos)/speed + 1
					what = fmt.Sprintf("Next(%v)", dt)
					m.step(rt, dt)
					periods++
				}
			case 3: // sit out the period
				for m.offline > 0 {
					was := m.offline
					m.step(rt, 1)
					m.verify(rt, "offline step")
					k.class("sat out")
					if was == 1 && m.dev.IsOffline() {
						rt.Fatalf("still offline after the whole period")
					}
				}
			default:
				dt := m.genStepTime(rt, speed)
				what = fmt.Sprintf("Next(%v)", dt)
				m.step(rt, dt)
				if m.lastOutcome == "offline" {
					k.class("offline step")
				}
			}
			if what != "" {
				k.note("%s", what)
				m.verify(rt, what)
			}
		}
		if periods > 0 {
			k.nontrivial()
		}
		if m.skip {
			k.class("skip")
		}
	})
}

// The configured bounds are all there is: every value in them can occur.
func TestP12_OfflineRange(t *testing.T) {
	check(t, 150, func(rt *rapid.T, k *kase) {
		o := steadyOptions(10)
		o.Navigator.SkipOffline = false
		min := intn(rt, 0, 20, "min")
		if chance(rt, 30, "longer") {
			min = intn(rt, 0, 3596, "min")
		}
		max := min + intn(rt, 0, 4, "span")
		if chance(rt, 20, "wide") {
			max = intn(rt, max, 3600, "max")
		}
		if max == 0 {
			max = 1
		}
		o.Navigator.Offline.Min, o.Navigator.Offline.Max = min, max
		d := must(gpsgen.NewDevice(o))
		noErr(d.AddRoute(gpsgen.RandomRoute(10, 10, 1, 10)))
		seen := map[int64]int{}
		for i := 0; i < 200; i++ {
			d.ToOffline()
			d.Update()
			off := d.State().OfflineDuration
			if off < int64(min) || off > int64(max) {
				rt.Fatalf("offline for %d steps, configured %d..%d", off, min, max)
			}
			seen[off]++
		}
		k.note("%d..%d: %d different", min, max, len(seen))
		k.nontrivial()
		var low, high bool // a value in the lowest and the highest quarter
		for off := range seen {
			low = low || off <= int64(min+(max-min)/4)
			high = high || off >= int64(max-(max-min)/4)
		}
		if max-min >= 16 && !(low && high) {
			rt.Fatalf("200 offline periods in %d..%d leave out a quarter of it: %v", min, max, seen)
		}
		if max > min+1 && len(seen) < 2 {
			rt.Fatalf("200 offline periods in %d..%d all lasted %v", min, max, seen)
		}
	})
}

// An exhausted battery sends the device offline.
func TestP12_BatteryOffline(t *testing.T) {
	check(t, 500, func(rt *rapid.T, k *kase) {
		o := steadyOptions(0.001)
		o.Navigator.SkipOffline = chance(rt, 20, "skip")
		o.Navigator.Offline.Min = intn(rt, 1, 5, "min")
		o.Navigator.Offline.Max = o.Navigator.Offline.Min + intn(rt, 0, 5, "span")
		charge := intn(rt, 10, 5000, "charge")
		o.Battery.ChargeTime = dsec(float64(charge))
		o.Battery.Min = float64(intn(rt, 0, 90, "bmin"))
		m := newModelled(rt, o, itineraryOf([]pt{{Lat: 1, Lon: 1}, {Lat: 2, Lon: 2}}))
		life := float64(charge) * (100 - o.Battery.Min) / 100
		dead := 0
		used := 0.0
		n := length(rt, 3, 30, "steps")
		for i := 0; i < n && !m.old(); i++ {
			dt := uni(rt, 0.01, 0.6, "dt") * life
			used += dt
			low := used >= life
			if math.Abs(used-life) < 1e-6*life {
				return
			}
			wasOffline := m.offline > 0
			if low {
				used = 0
				dead++
				got := m.dev.Next(dt)
				m.dur += dt
				m.tick = dt
				if m.skip {
					if !got {
						rt.Fatalf("a device that skips offline mode did not move with an exhausted battery")
					}
					m.step2(rt, dt, 0.001)
				} else {
					if got {
						rt.Fatalf("device moved with an exhausted battery (offline before: %v)", wasOffline)
					}
					// the new offline period starts with this step
					off := int(m.dev.State().OfflineDuration)
					if off < m.offMin-1 || off > m.offMax-1 {
						rt.Fatalf("offline for %d more steps after the battery was exhausted, configured %d..%d", off, m.offMin, m.offMax)
					}
					m.offline = off
				}
			} else {
				m.step(rt, dt)
			}
			m.verify(rt, fmt.Sprintf("Next(%v)", dt))
		}
		k.note("charge %d s min %v%%, %d exhausted", charge, o.Battery.Min, dead)
		if dead > 0 {
			k.nontrivial()
		}
	})
}
