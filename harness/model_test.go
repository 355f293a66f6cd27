package checks

// A reference model of a device's itinerary and position. It measures a
// position along the polyline of the current track instead of keeping the
// library's counters, and it follows the device only where both outcomes are
// right (exactly at a boundary, up to rounding).

import (
	"fmt"
	"math"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	"pgregory.net/rapid"
)

type mTrack struct {
	id     string
	pts    []pt
	len    []float64 // length of every segment
	prefix []float64 // distance from the start of the track to segment i
	total  float64
}

func newMTrack(id string, pts []pt) *mTrack {
	t := &mTrack{id: id, pts: pts}
	for i := 0; i+1 < len(pts); i++ {
		t.prefix = append(t.prefix, t.total)
		l := refDist(pts[i], pts[i+1])
		t.len = append(t.len, l)
		t.total += l
	}
	t.prefix = append(t.prefix, t.total)
	return t
}

type mRoute struct {
	id     string
	h      *navigator.Route
	tracks []*mTrack
}

func (r *mRoute) total() (d float64) {
	for _, t := range r.tracks {
		d += t.total
	}
	return
}

func newMRoute(r *navigator.Route, pts [][]pt) *mRoute {
	m := &mRoute{id: r.ID(), h: r}
	for j := range pts {
		m.tracks = append(m.tracks, newMTrack(r.TrackAt(j).ID(), pts[j]))
	}
	return m
}

type navModel struct {
	dev    *gpsgen.Device
	routes []*mRoute

	ri, ti, si  int
	pos         float64 // position along the current track
	trackD      float64
	routeD      float64
	curD        float64
	pt          pt
	atStart     bool // location may be reported one metre from the start of the track
	offline     int
	skip        bool
	offMin      int
	offMax      int
	finished    bool
	finKnown    bool
	dur, tick   float64
	all         float64 // time of all steps
	speed       float64 // of the last step
	laps        int
	switches    int
	moved       int
	crossed     int // steps over more than one segment
	lastOutcome string

	heldRoutes, heldCopy []*navigator.Route // a list Routes returned and what was in it
}

func newNavModel(dev *gpsgen.Device, o *gpsgen.DeviceOptions) *navModel {
	return &navModel{
		dev: dev, skip: o.Navigator.SkipOffline,
		offMin: o.Navigator.Offline.Min, offMax: o.Navigator.Offline.Max,
		finKnown: true,
	}
}

func (m *navModel) track() *mTrack {
	if m.ri >= len(m.routes) || m.ti >= len(m.routes[m.ri].tracks) {
		return nil
	}
	return m.routes[m.ri].tracks[m.ti]
}

func (m *navModel) total() (d float64) {
	for _, r := range m.routes {
		d += r.total()
	}
	return
}

func (m *navModel) tol() float64 { return 1e-5 + 1e-9*(m.total()+m.curD) }

// lasting gives a device a battery that is full for all of a modelled history.
func lasting(o *gpsgen.DeviceOptions) {
	o.Battery.Min = 0
	o.Battery.ChargeTime = math.MaxInt64
}

// old is true when the history goes on for about as long as such a battery.
func (m *navModel) old() bool { return m.all > 1e9 }

func (m *navModel) reset() {
	m.ri, m.ti, m.si, m.pos, m.trackD, m.routeD, m.curD = 0, 0, 0, 0, 0, 0, 0
	m.finKnown = false
}

// pointAt is the point pos metres along segment si of a track.
func (t *mTrack) pointAt(si int, d float64) pt {
	if t.len[si] == 0 {
		return t.pts[si]
	}
	return refDest(t.pts[si], d, refBearing(t.pts[si], t.pts[si+1]))
}

// goOffline checks the offline time the device chose and takes it over.
func (m *navModel) goOffline(rt *rapid.T) {
	st := m.dev.State()
	off := int(st.OfflineDuration)
	if st.IsOffline != (off > 0) {
		rt.Fatalf("published offline status %v with %d steps to go", st.IsOffline, off)
	}
	if m.skip {
		if m.dev.IsOffline() {
			rt.Fatalf("a device that skips offline mode is offline")
		}
		m.offline = 0
		return
	}
	if off < m.offMin || off > m.offMax {
		rt.Fatalf("offline for %d steps, configured %d..%d", off, m.offMin, m.offMax)
	}
	m.offline = off
}

// step advances device and model by t seconds.
func (m *navModel) step(rt *rapid.T, t float64) bool {
	d := m.dev
	loc := d.Location()
	got := d.Next(t)
	if len(m.routes) == 0 {
		m.lastOutcome = "noroutes"
		if got {
			rt.Fatalf("Next(%v) without routes returned true", t)
		}
		return false
	}
	st := d.State()
	m.speed = st.Speed
	m.dur += t
	m.all += t
	m.tick = t
	if m.offline > 0 {
		m.lastOutcome = "offline"
		m.offline--
		if got {
			rt.Fatalf("Next(%v) returned true while offline", t)
		}
		if st.OfflineDuration != int64(m.offline) || st.IsOffline != (m.offline > 0) {
			rt.Fatalf("published offline countdown %d (%v), want %d", st.OfflineDuration, st.IsOffline, m.offline)
		}
		return false
	}
	m.finished, m.finKnown = false, true
	tr := m.track()
	dist := t * m.speed
	move := false
	if tr != nil {
		rest := tr.total - m.pos
		switch {
		case dist < rest-m.tol():
			move = true
		case dist > rest+m.tol():
		default:
			move = got
		}
	}
	if move != got {
		rt.Fatalf("Next(%v) at %.3f m/s returned %v, want %v: %d/%d/%d, %.6f m along a track of %v", t, m.speed, got, move, m.ri, m.ti, m.si, m.pos, tr)
	}
	if !move {
		m.switchTrack(rt, loc)
		return false
	}
	m.moved++
	m.lastOutcome = "move"
	wasStart := m.pos == 0
	old := m.si
	m.pos += dist
	m.trackD += dist
	m.routeD += dist
	m.curD += dist
	m.sync(rt, old)
	if m.si > old {
		m.crossed++
	}
	m.pt = tr.pointAt(m.si, m.pos-tr.prefix[m.si])
	m.atStart = wasStart && m.si == 0
	if m.offline != 0 || d.IsOffline() {
		rt.Fatalf("offline after a successful step")
	}
	return true
}

func (m *navModel) switchTrack(rt *rapid.T, loc pt) {
	m.lastOutcome = "switch"
	m.switches++
	m.si, m.pos, m.trackD = 0, 0, 0
	if r := m.routes[m.ri]; m.ti < len(r.tracks)-1 {
		m.ti++
	} else {
		m.ti, m.routeD = 0, 0
		if m.ri < len(m.routes)-1 {
			m.ri++
		} else {
			m.ri, m.curD, m.dur = 0, 0, 0
			m.finished = true
			m.laps++
			m.lastOutcome = "lap"
		}
	}
	if now := m.dev.Location(); now != loc {
		if tr := m.track(); tr == nil || refDist(now, tr.pts[0]) > 1e-3 {
			rt.Fatalf("leaving a track moved the device from %v to %v", loc, now)
		}
		m.pt = now
	}
	m.goOffline(rt)
}

// sync takes the current segment from the device where it names the same
// position on the track.
func (m *navModel) sync(rt *rapid.T, min int) {
	tr := m.track()
	si, sd := m.dev.SegmentIndex(), m.dev.CurrentSegmentDistance()
	if si < 0 || si >= len(tr.len) {
		rt.Fatalf("segment index %d of a track with %d segments", si, len(tr.len))
	}
	if si < min {
		rt.Fatalf("a step moved back from segment %d to %d", min, si)
	}
	if sd < -m.tol() || sd > tr.len[si]+m.tol() {
		rt.Fatalf("segment odometer %.9f on segment %d of length %.9f", sd, si, tr.len[si])
	}
	if !near(tr.prefix[si]+sd, m.pos, m.tol()) {
		rt.Fatalf("at segment %d + %.9f m = %.9f m along the track, want %.9f (segments %v)", si, sd, tr.prefix[si]+sd, m.pos, tr.len)
	}
	m.si = si
}

func (m *navModel) jump(rt *rapid.T, meters float64) bool {
	d := m.dev
	got := d.DestinationTo(meters)
	total := m.total()
	x := math.Min(meters, total)
	want := x >= 1
	if x != meters && math.Abs(x-1) < 1e-6 || math.Abs(total-1) < 1e-6 {
		want = got
	}
	if got != want {
		rt.Fatalf("DestinationTo(%v) = %v, total distance %v", meters, got, total)
	}
	if !got {
		m.lastOutcome = "refused"
		return false
	}
	m.lastOutcome = "jump"
	// where is it along the itinerary
	ri, ti, si := d.RouteIndex(), d.TrackIndex(), d.SegmentIndex()
	if ri < 0 || ri >= len(m.routes) || ti < 0 || ti >= len(m.routes[ri].tracks) || si < 0 || si >= len(m.routes[ri].tracks[ti].len) {
		rt.Fatalf("DestinationTo(%v): indices %d/%d/%d do not exist", meters, ri, ti, si)
	}
	before, beforeR := 0.0, 0.0
	for i := 0; i < ri; i++ {
		before += m.routes[i].total()
	}
	for j := 0; j < ti; j++ {
		beforeR += m.routes[ri].tracks[j].total
	}
	tr := m.routes[ri].tracks[ti]
	sd := d.CurrentSegmentDistance()
	tol := m.tol()
	if sd < -tol || sd > tr.len[si]+tol {
		rt.Fatalf("DestinationTo(%v): segment odometer %.9f on a segment of %.9f m", meters, sd, tr.len[si])
	}
	if at := before + beforeR + tr.prefix[si] + sd; !near(at, x, tol) {
		rt.Fatalf("DestinationTo(%v) landed at %d/%d/%d + %.6f m, which is %.6f m along the itinerary", meters, ri, ti, si, sd, at)
	}
	m.ri, m.ti, m.si = ri, ti, si
	m.pos = tr.prefix[si] + sd
	m.trackD = m.pos
	m.routeD = beforeR + m.pos
	m.curD = x
	m.pt = tr.pointAt(si, sd)
	m.atStart = false
	m.finished, m.finKnown = false, true
	return true
}

// moveTo is the effect of moving to a segment; it reports whether the move is
// possible.
func (m *navModel) moveTo(ri, ti, si int) bool {
	if ri < 0 || ri >= len(m.routes) || ti < 0 || ti >= len(m.routes[ri].tracks) {
		return false
	}
	tr := m.routes[ri].tracks[ti]
	if si < 0 || si >= len(tr.len) {
		return false
	}
	if ri == m.ri && ti == m.ti && si == m.si {
		return false
	}
	if ri != m.ri {
		m.routeD, m.trackD = 0, 0
	}
	if ti != m.ti {
		m.trackD = 0
	}
	m.ri, m.ti, m.si = ri, ti, si
	m.pos = tr.prefix[si]
	m.pt = tr.pts[si]
	m.atStart = false
	m.offline = 0
	m.finished, m.finKnown = false, true
	return true
}

// verify compares everything the device reports with the model.
func (m *navModel) verify(rt *rapid.T, what string) {
	d := m.dev
	fail := func(format string, args ...any) {
		rt.Fatalf("after %s: %s", what, fmt.Sprintf(format, args...))
	}
	tol := m.tol()
	if d.RouteIndex() != m.ri || d.TrackIndex() != m.ti || d.SegmentIndex() != m.si {
		fail("at %d/%d/%d, want %d/%d/%d", d.RouteIndex(), d.TrackIndex(), d.SegmentIndex(), m.ri, m.ti, m.si)
	}
	if !near(d.CurrentDistance(), m.curD, tol) {
		fail("total odometer %.9f, want %.9f", d.CurrentDistance(), m.curD)
	}
	if !near(d.CurrentRouteDistance(), m.routeD, tol) {
		fail("route odometer %.9f, want %.9f", d.CurrentRouteDistance(), m.routeD)
	}
	if !near(d.CurrentTrackDistance(), m.trackD, tol) {
		fail("track odometer %.9f, want %.9f", d.CurrentTrackDistance(), m.trackD)
	}
	if !near(d.Distance(), m.total(), tol) {
		fail("total distance %.9f, want %.9f", d.Distance(), m.total())
	}
	if d.IsOffline() != (m.offline > 0) {
		fail("offline %v, want %d steps", d.IsOffline(), m.offline)
	}
	if !near(d.Duration(), m.dur, 1e-6+1e-9*m.dur) {
		fail("duration %.9f, want %.9f", d.Duration(), m.dur)
	}
	if got := d.State().Tick; !near(got, m.tick, 1e-9*(1+m.tick)) {
		fail("tick %.9f, want %.9f", got, m.tick)
	}
	if m.finKnown && d.IsFinish() != m.finished {
		fail("IsFinish %v, want %v", d.IsFinish(), m.finished)
	}
	tr := m.track()
	sd, seg, bearing := 0.0, 0.0, 0.0
	if tr != nil {
		sd = m.pos - tr.prefix[m.si]
		seg = tr.len[m.si]
		if seg > 0 {
			bearing = refBearing(tr.pts[m.si], tr.pts[m.si+1])
		}
	}
	if !near(d.CurrentSegmentDistance(), sd, tol) {
		fail("segment odometer %.9f, want %.9f", d.CurrentSegmentDistance(), sd)
	}
	if !near(d.SegmentDistance(), seg, tol) {
		fail("segment length %.9f, want %.9f", d.SegmentDistance(), seg)
	}
	if seg > 1e-3 && angleDiff(d.CurrentBearing(), bearing) > 1e-4/seg+1e-6 {
		fail("bearing %.9f, want %.9f", d.CurrentBearing(), bearing)
	}
	trackLen := 0.0
	var routeLen float64
	if m.ri < len(m.routes) {
		routeLen = m.routes[m.ri].total()
		if r := d.CurrentRoute(); r == nil || r.ID() != m.routes[m.ri].id {
			fail("wrong current route")
		}
	} else if d.CurrentRoute() != nil {
		fail("a current route without routes")
	}
	if tr != nil {
		trackLen = tr.total
		if t := d.CurrentTrack(); t == nil || t.ID() != tr.id {
			fail("wrong current track")
		}
		if s := d.CurrentSegment(); seg > 0 && (s.PointA() != tr.pts[m.si] || s.PointB() != tr.pts[m.si+1]) {
			fail("wrong current segment")
		}
	} else if d.CurrentTrack() != nil {
		fail("a current track without tracks")
	}
	if !near(d.RouteDistance(), routeLen, tol) {
		fail("route length %.9f, want %.9f", d.RouteDistance(), routeLen)
	}
	if !near(d.TrackDistance(), trackLen, tol) {
		fail("track length %.9f, want %.9f", d.TrackDistance(), trackLen)
	}
	loc := d.Location()
	if dd := refDist(loc, m.pt); !(dd < 1e-3) {
		ok := false
		if m.atStart && tr != nil && seg > 0 {
			ok = refDist(loc, tr.pointAt(m.si, 1)) < 1e-3
		}
		if !ok {
			fail("location %v, want %v (%.6f m away), at %d/%d/%d", loc, m.pt, dd, m.ri, m.ti, m.si)
		}
		m.pt = loc
	} else {
		m.pt = loc
	}
}

// device builds a device with an itinerary, and its model.
func newModelled(rt *rapid.T, o *gpsgen.DeviceOptions, it itinerary) *navModel {
	d := must(gpsgen.NewDevice(o))
	m := newNavModel(d, o)
	if len(it.routes) > 0 {
		noErr(d.AddRoute(it.routes...))
	}
	for i, r := range it.routes {
		m.routes = append(m.routes, newMRoute(r, it.points[i]))
	}
	return m
}

func (it itinerary) String() string {
	s := ""
	for i := range it.points {
		s += "["
		for j := range it.points[i] {
			if j > 0 {
				s += " "
			}
			s += "("
			for k := 0; k+1 < len(it.points[i][j]); k++ {
				if k > 0 {
					s += ","
				}
				s += fmt.Sprintf("%.4g", refDist(it.points[i][j][k], it.points[i][j][k+1]))
			}
			s += ")"
		}
		s += "]"
	}
	return s
}
