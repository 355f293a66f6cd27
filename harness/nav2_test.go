package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"testing"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// ---- P13 -----------------------------------------------------------------

func TestP13_Jump(t *testing.T) {
	check(t, 2500, func(rt *rapid.T, k *kase) {
		speed := genSpeed(rt)
		io := itinOpts{minRoutes: 0, maxRoutes: 4, minTracks: 0, maxTracks: 4, path: defaultPath()}
		it := genItinerary(rt, io)
		o := steadyOptions(speed)
		o.Navigator.SkipOffline = chance(rt, 50, "skip")
		m := newModelled(rt, o, it)
		k.note("%v", it)
		// boundaries of all segments along the itinerary
		bounds := []float64{0}
		at := 0.0
		for _, r := range m.routes {
			for _, tr := range r.tracks {
				for _, l := range tr.len {
					at += l
					bounds = append(bounds, at)
				}
			}
		}
		n := length(rt, 1, 12, "ops")
		for i := 0; i < n && !m.old(); i++ {
			var x float64
			switch intn(rt, 0, 9, "kind") {
			case 0:
				x = oneOf(rt, "x", 0, 0.5, 0.999, 1, 1, 1, -1, -1e9, 1.5)
			case 1:
				x = oneOf(rt, "x", 1, 1.0001, 2, 1000) * m.total()
			case 2:
				x = oneOf(rt, "x", math.Inf(1), 1e300, m.total()+0.5, m.total())
			case 3, 4:
				x = oneOf(rt, "bound", bounds...) + oneOf(rt, "off", 0, 0.001, -0.001, 0.3, -0.3, 1)
			case 5:
				dt := m.genStepTime(rt, speed)
				m.step(rt, dt)
				m.verify(rt, fmt.Sprintf("Next(%v)", dt))
				continue
			default:
				x = uni(rt, 0, 1, "x") * m.total()
			}
			k.note("%.6g", x)
			before := observe(m.dev)
			if m.jump(rt, x) {
				k.nontrivial()
				k.class("jumped")
				if m.ri > 0 {
					k.class("to a later route")
				}
				if m.ti > 0 {
					k.class("to a later track")
				}
			} else {
				k.class("refused")
				if diff := before.diff(observe(m.dev)); diff != "" {
					rt.Fatalf("a refused jump of %v changed the device: %s", x, diff)
				}
			}
			m.verify(rt, fmt.Sprintf("DestinationTo(%v)", x))
		}
	})
}

// ---- P14 -----------------------------------------------------------------

func (m *navModel) randomMove(rt *rapid.T, k *kase) (what string) {
	d := m.dev
	idx := func(n int, label string) int {
		if chance(rt, 12, label+"bad") {
			return oneOf(rt, label, -1, n, n+1, 1<<40, math.MinInt64, -7)
		}
		if n <= 0 {
			return 0
		}
		return intn(rt, 0, n-1, label)
	}
	before := observe(d)
	nr := len(m.routes)
	ri := idx(nr, "ri")
	var nt, ns int
	if ri >= 0 && ri < nr {
		nt = len(m.routes[ri].tracks)
	}
	ti := idx(nt, "ti")
	if ri >= 0 && ri < nr && ti >= 0 && ti < nt {
		ns = len(m.routes[ri].tracks[ti].len)
	}
	si := idx(ns, "si")
	var want, got bool
	switch intn(rt, 0, 6, "movekind") {
	case 0:
		what = fmt.Sprintf("MoveToSegment(%d,%d,%d)", ri, ti, si)
		want, got = m.moveTo(ri, ti, si), d.MoveToSegment(ri, ti, si)
	case 1:
		what = fmt.Sprintf("MoveToTrack(%d,%d)", ri, ti)
		want, got = m.moveTo(ri, ti, 0), d.MoveToTrack(ri, ti)
	case 2:
		what = fmt.Sprintf("MoveToRoute(%d)", ri)
		want, got = m.moveTo(ri, 0, 0), d.MoveToRoute(ri)
	case 3:
		id := genAbsentID(rt, m.routeIDs()...)
		ok := ri >= 0 && ri < nr && !chance(rt, 10, "unknown")
		if ok {
			id = m.routes[ri].id
		}
		what = fmt.Sprintf("MoveToRouteByID(#%d %v)", ri, ok)
		want, got = ok && m.moveTo(ri, 0, 0), d.MoveToRouteByID(id)
	case 4:
		rid, tid := genAbsentID(rt, m.routeIDs()...), genAbsentID(rt)
		okR := ri >= 0 && ri < nr
		okT := okR && ti >= 0 && ti < nt && !chance(rt, 10, "unknown")
		if okR {
			rid = m.routes[ri].id
		}
		if okT {
			tid = m.routes[ri].tracks[ti].id
		} else if okR && coin.Draw(rt, "neartrack") {
			tid = genAbsentID(rt, m.routes[ri].trackIDs()...)
		} else if nr > 0 && len(m.routes[0].tracks) > 0 && okR && ri != 0 {
			tid = m.routes[0].tracks[0].id // a track of another route
		}
		what = fmt.Sprintf("MoveToTrackByID(#%d,#%d %v)", ri, ti, okT)
		want, got = okT && m.moveTo(ri, m.routes[ri].first(tid), 0), d.MoveToTrackByID(rid, tid)
	case 5:
		what = "ToNextRoute()"
		want, got = m.moveTo(m.ri+1, 0, 0), d.ToNextRoute()
	default:
		what = "ToPrevRoute()"
		want, got = m.moveTo(m.ri-1, 0, 0), d.ToPrevRoute()
	}
	if got != want {
		rt.Fatalf("%s = %v, want %v (at %d/%d/%d)", what, got, want, before.ri, before.ti, before.si)
	}
	if got {
		k.class("moved")
		if loc := d.Location(); loc != m.pt {
			rt.Fatalf("%s put the device at %v, the segment starts at %v", what, loc, m.pt)
		}
		if d.IsOffline() {
			rt.Fatalf("%s left the device offline", what)
		}
	} else {
		k.class("refused")
		if diff := before.diff(observe(d)); diff != "" {
			rt.Fatalf("%s was refused but changed the device: %s", what, diff)
		}
	}
	return what
}

func (m *navModel) routeIDs() []string {
	var ids []string
	for _, r := range m.routes {
		ids = append(ids, r.id)
	}
	return ids
}

// first is the first track with an id: a route may go over a track again.
func (r *mRoute) first(id string) int {
	return slices.IndexFunc(r.tracks, func(t *mTrack) bool { return t.id == id })
}

func (r *mRoute) trackIDs() []string {
	var ids []string
	for _, t := range r.tracks {
		ids = append(ids, t.id)
	}
	return ids
}

func sensorIDs(list []*types.Sensor) []string {
	var ids []string
	for _, s := range list {
		ids = append(ids, s.ID())
	}
	return ids
}

// edit changes the itinerary through the device.
func (m *navModel) edit(rt *rapid.T, k *kase, io itinOpts) (what string) {
	d := m.dev
	switch intn(rt, 0, 5, "edit") {
	case 0, 1:
		n := intn(rt, 0, 3, "nargs")
		var args []*navigator.Route
		var added []*mRoute
		have := map[string]bool{}
		for _, r := range m.routes {
			have[r.id] = true
		}
		for i := 0; i < n; i++ {
			switch intn(rt, 0, 5, "arg") {
			case 0:
				args = append(args, nil)
			case 1:
				if len(m.routes) > 0 {
					args = append(args, m.routes[intn(rt, 0, len(m.routes)-1, "dup")].h)
				}
			case 2:
				if len(args) > 0 {
					args = append(args, args[len(args)-1])
				}
			default:
				r, pts := genRoute(rt, io)
				if ids := m.routeIDs(); len(ids) > 0 && chance(rt, 8, "nearid") {
					o := r
					r = navigator.RestoreRoute(nearID(rt, ids[intn(rt, 0, len(ids)-1, "to")]), "#ff0000", nil)
					for j := 0; j < o.NumTracks(); j++ {
						r.AddTrack(o.TrackAt(j))
					}
					k.class("id much like another")
				}
				args = append(args, r)
				if !have[r.ID()] {
					have[r.ID()] = true
					added = append(added, newMRoute(r, pts))
				}
			}
		}
		what = fmt.Sprintf("AddRoute(%d args, %d new)", len(args), len(added))
		err := d.AddRoute(args...)
		if (err != nil) != (len(args) == 0) {
			rt.Fatalf("%s: error %v", what, err)
		}
		if len(added) > 0 {
			m.routes = append(m.routes, added...)
			m.reset()
			k.class("added")
		}
	case 2:
		id := genAbsentID(rt, m.routeIDs()...)
		at := -1
		if len(m.routes) > 0 && chance(rt, 85, "known") {
			at = intn(rt, 0, len(m.routes)-1, "which")
			id = m.routes[at].id
		}
		what = fmt.Sprintf("RemoveRoute(#%d)", at)
		if got := d.RemoveRoute(id); got != (at >= 0) {
			rt.Fatalf("%s = %v", what, got)
		}
		if at >= 0 {
			m.routes = append(append([]*mRoute{}, m.routes[:at]...), m.routes[at+1:]...)
			m.reset()
			k.class("removed route")
		}
	case 3, 4:
		rid, tid := "nope", "nope"
		ri, ti := -1, -1
		if len(m.routes) > 0 {
			ri = intn(rt, 0, len(m.routes)-1, "which")
			rid = m.routes[ri].id
			if n := len(m.routes[ri].tracks); n > 0 && chance(rt, 85, "known") {
				ti = intn(rt, 0, n-1, "whichT")
				tid = m.routes[ri].tracks[ti].id
				ti = m.routes[ri].first(tid)
			} else {
				tid = genAbsentID(rt, m.routes[ri].trackIDs()...)
			}
		}
		what = fmt.Sprintf("RemoveTrack(#%d,#%d)", ri, ti)
		if got := d.RemoveTrack(rid, tid); got != (ti >= 0) {
			rt.Fatalf("%s = %v", what, got)
		}
		if ti >= 0 {
			r := m.routes[ri]
			r.tracks = append(append([]*mTrack{}, r.tracks[:ti]...), r.tracks[ti+1:]...)
			m.reset()
			k.class("removed track")
		}
	default:
		if chance(rt, 50, "resetnav") {
			what = "ResetNavigator()"
			d.ResetNavigator()
			m.reset()
			break
		}
		if !chance(rt, 40, "really") {
			return ""
		}
		what = "ResetRoutes()"
		if got := d.ResetRoutes(); got != (len(m.routes) > 0) {
			rt.Fatalf("%s = %v with %d routes", what, got, len(m.routes))
		}
		if len(m.routes) > 0 {
			m.routes = nil
			m.reset()
			k.class("reset")
		}
	}
	return what
}

func (m *navModel) verifyIndicesExist(rt *rapid.T, what string) {
	d := m.dev
	n := 0
	for _, r := range m.routes {
		n += len(r.tracks)
	}
	if n == 0 {
		return
	}
	r := d.CurrentRoute()
	if r == nil || d.RouteAt(d.RouteIndex()) != r {
		rt.Fatalf("after %s: route index %d names no route", what, d.RouteIndex())
	}
	if r.NumTracks() == 0 {
		return
	}
	tr := d.CurrentTrack()
	if tr == nil || r.TrackAt(d.TrackIndex()) != tr {
		rt.Fatalf("after %s: track index %d names no track", what, d.TrackIndex())
	}
	if si := d.SegmentIndex(); si < 0 || si >= tr.NumSegments() {
		rt.Fatalf("after %s: segment index %d of %d", what, si, tr.NumSegments())
	}
}

func TestP14_Moves(t *testing.T) {
	check(t, 2500, func(rt *rapid.T, k *kase) {
		speed := genSpeed(rt)
		io := itinOpts{minRoutes: 0, maxRoutes: 4, minTracks: 0, maxTracks: 4, path: defaultPath()}
		io.path.maxPts = 5
		it := genItinerary(rt, io)
		o := steadyOptions(speed)
		o.Navigator.SkipOffline = chance(rt, 40, "skip")
		m := newModelled(rt, o, it)
		k.note("%v", it)
		n := length(rt, 3, 30, "ops")
		for i := 0; i < n && !m.old(); i++ {
			what := ""
			switch intn(rt, 0, 9, "op") {
			case 0:
				dt := m.genStepTime(rt, speed)
				if m.offline > 0 {
					dt = 1
				}
				m.step(rt, dt)
				what = fmt.Sprintf("Next(%v)", dt)
			case 1:
				x := uni(rt, 0, 1.05, "jump") * m.total()
				m.jump(rt, x)
				what = fmt.Sprintf("DestinationTo(%v)", x)
			case 2:
				if !chance(rt, 60, "doedit") {
					continue
				}
				what = m.edit(rt, k, io)
			case 3:
				if m.track() != nil && m.offline == 0 {
					dt := 0.3 * (m.track().total - m.pos) / speed
					m.step(rt, dt)
					what = fmt.Sprintf("Next(%v)", dt)
				}
			case 4:
				m.dev.ToOffline()
				m.dev.Update()
				m.goOffline(rt)
				what = "ToOffline"
			default:
				what = m.randomMove(rt, k)
				k.nontrivial()
			}
			if what == "" {
				continue
			}
			k.note("%s", what)
			m.verify(rt, what)
			m.verifyIndicesExist(rt, what)
		}
	})
}

// ---- P15 -----------------------------------------------------------------

// published compares the published list of routes with the model and with the
// routes themselves.
func (m *navModel) published(rt *rapid.T, what string) {
	st := m.dev.State()
	rs := st.Routes.GetRoutes()
	if len(rs) != len(m.routes) {
		rt.Fatalf("after %s: %d routes published, want %d", what, len(rs), len(m.routes))
	}
	for i, r := range m.routes {
		comparePublishedRoute(rt, what, rs[i], r.h)
		if rs[i].RouteId != r.id || len(rs[i].Tracks) != len(r.tracks) {
			rt.Fatalf("after %s: published route %d is %s with %d tracks, want %s with %d", what, i, rs[i].RouteId, len(rs[i].Tracks), r.id, len(r.tracks))
		}
		for j, tr := range r.tracks {
			if rs[i].Tracks[j].TrackId != tr.id || rs[i].Tracks[j].NumSegments != int64(len(tr.len)) || !near(rs[i].Tracks[j].Distance, tr.total, 1e-5+1e-9*tr.total) {
				rt.Fatalf("after %s: published track %d/%d is %v", what, i, j, rs[i].Tracks[j])
			}
		}
	}
}

func comparePublishedRoute(rt *rapid.T, what string, got *pb.Device_Routes_Route, r *navigator.Route) {
	fail := func(format string, args ...any) {
		rt.Fatalf("after %s: published route %s: %s", what, r.ID(), fmt.Sprintf(format, args...))
	}
	if got.RouteId != r.ID() || got.Color != r.Color() || got.Distance != r.Distance() || got.PropsCount != int64(len(r.Props())) {
		fail("%v, want id %s colour %s distance %v props %d", got, r.ID(), r.Color(), r.Distance(), len(r.Props()))
	}
	if msg := sameProps(got.Props, r.Props()); msg != "" {
		fail("properties: %s", msg)
	}
	if len(got.Tracks) != r.NumTracks() {
		fail("%d tracks, want %d", len(got.Tracks), r.NumTracks())
	}
	for j := range got.Tracks {
		tr, g := r.TrackAt(j), got.Tracks[j]
		if g.TrackId != tr.ID() || g.Color != tr.Color() || g.Distance != tr.Distance() || g.NumSegments != int64(tr.NumSegments()) || g.PropsCount != int64(len(tr.Props())) {
			fail("track %v, want id %s colour %s distance %v segments %d props %d", g, tr.ID(), tr.Color(), tr.Distance(), tr.NumSegments(), len(tr.Props()))
		}
		if msg := sameProps(g.Props, tr.Props()); msg != "" {
			fail("properties of track %d: %s", j, msg)
		}
	}
}

// sameProps compares published JSON properties with a property collection.
func sameProps(raw []byte, props map[string]any) string {
	if len(props) == 0 {
		if len(raw) != 0 && string(raw) != "{}" && string(raw) != "null" {
			return fmt.Sprintf("%s, want none", raw)
		}
		return ""
	}
	return sameJSON(raw, props)
}

func sameJSON(raw []byte, want any) string {
	var got any
	if err := json.Unmarshal(raw, &got); err != nil {
		return fmt.Sprintf("%q is not JSON: %v", raw, err)
	}
	w := must(json.Marshal(want))
	g := must(json.Marshal(got)) // canonical: sorted keys
	if string(w) != string(g) {
		return fmt.Sprintf("%s, want %s", g, w)
	}
	return ""
}

// verifyLists compares lookups, counts and iteration with the model's list.
func (m *navModel) verifyLists(rt *rapid.T, what string) {
	d := m.dev
	fail := func(format string, args ...any) {
		rt.Fatalf("after %s: %s", what, fmt.Sprintf(format, args...))
	}
	if d.NumRoutes() != len(m.routes) {
		fail("NumRoutes %d, want %d", d.NumRoutes(), len(m.routes))
	}
	all := d.Routes()
	if len(all) != len(m.routes) {
		fail("Routes returned %d, want %d", len(all), len(m.routes))
	}
	for i, r := range m.routes {
		if all[i] != r.h || d.RouteAt(i) != r.h {
			fail("route %d is not the one added", i)
		}
		if r.h.NumTracks() != len(r.tracks) {
			fail("route %d has %d tracks, want %d", i, r.h.NumTracks(), len(r.tracks))
		}
		sum := 0.0
		j := 0
		r.h.EachTrack(func(n int, tr *navigator.Track) bool {
			if n != j || n >= len(r.tracks) || tr.ID() != r.tracks[n].id || r.h.TrackAt(n) != tr {
				fail("track %d/%d is wrong", i, n)
			}
			sum += tr.Distance()
			j++
			return true
		})
		if j != len(r.tracks) {
			fail("EachTrack visited %d of %d", j, len(r.tracks))
		}
		if !near(r.h.Distance(), sum, 1e-6+1e-12*sum) || !near(sum, r.total(), 1e-5+1e-9*sum) {
			fail("route %d is %v m long, its tracks %v (%v)", i, r.h.Distance(), sum, r.total())
		}
		if r.h.TrackAt(-1) != nil || r.h.TrackAt(len(r.tracks)) != nil {
			fail("TrackAt out of range is not nil")
		}
	}
	if d.RouteAt(-1) != nil || d.RouteAt(len(m.routes)) != nil {
		fail("RouteAt out of range is not nil")
	}
	stop := intn(rt, 1, len(m.routes)+1, "stopat")
	n := 0
	d.EachRoute(func(i int, r *navigator.Route) bool {
		if i != n || r != m.routes[i].h {
			fail("EachRoute visited %d at %d", i, n)
		}
		n++
		return n < stop
	})
	if want := min(stop, len(m.routes)); n != want {
		fail("EachRoute made %d visits, want %d", n, want)
	}
	// a list that was returned earlier is not changed by later edits
	for i := range m.heldRoutes {
		if m.heldRoutes[i] != m.heldCopy[i] {
			fail("a list returned earlier by Routes has changed at %d", i)
		}
	}
	if m.heldRoutes == nil || chance(rt, 30, "hold") {
		m.heldRoutes = d.Routes()
		m.heldCopy = append([]*navigator.Route{}, m.heldRoutes...)
	}
	if len(all) > 0 { // the returned list is a copy
		all[0] = nil
		if d.RouteAt(0) != m.routes[0].h {
			fail("changing the result of Routes changed the itinerary")
		}
	}
	if !near(d.Distance(), m.total(), 1e-5+1e-9*m.total()) {
		fail("total distance %v, want %v", d.Distance(), m.total())
	}
}

func TestP15_Itinerary(t *testing.T) {
	check(t, 2000, func(rt *rapid.T, k *kase) {
		speed := genSpeed(rt)
		io := itinOpts{minRoutes: 0, maxRoutes: 3, minTracks: 0, maxTracks: 3, path: defaultPath(), meta: true}
		io.path.maxPts = 4
		it := genItinerary(rt, io)
		o := steadyOptions(speed)
		m := newModelled(rt, o, it)
		k.note("%v", it)
		m.published(rt, "AddRoute")
		n := length(rt, 2, 25, "ops")
		for i := 0; i < n && !m.old(); i++ {
			what := ""
			switch intn(rt, 0, 9, "op") {
			case 0: // get somewhere first
				x := uni(rt, 0, 1, "jump") * m.total()
				m.jump(rt, x)
				what = "DestinationTo"
			case 1:
				dt := m.genStepTime(rt, speed)
				m.step(rt, dt)
				what = "Next"
			case 2: // a track added through the handle of an attached route
				if len(m.routes) == 0 {
					continue
				}
				r := m.routes[intn(rt, 0, len(m.routes)-1, "which")]
				if chance(rt, 10, "nil") {
					r.h.AddTrack(nil)
					what = "Route.AddTrack(nil)"
					break
				}
				tr, pts := genTrack(rt, io.path)
				r.h.AddTrack(tr)
				r.tracks = append(r.tracks, newMTrack(tr.ID(), pts))
				what = "Route.AddTrack"
				k.class("edited through a handle")
				m.verifyLists(rt, what)
				m.dev.Update()
				m.published(rt, what)
			case 3:
				if len(m.routes) == 0 {
					continue
				}
				r := m.routes[intn(rt, 0, len(m.routes)-1, "which")]
				at := -1
				id := genAbsentID(rt, r.trackIDs()...)
				if len(r.tracks) > 0 && chance(rt, 80, "known") {
					id = r.tracks[intn(rt, 0, len(r.tracks)-1, "whichT")].id
					at = r.first(id)
				}
				what = fmt.Sprintf("Route.RemoveTrack(#%d)", at)
				if got := r.h.RemoveTrack(id); got != (at >= 0) {
					rt.Fatalf("%s = %v", what, got)
				}
				if at >= 0 {
					r.tracks = append(append([]*mTrack{}, r.tracks[:at]...), r.tracks[at+1:]...)
					k.class("edited through a handle")
				}
				m.verifyLists(rt, what)
				m.dev.ResetNavigator()
				m.reset()
				m.dev.Update()
				m.published(rt, what)
			case 4:
				if len(m.routes) == 0 {
					continue
				}
				r := m.routes[intn(rt, 0, len(m.routes)-1, "which")]
				id, at := genAbsentID(rt, r.trackIDs()...), -1
				if len(r.tracks) > 0 && chance(rt, 80, "known") {
					id = r.tracks[intn(rt, 0, len(r.tracks)-1, "whichT")].id
					at = r.first(id)
				}
				tr, err := r.h.TrackByID(id)
				if at >= 0 && (err != nil || tr != r.h.TrackAt(at)) || at < 0 && err == nil {
					rt.Fatalf("TrackByID(#%d) = %v, %v", at, tr, err)
				}
				what = "TrackByID"
			default:
				what = m.edit(rt, k, io)
				if what != "" {
					k.nontrivial()
					m.published(rt, what)
				}
			}
			if what == "" {
				continue
			}
			k.note("%s", what)
			m.verify(rt, what)
			m.verifyLists(rt, what)
		}
	})
}

// The same through the navigator, which has lookup by id.
func TestP15_Navigator(t *testing.T) {
	check(t, 1000, func(rt *rapid.T, k *kase) {
		nav := must(navigator.New())
		io := itinOpts{minTracks: 0, maxTracks: 3, path: defaultPath(), meta: true}
		io.path.maxPts = 4
		var list []*mRoute
		var gone []string
		n := length(rt, 1, 20, "ops")
		for i := 0; i < n; i++ {
			switch intn(rt, 0, 5, "op") {
			case 0, 1, 2:
				r, pts := genRoute(rt, io)
				dup := false
				for _, x := range list {
					dup = dup || x.id == r.ID()
				}
				noErr(nav.AddRoute(r))
				if !dup {
					list = append(list, newMRoute(r, pts))
				}
				k.note("add %d", len(pts))
			case 3:
				if len(list) > 0 {
					at := intn(rt, 0, len(list)-1, "at")
					if !nav.RemoveRoute(list[at].id) {
						rt.Fatalf("RemoveRoute of a known id = false")
					}
					gone = append(gone, list[at].id)
					list = append(append([]*mRoute{}, list[:at]...), list[at+1:]...)
					k.note("remove %d", at)
					k.nontrivial()
				}
			case 4:
				if len(list) > 0 {
					at := intn(rt, 0, len(list)-1, "at")
					if len(list[at].tracks) > 0 {
						j := intn(rt, 0, len(list[at].tracks)-1, "j")
						j = list[at].first(list[at].tracks[j].id)
						if !nav.RemoveTrack(list[at].id, list[at].tracks[j].id) {
							rt.Fatalf("RemoveTrack of a known id = false")
						}
						list[at].tracks = append(append([]*mTrack{}, list[at].tracks[:j]...), list[at].tracks[j+1:]...)
						k.note("removetrack %d/%d", at, j)
					}
				}
			default:
				if chance(rt, 20, "reset") {
					if nav.ResetRoutes() != (len(list) > 0) {
						rt.Fatalf("ResetRoutes with %d routes", len(list))
					}
					for _, x := range list {
						gone = append(gone, x.id)
					}
					list = nil
				}
			}
			total := 0.0
			for j, x := range list {
				r, err := nav.RouteByID(x.id)
				if err != nil || r != x.h || nav.RouteAt(j) != x.h {
					rt.Fatalf("RouteByID(%s) = %v, %v", x.id, r, err)
				}
				total += x.total()
				if !near(r.Distance(), x.total(), 1e-5+1e-9*x.total()) {
					rt.Fatalf("route distance %v, want %v", r.Distance(), x.total())
				}
			}
			for _, id := range gone {
				if r, err := nav.RouteByID(id); err == nil && !has(list, id) {
					rt.Fatalf("RouteByID found removed route %v", r.ID())
				}
			}
			if nav.NumRoutes() != len(list) || !near(nav.Distance(), total, 1e-5+1e-9*total) {
				rt.Fatalf("%d routes of %v m, want %d of %v", nav.NumRoutes(), nav.Distance(), len(list), total)
			}
		}
	})
}

func has(list []*mRoute, id string) bool {
	for _, x := range list {
		if x.id == id {
			return true
		}
	}
	return false
}

// ---- P16 -----------------------------------------------------------------

func TestP16_Sensors(t *testing.T) {
	check(t, 2500, func(rt *rapid.T, k *kase) {
		d := must(gpsgen.NewDevice(steadyOptions(1)))
		noErr(d.AddRoute(routeOf([]pt{{Lat: 1, Lon: 1}, {Lat: 1.5, Lon: 1}})))
		var list, held, heldCopy []*types.Sensor
		find := func(id string) int {
			for i, s := range list {
				if s.ID() == id {
					return i
				}
			}
			return -1
		}
		n := length(rt, 1, 25, "ops")
		for i := 0; i < n; i++ {
			what := ""
			stepped := false
			switch intn(rt, 0, 7, "op") {
			case 0, 1, 2:
				na := intn(rt, 0, 3, "nargs")
				var args []*types.Sensor
				var news int
				for j := 0; j < na; j++ {
					switch intn(rt, 0, 5, "arg") {
					case 0:
						args = append(args, nil)
						continue
					case 1:
						if len(list) > 0 {
							args = append(args, list[intn(rt, 0, len(list)-1, "dup")])
							continue
						}
					case 2: // another sensor with an id that is attached
						if len(list) > 0 {
							x := list[intn(rt, 0, len(list)-1, "dup")]
							args = append(args, sensorWithID(genSensor(rt), x.ID()))
							k.class("same id")
							continue
						}
					}
					if ids := sensorIDs(list); len(ids) > 0 && chance(rt, 10, "nearid") {
						args = append(args, sensorWithID(genSensor(rt), nearID(rt, ids[intn(rt, 0, len(ids)-1, "to")])))
						continue
					}
					if chance(rt, 10, "shortid") {
						args = append(args, sensorWithID(genSensor(rt), string(rune('a'+intn(rt, 0, 25, "short")))))
						continue
					}
					args = append(args, genSensor(rt))
				}
				d.AddSensor(args...)
				for _, s := range args {
					if s != nil && find(s.ID()) < 0 {
						list = append(list, s)
						news++
					}
				}
				what = fmt.Sprintf("AddSensor(%d, %d new)", na, news)
			case 3, 4:
				id, at := genAbsentID(rt, sensorIDs(list)...), -1
				if len(list) > 0 && chance(rt, 80, "known") {
					at = intn(rt, 0, len(list)-1, "which")
					id = list[at].ID()
				}
				what = fmt.Sprintf("RemoveSensor(#%d)", at)
				if got := d.RemoveSensor(id); got != (at >= 0) {
					rt.Fatalf("%s = %v", what, got)
				}
				if at >= 0 {
					list = append(append([]*types.Sensor{}, list[:at]...), list[at+1:]...)
					k.nontrivial()
				}
			case 5:
				if chance(rt, 30, "reset") {
					d.ResetSensors()
					list = nil
					what = "ResetSensors"
				}
			default:
				stepped = d.Next(uni(rt, 0.1, 50, "dt"))
				what = "Next"
				if !stepped {
					rt.Fatalf("step not made")
				}
			}
			if what == "" {
				continue
			}
			k.note("%s", what)
			fail := func(format string, args ...any) {
				rt.Fatalf("after %s: %s", what, fmt.Sprintf(format, args...))
			}
			if d.NumSensors() != len(list) {
				fail("NumSensors %d, want %d", d.NumSensors(), len(list))
			}
			all := d.Sensors()
			if len(all) != len(list) {
				fail("Sensors returned %d, want %d", len(all), len(list))
			}
			st := d.State()
			if len(st.Sensors) != len(list) {
				fail("%d sensors published, want %d", len(st.Sensors), len(list))
			}
			for j, s := range list {
				if all[j] != s || d.SensorAt(j) != s {
					fail("sensor %d is not the one attached", j)
				}
				if got, ok := d.SensorByID(s.ID()); !ok || got != s {
					fail("SensorByID(#%d) = %v, %v", j, got, ok)
				}
				p := st.Sensors[j]
				if p.Id != s.ID() || p.Name != s.Name() {
					fail("published sensor %d is %s %q, want %s %q", j, p.Id, p.Name, s.ID(), s.Name())
				}
				if p.ValX != s.ValueX() || p.ValY != s.ValueY() {
					fail("published sensor %d has values %v, %v; it has %v, %v", j, p.ValX, p.ValY, s.ValueX(), s.ValueY())
				}
			}
			if d.SensorAt(-1) != nil || d.SensorAt(len(list)) != nil {
				fail("SensorAt out of range is not nil")
			}
			if id := genAbsentID(rt, sensorIDs(list)...); id != "" {
				if _, ok := d.SensorByID(id); ok {
					fail("SensorByID(%q) found an unknown id", id)
				}
			}
			stop := intn(rt, 1, len(list)+1, "stopat")
			visits := 0
			d.EachSensor(func(i int, s *types.Sensor) bool {
				if i != visits || s != list[i] {
					fail("EachSensor visited %d at %d", i, visits)
				}
				visits++
				return visits < stop
			})
			if visits != min(stop, len(list)) {
				fail("EachSensor made %d visits", visits)
			}
			for j := range held {
				if held[j] != heldCopy[j] {
					fail("a list returned earlier by Sensors has changed at %d", j)
				}
			}
			if chance(rt, 30, "hold") {
				held = d.Sensors()
				heldCopy = append([]*types.Sensor{}, held...)
			}
			if len(all) > 0 {
				all[0] = nil
				if d.SensorAt(0) != list[0] {
					fail("changing the result of Sensors changed the device")
				}
			}
		}
	})
}

var _ = proto.Equal
