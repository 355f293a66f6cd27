package checks

import (
	"time"

	"github.com/mmadfox/go-gpsgen/navigator"
	"pgregory.net/rapid"
)

func routeOf(paths ...[]pt) *navigator.Route {
	r := navigator.NewRoute()
	for _, p := range paths {
		r.AddTrack(must(navigator.NewTrack(p)))
	}
	return r
}

func itineraryOf(paths ...[]pt) itinerary {
	return itinerary{routes: []*navigator.Route{routeOf(paths...)}, points: [][][]pt{paths}}
}

func dsec(s float64) time.Duration { return time.Duration(s * float64(time.Second)) }

// step2 is the effect on the model of a move that was already made.
func (m *navModel) step2(rt *rapid.T, dt, speed float64) {
	wasStart := m.pos == 0
	d := dt * speed
	m.pos += d
	m.trackD += d
	m.routeD += d
	m.curD += d
	old := m.si
	m.sync(rt, old)
	tr := m.track()
	m.pt = tr.pointAt(m.si, m.pos-tr.prefix[m.si])
	m.atStart = wasStart && m.si == 0
	m.finished, m.finKnown = false, true
}
