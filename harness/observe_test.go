package checks

import (
	"fmt"
	"reflect"
	"sort"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	pb "github.com/mmadfox/go-gpsgen/proto"
	"google.golang.org/protobuf/proto"
)

// observation is everything a user can read from a device.
type observation struct {
	ri, ti, si int
	m          map[string]any
	state      *pb.Device
}

func observe(d *gpsgen.Device) observation {
	o := observation{ri: d.RouteIndex(), ti: d.TrackIndex(), si: d.SegmentIndex(), m: map[string]any{}, state: d.State()}
	o.m["id"] = d.ID()
	o.m["model"] = d.Model()
	o.m["user"] = d.UserID()
	o.m["color"] = d.Color()
	o.m["descr"] = d.Descr()
	o.m["indices"] = [3]int{o.ri, o.ti, o.si}
	o.m["bearing"] = d.CurrentBearing()
	o.m["odometers"] = [4]float64{d.CurrentDistance(), d.CurrentRouteDistance(), d.CurrentTrackDistance(), d.CurrentSegmentDistance()}
	o.m["distances"] = [4]float64{d.Distance(), d.RouteDistance(), d.TrackDistance(), d.SegmentDistance()}
	o.m["offline"] = d.IsOffline()
	o.m["finish"] = d.IsFinish()
	o.m["location"] = d.Location()
	o.m["duration"] = d.Duration()
	o.m["version"] = d.Version()
	o.m["status"] = d.Status()
	o.m["nroutes"] = d.NumRoutes()
	o.m["nsensors"] = d.NumSensors()
	for i := 0; i < d.NumRoutes(); i++ {
		for k, v := range observeRoute(d.RouteAt(i)) {
			o.m[fmt.Sprintf("route %d %s", i, k)] = v
		}
	}
	for i := 0; i < d.NumSensors(); i++ {
		s := d.SensorAt(i)
		o.m[fmt.Sprintf("sensor %d", i)] = []any{s.ID(), s.Name(), s.Min(), s.Max(), s.ValueX(), s.ValueY()}
	}
	if r := d.CurrentRoute(); r != nil {
		o.m["current route"] = r.ID()
	}
	if t := d.CurrentTrack(); t != nil {
		o.m["current track"] = t.ID()
	}
	s := d.CurrentSegment()
	o.m["current segment"] = observeSegment(s)
	return o
}

func observeSegment(s navigator.Segment) any {
	return [3]any{[4]float64{s.PointA().Lat, s.PointA().Lon, s.PointB().Lat, s.PointB().Lon}, [2]float64{s.Distance(), s.Bearing()}, s.Index()}
}

// observeRoute is everything a user can read from a route.
func observeRoute(r *navigator.Route) map[string]any {
	m := map[string]any{
		"id": r.ID(), "name": r.Name().String(), "color": r.Color(), "distance": r.Distance(),
		"ntracks": r.NumTracks(), "props": canonProps(r.Props()),
	}
	for j := 0; j < r.NumTracks(); j++ {
		for k, v := range observeTrack(r.TrackAt(j)) {
			m[fmt.Sprintf("track %d %s", j, k)] = v
		}
	}
	return m
}

func observeTrack(t *navigator.Track) map[string]any {
	m := map[string]any{
		"id": t.ID(), "name": t.Name().String(), "color": t.Color(), "distance": t.Distance(),
		"closed": t.IsClosed(), "nsegs": t.NumSegments(), "props": canonProps(t.Props()),
	}
	for k := 0; k < t.NumSegments(); k++ {
		m[fmt.Sprintf("segment %d", k)] = observeSegment(t.SegmentAt(k))
	}
	return m
}

// canonProps is a deep copy of JSON-like properties.
func canonProps(v any) any {
	rv := reflect.ValueOf(v)
	switch {
	case !rv.IsValid():
		return nil
	case rv.Kind() == reflect.Map:
		m := map[string]any{}
		for _, k := range rv.MapKeys() {
			m[k.String()] = canonProps(rv.MapIndex(k).Interface())
		}
		return m
	case rv.Kind() == reflect.Slice:
		l := []any{}
		for i := 0; i < rv.Len(); i++ {
			l = append(l, canonProps(rv.Index(i).Interface()))
		}
		return l
	default:
		return v
	}
}

func diffMaps(a, b map[string]any) string {
	keys := map[string]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	sorted := make([]string, 0, len(keys))
	for k := range keys {
		sorted = append(sorted, k)
	}
	sort.Strings(sorted)
	for _, k := range sorted {
		x, okx := a[k]
		y, oky := b[k]
		if okx != oky || !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("%s: %v (%v) and %v (%v)", k, x, okx, y, oky)
		}
	}
	return ""
}

// diff names the first difference between two observations, ignoring some keys.
func (o observation) diff(p observation, ignore ...string) string {
	a, b := map[string]any{}, map[string]any{}
	for k, v := range o.m {
		a[k] = v
	}
	for k, v := range p.m {
		b[k] = v
	}
	noState := false
	for _, k := range ignore {
		delete(a, k)
		delete(b, k)
		noState = noState || k == "state"
	}
	if d := diffMaps(a, b); d != "" {
		return d
	}
	if noState {
		return ""
	}
	return diffState(o.state, p.state)
}

func diffState(a, b *pb.Device) string {
	if proto.Equal(a, b) {
		return ""
	}
	fields := a.ProtoReflect().Descriptor().Fields()
	for i := 0; i < fields.Len(); i++ {
		f := fields.Get(i)
		x, y := a.ProtoReflect().Get(f), b.ProtoReflect().Get(f)
		if !x.Equal(y) {
			return fmt.Sprintf("state %s: %v and %v", f.Name(), x, y)
		}
	}
	return "states differ"
}

var _ = geo.LatLonPoint{}
