package checks

import (
	"math"
	"testing"

	"github.com/mmadfox/go-gpsgen/geo"
	"github.com/mmadfox/go-gpsgen/navigator"
	"pgregory.net/rapid"
)

const halfway = math.Pi * earthR

// anyPoint draws a point anywhere on Earth, often a special one.
func anyPoint(rt *rapid.T, label string) pt {
	switch intn(rt, 0, 5, label) {
	case 0:
		return pt{Lat: oneOf(rt, "lat", -90.0, -45, 0, 45, 90), Lon: oneOf(rt, "lon", -180.0, -90, 0, 90, 180)}
	case 1:
		return pt{Lat: oneOf(rt, "side", 1.0, -1) * (90 - uni(rt, 0, 1, "lat")*oneOf(rt, "sc", 1, 1e-3, 1e-6)), Lon: uni(rt, -180, 180, "lon")}
	case 2:
		return pt{Lat: float64(intn(rt, -90, 90, "lat")), Lon: float64(intn(rt, -180, 180, "lon"))}
	default:
		return genPoint(rt, 90)
	}
}

// anotherPoint draws a point, sometimes related to the first.
func anotherPoint(rt *rapid.T, a pt) pt {
	switch intn(rt, 0, 6, "second") {
	case 0:
		return a
	case 1:
		return pt{Lat: -a.Lat, Lon: a.Lon - math.Copysign(180, a.Lon)} // antipode
	case 2:
		b := pt{Lat: -a.Lat + uni(rt, -1e-3, 1e-3, "dlat"), Lon: a.Lon - math.Copysign(180, a.Lon) + uni(rt, -1e-3, 1e-3, "dlon")}
		b.Lat = math.Max(-90, math.Min(90, b.Lat))
		b.Lon = math.Max(-180, math.Min(180, b.Lon))
		return b
	case 3:
		return refDest(a, uni(rt, 0, 1, "near")*oneOf(rt, "sc", 0.01, 1.0, 1000), uni(rt, 0, 360, "brg"))
	default:
		return anyPoint(rt, "where2")
	}
}

// The haversine formula loses precision towards the antipode.
func distTol(d float64) float64 {
	return 1e-6 + 1e-9*d/math.Max(1e-5, math.Cos(d/2/earthR))
}

func TestP20_Distance(t *testing.T) {
	check(t, 4000, func(rt *rapid.T, k *kase) {
		a := anyPoint(rt, "a")
		b := anotherPoint(rt, a)
		k.note("%v %v", a, b)
		d := geo.Distance(a.Lat, a.Lon, b.Lat, b.Lon)
		want := refDist(a, b)
		tol := distTol(want)
		if !finite(d) || d < 0 || d > halfway+1e-6 {
			rt.Fatalf("distance %v", d)
		}
		if !near(d, want, tol) {
			rt.Fatalf("distance %v, want %v", d, want)
		}
		if e := geo.Distance(b.Lat, b.Lon, a.Lat, a.Lon); !near(d, e, tol/10) {
			rt.Fatalf("distance %v there and %v back", d, e)
		}
		if a == b && d != 0 {
			rt.Fatalf("distance of identical points is %v", d)
		}
		h := geo.Haversine(a.Lat, a.Lon, b.Lat, b.Lon)
		if w := math.Pow(math.Sin(want/2/earthR), 2); !near(h, w, 1e-12) {
			rt.Fatalf("haversine %v, want %v", h, w)
		}
		if e := geo.DistanceFromHaversine(h); !near(e, d, 1e-9*(1+d)) {
			rt.Fatalf("distance %v from the haversine, %v from the points", e, d)
		}
		if e := geo.DistanceFromHaversine(geo.DistanceToHaversine(d)); !near(e, d, tol) {
			rt.Fatalf("distance %v through the haversine is %v", d, e)
		}
		if e := geo.DistanceToHaversine(d); !near(e, h, 1e-12) {
			rt.Fatalf("haversine %v of distance %v, want %v", e, d, h)
		}
		c := anotherPoint(rt, b)
		ab, bc, ac := d, geo.Distance(b.Lat, b.Lon, c.Lat, c.Lon), geo.Distance(a.Lat, a.Lon, c.Lat, c.Lon)
		if ac > ab+bc+distTol(ab)+distTol(bc)+distTol(ac) {
			rt.Fatalf("%v to %v is %v, but %v over %v", a, c, ac, ab+bc, b)
		}
		k.nontrivial()
		if want > halfway*0.999 {
			k.class("antipodal")
		}
		if want == 0 {
			k.class("identical")
		}
	})
}

// nearPole is the distance in metres from the nearer pole.
func nearPole(p pt) float64 { return (90 - math.Abs(p.Lat)) * deg * earthR }

// Many antipodal and nearly antipodal pairs, where rounding can take the
// haversine beyond one.
func TestP20_Antipodes(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		a := pt{Lat: uni(rt, -90, 90, "lat"), Lon: uni(rt, -180, 180, "lon")}
		off := oneOf(rt, "off", 0, 1e-12, 1e-10, 1e-8, 1e-6)
		dlat, dlon := uni(rt, -1, 1, "dlat")*off, uni(rt, -1, 1, "dlon")*off
		k.note("%v %v %v", a, dlat, dlon)
		for i := 0; i < 400; i++ {
			b := pt{Lat: -a.Lat + dlat, Lon: a.Lon - math.Copysign(180, a.Lon) + dlon}
			d := geo.Distance(a.Lat, a.Lon, b.Lat, b.Lon)
			if !finite(d) || d > halfway+1e-6 || d < halfway-2 {
				rt.Fatalf("distance from %v %v to %v %v is %v", a.Lat, a.Lon, b.Lat, b.Lon, d)
			}
			a.Lat, a.Lon = math.Mod(a.Lat+0.7317, 90), math.Mod(a.Lon+1.3931, 180)
		}
		k.nontrivial()
	})
}

func TestP20_Destination(t *testing.T) {
	check(t, 4000, func(rt *rapid.T, k *kase) {
		a := anyPoint(rt, "a")
		brg := oneOf(rt, "brg", uni(rt, 0, 360, "brgu"), 0, 90, 180, 270, 359.999)
		m := oneOf(rt, "m", uni(rt, 0, halfway, "mu"), uni(rt, 0, 1000, "ms"), 1, 0, uni(rt, halfway, 2*halfway, "ml"))
		k.note("%v %v m at %v", a, m, brg)
		lat, lon := geo.Destination(a.Lat, a.Lon, m, brg)
		b := pt{Lat: lat, Lon: lon}
		if !finite(lat, lon) || math.Abs(lat) > 90 || math.Abs(lon) > 180+1e-9 {
			rt.Fatalf("destination %v", b)
		}
		want := m
		if m > halfway {
			want = 2*halfway - m
		}
		tol := 1e-5
		if d := refDist(a, b); !near(d, want, tol) {
			rt.Fatalf("destination %v is %v m away, want %v", b, d, want)
		}
		if w := refDest(a, m, brg); refDist(w, b) > tol {
			rt.Fatalf("destination %v, want %v", b, w)
		}
		k.nontrivial()
		if math.Abs(lon-a.Lon) > 180 {
			k.class("across the antimeridian")
		}
		if nearPole(a) < 1000 || nearPole(b) < 1000 {
			k.class("near a pole")
		}
		n := geo.NormalizeDistance(m + 2*halfway*float64(intn(rt, -3, 3, "turns")))
		if math.Abs(n) > 2*halfway || !near(n, m, 1e-4) && !near(n+2*halfway, m, 1e-4) && !near(n-2*halfway, m, 1e-4) {
			rt.Fatalf("normal distance %v of %v", n, m)
		}
	})
}

func TestP20_Bearing(t *testing.T) {
	check(t, 4000, func(rt *rapid.T, k *kase) {
		a := anyPoint(rt, "a")
		b := anotherPoint(rt, a)
		k.note("%v %v", a, b)
		brg := geo.Bearing(a.Lat, a.Lon, b.Lat, b.Lon)
		if !(brg >= 0 && brg < 360) {
			rt.Fatalf("bearing %v", brg)
		}
		d := refDist(a, b)
		if d < 1e-3 || d > halfway-1e3 {
			return // every bearing leads there
		}
		k.nontrivial()
		tol := 1e-5
		lat, lon := geo.Destination(a.Lat, a.Lon, geo.Distance(a.Lat, a.Lon, b.Lat, b.Lon), brg)
		if e := refDist(pt{Lat: lat, Lon: lon}, b); e > tol+2*distTol(d) {
			rt.Fatalf("travelling on bearing %v ends %v m from the goal", brg, e)
		}
		if nearPole(a) < 1 {
			return
		}
		// sideways error at the goal
		side := math.Sin(angleDiff(brg, refBearing(a, b))*deg) * math.Sin(d/earthR) * earthR
		if math.Abs(side) > tol || angleDiff(brg, refBearing(a, b)) > 90 {
			rt.Fatalf("bearing %v, want %v", brg, refBearing(a, b))
		}
	})
}

func TestP20_BBox(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		x, y := anyPoint(rt, "a"), anyPoint(rt, "b")
		box := geo.BBox{MinLon: math.Min(x.Lon, y.Lon), MinLat: math.Min(x.Lat, y.Lat), MaxLon: math.Max(x.Lon, y.Lon), MaxLat: math.Max(x.Lat, y.Lat)}
		k.note("%v", box)
		p := oneOf(rt, "p", anyPoint(rt, "p"), x, y, pt{Lat: x.Lat, Lon: y.Lon},
			pt{Lat: uni(rt, box.MinLat, box.MaxLat, "in"), Lon: uni(rt, box.MinLon, box.MaxLon, "in")},
			pt{Lat: box.MaxLat + uni(rt, 0, 1e-6, "out"), Lon: box.MinLon})
		in := box.MinLon <= p.Lon && p.Lon <= box.MaxLon && box.MinLat <= p.Lat && p.Lat <= box.MaxLat
		if box.In(p) != in {
			rt.Fatalf("%v in %v is %v", p, box, !in)
		}
		c := box.Center()
		if !near(c.Lat, box.MinLat+(box.MaxLat-box.MinLat)/2, 1e-9) || !near(c.Lon, box.MinLon+(box.MaxLon-box.MinLon)/2, 1e-9) || !box.In(c) {
			rt.Fatalf("centre %v of %v", c, box)
		}
		k.nontrivial()
		if in {
			k.class("inside")
		}
	})
}

// ---- P21 -----------------------------------------------------------------

func genAnyPath(rt *rapid.T, n int) (pts []pt) {
	if n == 0 {
		return
	}
	if coin.Draw(rt, "local") {
		o := defaultPath()
		o.minPts, o.maxPts, o.maxLat = n, n, 89.9
		if pts = genPath(rt, o); len(pts) == n {
			return
		}
	}
	pts = []pt{anyPoint(rt, "first")}
	for len(pts) < n {
		pts = append(pts, anotherPoint(rt, pts[len(pts)-1]))
	}
	if n >= 3 && chance(rt, 30, "close") {
		pts[n-1] = pts[0]
		if chance(rt, 30, "almost") {
			pts[n-1].Lat = math.Max(-90, pts[n-1].Lat-oneOf(rt, "off", 1e-9, 0.5))
		} else if chance(rt, 30, "almost") {
			pts[n-1].Lon = math.Max(-180, pts[n-1].Lon-oneOf(rt, "off", 1e-9, 0.5))
		}
	}
	return
}

func verifyTrack(rt *rapid.T, tr *navigator.Track, pts []pt) {
	if tr.NumSegments() != len(pts)-1 {
		rt.Fatalf("%d segments of %d points", tr.NumSegments(), len(pts))
	}
	sum, tolSum := 0.0, 1e-6
	for i := 0; i < tr.NumSegments(); i++ {
		s := tr.SegmentAt(i)
		if s.PointA() != pts[i] || s.PointB() != pts[i+1] || s.Index() != i {
			rt.Fatalf("segment %d (index %d) from %v to %v, want %v to %v", i, s.Index(), s.PointA(), s.PointB(), pts[i], pts[i+1])
		}
		d := refDist(pts[i], pts[i+1])
		if !near(s.Distance(), d, distTol(d)) {
			rt.Fatalf("segment %d is %v m long, want %v", i, s.Distance(), d)
		}
		if s.IsEmpty() != (s.Distance() == 0) {
			rt.Fatalf("segment %d of %v m: empty is %v", i, s.Distance(), s.IsEmpty())
		}
		sum += s.Distance()
		tolSum += 1e-9 * s.Distance()
		if b := s.Bearing(); !(b >= 0 && b < 360) {
			rt.Fatalf("segment %d has bearing %v", i, b)
		}
		if d > 1e-3 && d < halfway-1e3 {
			tol := 1e-5
			if nearPole(pts[i]) > 1 {
				if side := math.Sin(angleDiff(s.Bearing(), refBearing(pts[i], pts[i+1]))*deg) * math.Sin(d/earthR) * earthR; math.Abs(side) > tol || angleDiff(s.Bearing(), refBearing(pts[i], pts[i+1])) > 90 {
					rt.Fatalf("segment %d has bearing %v, want %v", i, s.Bearing(), refBearing(pts[i], pts[i+1]))
				}
			}
			if e := refDist(s.DestinationTo(s.Distance()), pts[i+1]); e > tol+2*distTol(d) {
				rt.Fatalf("walking segment %d ends %v m from its end", i, e)
			}
			f := uni(rt, 0, 1, "frac")
			if e := refDist(s.DestinationTo(f*s.Distance()), pts[i]); !near(e, f*s.Distance(), tol) {
				rt.Fatalf("walking %v m of segment %d leads %v m away", f*s.Distance(), i, e)
			}
		}
	}
	if !near(tr.Distance(), sum, tolSum) {
		rt.Fatalf("track is %v m long, its segments %v", tr.Distance(), sum)
	}
	if closed := len(pts) >= 3 && pts[0] == pts[len(pts)-1]; tr.IsClosed() != closed {
		rt.Fatalf("closed is %v for %v to %v", tr.IsClosed(), pts[0], pts[len(pts)-1])
	}
	for _, i := range []int{-1, tr.NumSegments()} {
		if s := tr.SegmentAt(i); s.Distance() != 0 || s.PointA() != (pt{}) {
			rt.Fatalf("there is a segment %d", i)
		}
	}
}

func TestP21_Track(t *testing.T) {
	check(t, 1500, func(rt *rapid.T, k *kase) {
		n := length(rt, 2, 12, "npts")
		if chance(rt, 10, "few") {
			n = intn(rt, 0, 1, "nfew")
		}
		pts := genAnyPath(rt, n)
		k.note("%v", pts)
		own := append([]pt(nil), pts...)
		tr, err := navigator.NewTrack(own)
		id, color := genRestoredID(rt), genColor(rt).Hex()
		back, err2 := navigator.RestoreTrack(id, color, own)
		if len(pts) < 2 {
			if err == nil || err2 == nil || tr != nil || back != nil {
				rt.Fatalf("%d points make a track (%v, %v)", len(pts), err, err2)
			}
			k.class("too few points")
			return
		}
		if err != nil || err2 != nil {
			rt.Fatalf("NewTrack: %v; RestoreTrack: %v", err, err2)
		}
		for i := range own {
			own[i] = pt{Lat: 1, Lon: 2}
		}
		verifyTrack(rt, tr, pts)
		verifyTrack(rt, back, pts)
		if back.ID() != id || back.Color() != color {
			rt.Fatalf("restored as %s %s, want %s %s", back.ID(), back.Color(), id, color)
		}
		if _, err := navigator.RestoreTrack("", color, pts); err == nil {
			rt.Fatalf("a track without id was restored")
		}
		again := must(navigator.NewTrack(pts))
		a, b := observeTrack(tr), observeTrack(again)
		if again.ID() == tr.ID() || tr.ID() == "" {
			rt.Fatalf("ids %q and %q", tr.ID(), again.ID())
		}
		for _, o := range []map[string]any{a, b} {
			delete(o, "id")
			delete(o, "color")
		}
		if diff := diffMaps(a, b); diff != "" {
			rt.Fatalf("built again: %s", diff)
		}
		c := observeTrack(back)
		delete(c, "id")
		delete(c, "color")
		if diff := diffMaps(a, c); diff != "" {
			rt.Fatalf("restored: %s", diff)
		}
		k.nontrivial()
		if tr.IsClosed() {
			k.class("closed")
		}
	})
}

func TestP21_Route(t *testing.T) {
	check(t, 800, func(rt *rapid.T, k *kase) {
		var tracks []*navigator.Track
		var all [][]pt
		ids := map[string]bool{}
		for n := length(rt, 0, 5, "ntracks"); n > 0; n-- {
			pts := genAnyPath(rt, intn(rt, 2, 5, "npts"))
			tr := must(navigator.NewTrack(pts))
			tracks = append(tracks, tr)
			all = append(all, pts)
			ids[tr.ID()] = true
		}
		k.note("%v", all)
		r := navigator.RouteFromTracks(tracks...)
		q := navigator.NewRoute()
		for _, tr := range tracks {
			q.AddTrack(tr).AddTrack(nil)
		}
		ids[r.ID()], ids[q.ID()] = true, true
		if len(ids) != len(tracks)+2 {
			rt.Fatalf("ids are not unique: %v", ids)
		}
		for _, x := range []*navigator.Route{r, q} {
			sum := 0.0
			for j := range tracks {
				if x.TrackAt(j) != tracks[j] {
					rt.Fatalf("track %d is another one", j)
				}
				sum += tracks[j].Distance()
				verifyTrack(rt, x.TrackAt(j), all[j])
				got, err := x.TrackByID(tracks[j].ID())
				if err != nil || got != tracks[j] {
					rt.Fatalf("TrackByID: %v %v", got, err)
				}
			}
			if x.NumTracks() != len(tracks) || !near(x.Distance(), sum, 1e-6+1e-9*sum) {
				rt.Fatalf("%d tracks and %v m, want %d and %v", x.NumTracks(), x.Distance(), len(tracks), sum)
			}
			if x.TrackAt(-1) != nil || x.TrackAt(len(tracks)) != nil {
				rt.Fatalf("tracks outside of the list")
			}
			if _, err := x.TrackByID("no such track"); err == nil {
				rt.Fatalf("found a track that does not exist")
			}
			i := 0
			x.EachTrack(func(j int, tr *navigator.Track) bool {
				if j != i || tr != tracks[j] {
					rt.Fatalf("iteration gives track %d at %d", j, i)
				}
				i++
				return j < 2
			})
			if i != min(len(tracks), 3) {
				rt.Fatalf("iterated over %d tracks of %d", i, len(tracks))
			}
		}
		if len(tracks) > 0 {
			k.nontrivial()
			j := intn(rt, 0, len(tracks)-1, "remove")
			if !r.RemoveTrack(tracks[j].ID()) || r.RemoveTrack(tracks[j].ID()) || r.NumTracks() != len(tracks)-1 {
				rt.Fatalf("removal of track %d leaves %d of %d", j, r.NumTracks(), len(tracks))
			}
			sum := 0.0
			for i, tr := range append(append([]*navigator.Track{}, tracks[:j]...), tracks[j+1:]...) {
				sum += tr.Distance()
				if r.TrackAt(i) != tr {
					rt.Fatalf("after the removal track %d is another one", i)
				}
			}
			if !near(r.Distance(), sum, 1e-6+1e-9*sum) {
				rt.Fatalf("after the removal %v m, want %v", r.Distance(), sum)
			}
		}
		// a route restored with an id
		id, color := genRestoredID(rt), genColor(rt).Hex()
		if x := navigator.RestoreRoute(id, color, nil); x.ID() != id || x.Color() != color || x.NumTracks() != 0 || x.Distance() != 0 {
			rt.Fatalf("restored route %v %v", x.ID(), x.Color())
		}
	})
}
