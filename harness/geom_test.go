package checks

// An independent implementation of spherical geometry with vectors; the
// library uses trigonometric formulas on angles.

import (
	"math"

	"github.com/mmadfox/go-gpsgen/geo"
)

const (
	earthR = 6371000.0
	deg    = math.Pi / 180
)

type vec [3]float64

func (a vec) add(b vec) vec     { return vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func (a vec) sub(b vec) vec     { return vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a vec) mul(k float64) vec { return vec{a[0] * k, a[1] * k, a[2] * k} }
func (a vec) dot(b vec) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a vec) norm() float64     { return math.Sqrt(a.dot(a)) }
func (a vec) cross(b vec) vec {
	return vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}

func toVec(p geo.LatLonPoint) vec {
	la, lo := p.Lat*deg, p.Lon*deg
	return vec{math.Cos(la) * math.Cos(lo), math.Cos(la) * math.Sin(lo), math.Sin(la)}
}

func fromVec(v vec) geo.LatLonPoint {
	return geo.LatLonPoint{
		Lat: math.Atan2(v[2], math.Hypot(v[0], v[1])) / deg,
		Lon: math.Atan2(v[1], v[0]) / deg,
	}
}

// refDist is the great-circle distance in metres.
func refDist(a, b geo.LatLonPoint) float64 {
	va, vb := toVec(a), toVec(b)
	// chord form: accurate for small distances, the cross product elsewhere
	d := va.sub(vb).norm()
	if d < 1 {
		return earthR * 2 * math.Asin(d/2)
	}
	return earthR * math.Atan2(va.cross(vb).norm(), va.dot(vb))
}

func frame(p geo.LatLonPoint) (north, east vec) {
	la, lo := p.Lat*deg, p.Lon*deg
	east = vec{-math.Sin(lo), math.Cos(lo), 0}
	north = vec{-math.Sin(la) * math.Cos(lo), -math.Sin(la) * math.Sin(lo), math.Cos(la)}
	return
}

// refBearing is the initial bearing from a to b in [0,360).
func refBearing(a, b geo.LatLonPoint) float64 {
	north, east := frame(a)
	d := toVec(b).sub(toVec(a))
	x := math.Atan2(d.dot(east), d.dot(north)) / deg
	if x < 0 {
		x += 360
	}
	return x
}

// refDest is the point a distance away on an initial bearing.
func refDest(a geo.LatLonPoint, meters, bearing float64) geo.LatLonPoint {
	north, east := frame(a)
	t := north.mul(math.Cos(bearing * deg)).add(east.mul(math.Sin(bearing * deg)))
	d := meters / earthR
	return fromVec(toVec(a).mul(math.Cos(d)).add(t.mul(math.Sin(d))))
}

func angleDiff(a, b float64) float64 {
	d := math.Mod(math.Abs(a-b), 360)
	return math.Min(d, 360-d)
}

func finite(xs ...float64) bool {
	for _, x := range xs {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

func near(a, b, tol float64) bool {
	return a == b || math.Abs(a-b) <= tol
}
