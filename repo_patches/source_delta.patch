From 484c922c95311cea6f76f649041418286a6efd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 01/41] fix: DestinationTo computes the right route, track and
 odometers on itineraries of several routes or tracks

---
 navigator/navigator.go | 74 ++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 46 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 45157e3..ab2bdf7 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -615,69 +615,51 @@ func (n *Navigator) jump(distance float64) bool {
 	}
 
 	var (
-		route        *Route
-		track        *Track
 		segment      Segment
-		trackIndex   int
 		routeIndex   int
+		trackIndex   int
 		segmentIndex int
-		routeDist    float64
-		curRouteDist float64
-		curTrackDist float64
+		totalDist    float64 // distance from the first route to the segment
+		curRouteDist float64 // distance from the start of the route to the segment
+		curTrackDist float64 // distance from the start of the track to the segment
 	)
 
+	dist := 0.0
+loop:
 	for i := 0; i < len(n.routes); i++ {
-		route = n.routes[i]
-		routeIndex += i
-		if route.dist+routeDist > distance {
-			break
-		}
-		routeDist += route.dist
-	}
-	if route == nil {
-		return false
-	}
-
-	for i := 0; i < route.NumTracks(); i++ {
-		track = route.TrackAt(i)
-		if track == nil {
-			continue
-		}
-		trackIndex += i
-		if track.dist+routeDist > distance {
-			break
-		}
-		curRouteDist += track.dist
-		routeDist += track.dist
-	}
-	if track == nil {
-		return false
-	}
-
-	for i := 0; i < track.NumSegments(); i++ {
-		segment = track.SegmentAt(i)
-		if segment.IsEmpty() {
-			continue
-		}
-		segmentIndex = i
-		if segment.dist+routeDist > distance {
-			break
+		route := n.routes[i]
+		routeDist := 0.0
+		for j := 0; j < route.NumTracks(); j++ {
+			track := route.TrackAt(j)
+			trackDist := 0.0
+			for k := 0; k < track.NumSegments(); k++ {
+				seg := track.SegmentAt(k)
+				if seg.IsEmpty() {
+					continue
+				}
+				segment = seg
+				routeIndex, trackIndex, segmentIndex = i, j, k
+				totalDist, curRouteDist, curTrackDist = dist, routeDist, trackDist
+				if dist+seg.dist > distance {
+					break loop
+				}
+				dist += seg.dist
+				routeDist += seg.dist
+				trackDist += seg.dist
+			}
 		}
-		routeDist += segment.dist
-		curRouteDist += segment.dist
-		curTrackDist += segment.dist
 	}
 	if segment.IsEmpty() {
 		return false
 	}
 
-	diff := math.Abs(distance - routeDist)
+	diff := math.Min(math.Abs(distance-totalDist), segment.dist)
 	n.point = segment.DestinationTo(diff)
 	n.routeIndex = routeIndex
 	n.trackIndex = trackIndex
 	n.segmentIndex = segmentIndex
 	n.currentSegmentDistance = diff
-	n.currentDistance = routeDist + diff
+	n.currentDistance = distance
 	n.currentRouteDistance = curRouteDist + diff
 	n.currentTrackDistance = curTrackDist + diff
 	return true
-- 
2.43.0


From 972ec8efbbdb929856018f5f6dc8d39d7ac57cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 02/41] fix: a step crosses short and zero-length segments
 instead of losing its remainder or skipping the track

---
 navigator/navigator.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index ab2bdf7..4de7c79 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -505,12 +505,13 @@ func (n *Navigator) NextLocation(tick float64, speed float64) (ok bool) {
 	}
 
 	newDist := tick * speed
+	rest := newDist // part of the step still to be made from the current position
 
 loop:
 	for {
-		if n.isValidDistance(newDist) {
+		if n.isValidDistance(rest) {
 			isStartSeg := n.isStartSegment()
-			n.updateDist(newDist)
+			n.updateDist(newDist, rest)
 			segment := n.CurrentSegment()
 			if !segment.IsEmpty() {
 				if isStartSeg {
@@ -522,17 +523,17 @@ loop:
 			}
 			break
 		} else {
-			seg := n.nextSegment()
-			foundSegment := !seg.IsEmpty()
-			notFoundSegment := seg.IsEmpty()
+			left := n.CurrentSegment().Distance() - n.currentSegmentDistance
+			seg, foundSegment := n.nextSegment()
 			switch {
 			case foundSegment:
 				if !seg.hasRelation() {
 					n.ToOffline()
 					break loop
 				}
+				rest -= math.Max(left, 0)
 				continue
-			case notFoundSegment:
+			default:
 				if !n.nextTrack() {
 					n.nextRoute()
 				}
@@ -671,9 +672,9 @@ func (n *Navigator) Reset() {
 	n.calcRouteDistance()
 }
 
-func (n *Navigator) updateDist(newDist float64) {
+func (n *Navigator) updateDist(newDist, segmentDist float64) {
 	n.currentDistance += newDist
-	n.currentSegmentDistance += newDist
+	n.currentSegmentDistance += segmentDist
 	n.currentTrackDistance += newDist
 	n.currentRouteDistance += newDist
 }
@@ -701,18 +702,18 @@ func (n *Navigator) nextOffline() bool {
 	return false
 }
 
-func (n *Navigator) nextSegment() Segment {
+func (n *Navigator) nextSegment() (segment Segment, ok bool) {
 	track := n.CurrentTrack()
 	if track == nil {
-		return Segment{}
+		return Segment{}, false
 	}
-	if n.segmentIndex == track.NumSegments()-1 {
-		return Segment{}
+	if n.segmentIndex < 0 || n.segmentIndex >= track.NumSegments()-1 {
+		return Segment{}, false
 	}
-	segment := n.CurrentSegment()
+	segment = track.SegmentAt(n.segmentIndex)
 	n.currentSegmentDistance = 0
 	n.segmentIndex++
-	return segment
+	return segment, true
 }
 
 func (n *Navigator) nextTrack() bool {
-- 
2.43.0


From 2adb52cadecb6ff9e6ffae92b13968197cf8a297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 03/41] fix: removing a track updates the total distance and
 restarts navigation like removing a route does

---
 navigator/navigator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 4de7c79..e4d72a6 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -179,6 +179,7 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 	ok := route.RemoveTrack(trackID)
 	if ok {
 		n.nextVersion()
+		n.Reset()
 	}
 	return ok
 }
-- 
2.43.0


From aa0cf6cf5c8de3210b728b08cd0cfdfe3e3f0b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 04/41] fix: the total distance follows tracks added to or
 removed from an attached route

---
 navigator/navigator.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index e4d72a6..4c1bc12 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -22,7 +22,6 @@ type Navigator struct {
 	point                  geo.LatLonPoint
 	elevation              *types.Sensor
 	offline                *types.Random
-	distance               float64
 	skipOffline            bool
 	version                int
 }
@@ -186,7 +185,12 @@ func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
 
 // Distance returns the total distance of the navigator's routes.
 func (n *Navigator) Distance() float64 {
-	return n.distance
+	// Tracks can be added to or removed from a route that is already here.
+	distance := 0.0
+	for i := 0; i < len(n.routes); i++ {
+		distance += n.routes[i].dist
+	}
+	return distance
 }
 
 // CurrentDistance returns the current accumulated distance.
@@ -336,7 +340,7 @@ func (n *Navigator) OfflineDuration() int {
 func (n *Navigator) Update(state *proto.Device) {
 	n.normalizeDeviceState(state)
 
-	state.Distance.Distance = n.distance
+	state.Distance.Distance = n.Distance()
 	state.Distance.CurrentDistance = n.currentDistance
 	state.Distance.RouteDistance = n.RouteDistance()
 	state.Distance.CurrentRouteDistance = n.currentRouteDistance
@@ -564,7 +568,7 @@ func (n *Navigator) Snapshot() *proto.Snapshot_Navigator {
 		OfflineIndex:           int64(n.offlineIndex),
 		Point:                  &proto.Snapshot_PointLatLon{Lon: n.point.Lon, Lat: n.point.Lat},
 		Elevation:              n.elevation.Snapshot(),
-		Distance:               n.distance,
+		Distance:               n.Distance(),
 		SkipOffline:            n.skipOffline,
 		Version:                int64(n.version),
 	}
@@ -603,14 +607,13 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
-	n.distance = snap.Distance
 	n.skipOffline = snap.SkipOffline
 	n.version = int(snap.Version)
 }
 
 func (n *Navigator) jump(distance float64) bool {
-	if distance > n.distance {
-		distance = n.distance
+	if total := n.Distance(); distance > total {
+		distance = total
 	}
 	if distance < 1 {
 		return false
@@ -667,10 +670,9 @@ loop:
 	return true
 }
 
-// Reset resets the Navigator's state, including indexes and calculated route distance.
+// Reset resets the Navigator's state: the indexes and the travelled distances.
 func (n *Navigator) Reset() {
 	n.resetIndexes()
-	n.calcRouteDistance()
 }
 
 func (n *Navigator) updateDist(newDist, segmentDist float64) {
@@ -743,13 +745,6 @@ func (n *Navigator) nextRoute() {
 	n.currentDistance = 0.1
 }
 
-func (n *Navigator) calcRouteDistance() {
-	n.distance = 0
-	for i := 0; i < len(n.routes); i++ {
-		n.distance += n.routes[i].dist
-	}
-}
-
 func (n *Navigator) resetIndexes() {
 	n.routeIndex = 0
 	n.trackIndex = 0
-- 
2.43.0


From e28d181be9621083f6202d4d6c0b18eb98e3ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 05/41] fix: a restored device that skips offline mode keeps
 its offline settings

---
 navigator/navigator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 4c1bc12..28992ee 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -604,10 +604,10 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
+	n.skipOffline = snap.SkipOffline
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
-	n.skipOffline = snap.SkipOffline
 	n.version = int(snap.Version)
 }
 
-- 
2.43.0


From 41b3929fb1fb1cb00ecc5bb7ac1766c57397a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:27 +0000
Subject: [PATCH 06/41] fix: IsFinish reports a completed lap, only that, and
 does not modify the device while reading it

---
 device.go              | 12 +++++++++++-
 navigator/navigator.go |  8 +++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 16f5bcd..1cc6d5b 100644
--- a/device.go
+++ b/device.go
@@ -38,6 +38,7 @@ type Device struct {
 	sensors   []*types.Sensor
 	avgT      float64
 	tick      uint32
+	finished  bool // the last lap was completed and the device has not moved since
 	ns        [3]int
 }
 
@@ -449,7 +450,11 @@ func (d *Device) CurrentSegmentDistance() float64 {
 func (d *Device) IsFinish() bool {
 	d.mu.RLock()
 	defer d.mu.RUnlock()
-	return d.navigator.IsFinish()
+	return d.finished &&
+		d.navigator.RouteIndex() == 0 &&
+		d.navigator.TrackIndex() == 0 &&
+		d.navigator.SegmentIndex() == 0 &&
+		d.navigator.CurrentDistance() == 0
 }
 
 // CurrentRoute returns the currently active route of the device.
@@ -659,10 +664,15 @@ func (d *Device) Next(tick float64) bool {
 	nextSpeed := d.speed.Value()
 	d.state.Speed = nextSpeed
 
+	if !d.navigator.IsOffline() {
+		d.finished = false
+	}
+
 	if ok := d.navigator.NextLocation(seconds, nextSpeed); !ok {
 		d.updateOfflineState()
 
 		if d.navigator.IsFinish() {
+			d.finished = true
 			d.state.Duration = 0
 			d.speed.Shuffle()
 			d.navigator.ShuffleElevation()
diff --git a/navigator/navigator.go b/navigator/navigator.go
index 28992ee..ac9828d 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -23,6 +23,7 @@ type Navigator struct {
 	elevation              *types.Sensor
 	offline                *types.Random
 	skipOffline            bool
+	finish                 bool // the last track was completed, not yet reported by IsFinish
 	version                int
 }
 
@@ -245,7 +246,8 @@ func (n *Navigator) IsFinish() bool {
 	if n.routeIndex == 0 &&
 		n.trackIndex == 0 &&
 		n.segmentIndex == 0 &&
-		n.currentDistance == 0.1 {
+		n.finish {
+		n.finish = false
 		n.currentDistance = 0
 		return true
 	}
@@ -665,6 +667,7 @@ loop:
 	n.segmentIndex = segmentIndex
 	n.currentSegmentDistance = diff
 	n.currentDistance = distance
+	n.finish = false
 	n.currentRouteDistance = curRouteDist + diff
 	n.currentTrackDistance = curTrackDist + diff
 	return true
@@ -676,6 +679,7 @@ func (n *Navigator) Reset() {
 }
 
 func (n *Navigator) updateDist(newDist, segmentDist float64) {
+	n.finish = false
 	n.currentDistance += newDist
 	n.currentSegmentDistance += segmentDist
 	n.currentTrackDistance += newDist
@@ -743,6 +747,7 @@ func (n *Navigator) nextRoute() {
 	}
 	n.routeIndex = 0
 	n.currentDistance = 0.1
+	n.finish = true
 }
 
 func (n *Navigator) resetIndexes() {
@@ -753,6 +758,7 @@ func (n *Navigator) resetIndexes() {
 	n.currentRouteDistance = 0
 	n.currentTrackDistance = 0
 	n.currentDistance = 0
+	n.finish = false
 }
 
 func (n *Navigator) hasRoute(id string) bool {
-- 
2.43.0


From 574907c21805cddad67360bb8c3d4caf4dc92913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 07/41] fix: the battery charge never exceeds its maximum and
 is a number without a charge time

---
 types/battery.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/battery.go b/types/battery.go
index 18b73a7..aaf5f19 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -79,7 +79,13 @@ func (t *Battery) IsLow() bool {
 
 // Value returns the current value of the battery.
 func (t *Battery) Value() float64 {
+	if t.chargeTime <= 0 {
+		return t.min
+	}
 	val := 100 - (t.val / t.chargeTime.Seconds() * 100)
+	if val > t.max {
+		val = t.max
+	}
 	if val < t.min {
 		val = t.min
 	}
-- 
2.43.0


From da867d3e59dadbf6ec38320f09cad245924ecbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 08/41] fix: the time estimate and the lap progress are finite
 for a standing device and an itinerary without length

---
 device.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 1cc6d5b..5147350 100644
--- a/device.go
+++ b/device.go
@@ -826,6 +826,9 @@ func (d *Device) resetTick() {
 }
 
 func (d *Device) nextT(tick float64) float64 {
+	if !(d.avgT > 0) {
+		return 1.0
+	}
 	dur := d.state.Duration + tick
 	return math.Min(dur/d.avgT, 1.0)
 }
@@ -834,7 +837,10 @@ func (d *Device) updateState() {
 	d.navigator.Update(d.state)
 	d.state.Battery.Charge = d.battery.Value()
 	d.state.Battery.ChargeTime = int64(d.battery.ChargeTime().Seconds())
-	d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	d.state.TimeEstimate = 0
+	if d.state.Speed > 0 {
+		d.state.TimeEstimate = d.state.Distance.Distance / d.state.Speed
+	}
 	if len(d.sensors) != len(d.state.Sensors) {
 		d.updateSensors()
 	} else {
-- 
2.43.0


From 70b3529d7d6be69b6440b7d8c894dc3e9331b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:02 +0000
Subject: [PATCH 09/41] fix: a missed step adds its full time to the next step

---
 device.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index 5147350..5ea8b7b 100644
--- a/device.go
+++ b/device.go
@@ -37,8 +37,9 @@ type Device struct {
 	state     *pb.Device
 	sensors   []*types.Sensor
 	avgT      float64
-	tick      uint32
-	finished  bool // the last lap was completed and the device has not moved since
+	tick      uint32        // number of missed steps
+	missed    atomic.Uint64 // seconds of the missed steps, as float64 bits
+	finished  bool          // the last lap was completed and the device has not moved since
 	ns        [3]int
 }
 
@@ -638,7 +639,7 @@ func (d *Device) Version() [3]int {
 func (d *Device) Next(tick float64) bool {
 	ok := d.mu.TryLock()
 	if !ok {
-		d.incTick()
+		d.incTick(tick)
 		return false
 	}
 	defer d.mu.Unlock()
@@ -647,9 +648,7 @@ func (d *Device) Next(tick float64) bool {
 		return false
 	}
 
-	tickLock := atomic.LoadUint32(&d.tick)
-	seconds := float64(float64(tickLock) + tick)
-	d.resetTick()
+	seconds := d.resetTick() + tick
 	d.state.Duration += seconds
 	d.state.Tick = seconds
 
@@ -817,12 +816,22 @@ func (d *Device) unmount() error {
 	return nil
 }
 
-func (d *Device) incTick() {
+// incTick remembers the time of a step that could not be made.
+func (d *Device) incTick(seconds float64) {
 	atomic.AddUint32(&d.tick, 1)
+	for {
+		old := d.missed.Load()
+		sum := math.Float64bits(math.Float64frombits(old) + seconds)
+		if d.missed.CompareAndSwap(old, sum) {
+			return
+		}
+	}
 }
 
-func (d *Device) resetTick() {
+// resetTick returns the time of the steps missed so far and forgets it.
+func (d *Device) resetTick() float64 {
 	atomic.StoreUint32(&d.tick, 0)
+	return math.Float64frombits(d.missed.Swap(0))
 }
 
 func (d *Device) nextT(tick float64) float64 {
-- 
2.43.0


From 13ca9ca8f513b1603a20c98c2a6b1f87ee63a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 10/41] fix: SensorAt and Snapshot read the device under its
 lock

---
 device.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index 5ea8b7b..062b09a 100644
--- a/device.go
+++ b/device.go
@@ -286,13 +286,13 @@ func (d *Device) NumSensors() int {
 
 // SensorAt returns the sensor at the specified index from the device's navigator.
 func (d *Device) SensorAt(i int) *types.Sensor {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	if len(d.sensors) == 0 || i > len(d.sensors)-1 || i < 0 {
 		return nil
 	}
 
-	d.mu.RLock()
-	defer d.mu.RUnlock()
-
 	return d.sensors[i]
 }
 
@@ -726,6 +726,9 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 // Snapshot creates and returns a snapshot of the device's current state.
 // The snapshot includes device information, status, duration, navigator, speed, battery, and sensors (if any).
 func (d *Device) Snapshot() *pb.Snapshot {
+	d.mu.RLock()
+	defer d.mu.RUnlock()
+
 	snap := &pb.Snapshot{
 		Id:        d.state.Id,
 		UserId:    d.state.UserId,
@@ -742,11 +745,9 @@ func (d *Device) Snapshot() *pb.Snapshot {
 
 	if len(d.sensors) > 0 {
 		snap.Sensors = make([]*pb.Snapshot_SensorType, len(d.sensors))
-		d.mu.RLock()
 		for i := 0; i < len(d.sensors); i++ {
 			snap.Sensors[i] = d.sensors[i].Snapshot()
 		}
-		d.mu.RUnlock()
 	}
 	return snap
 }
-- 
2.43.0


From 3a5b81dc22f47be14941dbf11cee4e3fb27af42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 11/41] fix: a returned device state no longer changes, and
 races, with later steps

---
 device.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 062b09a..e886c85 100644
--- a/device.go
+++ b/device.go
@@ -368,10 +368,11 @@ func (d *Device) Status() Status {
 }
 
 // State returns a protobuf representation of the current device state.
+// It is a copy: it does not change when the device does.
 func (d *Device) State() *pb.Device {
 	d.mu.RLock()
 	defer d.mu.RUnlock()
-	return d.state
+	return proto.Clone(d.state).(*pb.Device)
 }
 
 // Update updates the device's state and routes based on its current navigator state.
-- 
2.43.0


From 093bfc40c27aa1d5a8770c26597de54a89bc9c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:22 +0000
Subject: [PATCH 12/41] fix: the device that fills a packet is delivered with
 it

---
 generator.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/generator.go b/generator.go
index 457f4a0..9cacf54 100644
--- a/generator.go
+++ b/generator.go
@@ -238,13 +238,12 @@ loop:
 				g.packet.Devices[g.index] = g.devices[i].State()
 				g.dmu.Unlock()
 
-				if g.index+1 == g.packetSize {
+				g.index++
+				if g.index == g.packetSize {
 					g.mu.RUnlock()
 					g.flush()
 					g.mu.RLock()
 					g.index = 0
-				} else {
-					g.index++
 				}
 			}
 			g.mu.RUnlock()
-- 
2.43.0


From fdd8ce89d0b3e787463fdfea3f6a7bec3a9ccb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:24 +0000
Subject: [PATCH 13/41] fix: a packet that failed to encode is never delivered

---
 generator.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator.go b/generator.go
index 9cacf54..008d65f 100644
--- a/generator.go
+++ b/generator.go
@@ -292,8 +292,10 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
-			if err != nil && g.onError != nil {
-				g.onError(err)
+			if err != nil {
+				if g.onError != nil {
+					g.onError(err)
+				}
 			} else if g.onPacket != nil {
 				g.onPacket(data)
 			}
-- 
2.43.0


From 79277f0eacac5e52bf36e02553120a1ee7e52303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 14/41] fix: attaching or detaching devices while packets are
 delivered neither drops nor repeats other devices

---
 generator.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/generator.go b/generator.go
index 008d65f..5838457 100644
--- a/generator.go
+++ b/generator.go
@@ -227,26 +227,28 @@ loop:
 				tick = 1
 			}
 
+			// Devices attached or detached while packets are
+			// delivered belong to the next tick.
 			g.mu.RLock()
-			for i := 0; i < len(g.devices); i++ {
-				g.devices[i].Next(tick)
+			devices := make([]*Device, len(g.devices))
+			copy(devices, g.devices)
+			for i := 0; i < len(devices); i++ {
+				devices[i].Next(tick)
 			}
+			g.mu.RUnlock()
 
 			g.index = 0
-			for i := 0; i < len(g.devices); i++ {
+			for i := 0; i < len(devices); i++ {
 				g.dmu.Lock()
-				g.packet.Devices[g.index] = g.devices[i].State()
+				g.packet.Devices[g.index] = devices[i].State()
 				g.dmu.Unlock()
 
 				g.index++
 				if g.index == g.packetSize {
-					g.mu.RUnlock()
 					g.flush()
-					g.mu.RLock()
 					g.index = 0
 				}
 			}
-			g.mu.RUnlock()
 
 			g.flush()
 			g.resetPacket()
-- 
2.43.0


From ed92206bd69b8324204ad2c363d8a08d0036cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 15/41] fix: closing the generator while several packets are
 delivered ends the run and its goroutines

---
 generator.go | 56 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 13 deletions(-)

diff --git a/generator.go b/generator.go
index 5838457..35f1f4d 100644
--- a/generator.go
+++ b/generator.go
@@ -246,11 +246,17 @@ loop:
 				g.index++
 				if g.index == g.packetSize {
 					g.flush()
+					if g.isClosed() {
+						break loop
+					}
 					g.index = 0
 				}
 			}
 
 			g.flush()
+			if g.isClosed() {
+				break loop
+			}
 			g.resetPacket()
 			g.notifyNextTick()
 
@@ -264,10 +270,7 @@ type slice struct {
 }
 
 func (g *Generator) doWorker(n int) {
-	defer func() {
-		g.wg.Done()
-		g.waitCh <- struct{}{}
-	}()
+	defer g.wg.Done()
 	
 	pck := &pb.Packet{}
 	enc := proto.MarshalOptions{}
@@ -282,7 +285,7 @@ func (g *Generator) doWorker(n int) {
 			}
 
 			if s.from == 0 && s.to == 0 {
-				g.waitCh <- struct{}{}
+				g.done()
 				continue
 			}
 
@@ -306,7 +309,7 @@ func (g *Generator) doWorker(n int) {
 				return
 			}
 
-			g.waitCh <- struct{}{}
+			g.done()
 		}
 	}
 }
@@ -339,11 +342,9 @@ func (g *Generator) doNext() {
 
 func (g *Generator) flush() {
 	if g.index <= g.numWorkers+g.workerSize {
-		g.sliceCh <- slice{from: 0, to: g.index}
-		if g.isClosed() {
-			return
+		if g.send(slice{from: 0, to: g.index}) {
+			g.wait()
 		}
-		<-g.waitCh
 	} else {
 		step := g.index / g.numWorkers
 		rem := g.index % g.numWorkers
@@ -357,17 +358,46 @@ func (g *Generator) flush() {
 			if i == g.numWorkers-1 {
 				s.to += rem
 			}
-			g.sliceCh <- s
+			if !g.send(s) {
+				return
+			}
 		}
 		for i := 0; i < g.numWorkers; i++ {
-			if g.isClosed() {
+			if !g.wait() {
 				return
 			}
-			<-g.waitCh
 		}
 	}
 }
 
+// send hands a slice over to the workers, which stop when the generator is closed.
+func (g *Generator) send(s slice) bool {
+	select {
+	case <-g.ctx.Done():
+		return false
+	case g.sliceCh <- s:
+		return true
+	}
+}
+
+// wait waits until a worker has finished a slice.
+func (g *Generator) wait() bool {
+	select {
+	case <-g.ctx.Done():
+		return false
+	case <-g.waitCh:
+		return true
+	}
+}
+
+// done tells that a worker has finished a slice.
+func (g *Generator) done() {
+	select {
+	case <-g.ctx.Done():
+	case g.waitCh <- struct{}{}:
+	}
+}
+
 func (g *Generator) isClosed() bool {
 	select {
 	case <-g.ctx.Done():
-- 
2.43.0


From 2019d7fee580516ff8060fbb0c70e7627f2fda5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 16/41] fix: setting a callback while the generator runs is not
 a data race

---
 generator.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/generator.go b/generator.go
index 35f1f4d..bb0cd7c 100644
--- a/generator.go
+++ b/generator.go
@@ -297,12 +297,16 @@ func (g *Generator) doWorker(n int) {
 			data, err := enc.MarshalAppend(buf, pck)
 			g.dmu.RUnlock()
 
+			g.mu.RLock()
+			onError, onPacket := g.onError, g.onPacket
+			g.mu.RUnlock()
+
 			if err != nil {
-				if g.onError != nil {
-					g.onError(err)
+				if onError != nil {
+					onError(err)
 				}
-			} else if g.onPacket != nil {
-				g.onPacket(data)
+			} else if onPacket != nil {
+				onPacket(data)
 			}
 
 			if g.isClosed() {
@@ -332,10 +336,13 @@ func (g *Generator) doNext() {
 			if g.isClosed() {
 				return
 			}
-			if g.onNext == nil {
+			g.mu.RLock()
+			onNext := g.onNext
+			g.mu.RUnlock()
+			if onNext == nil {
 				continue
 			}
-			g.onNext()
+			onNext()
 		}
 	}
 }
-- 
2.43.0


From 3ab2ed2161596a09fe1a961cfc4dce2844916136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 17/41] fix: the first tick does not advance devices by the
 time between New and Run

---
 generator.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/generator.go b/generator.go
index bb0cd7c..fbd3bd3 100644
--- a/generator.go
+++ b/generator.go
@@ -209,6 +209,13 @@ func (g *Generator) run() {
 		g.ticker.Stop()
 	}()
 
+	// The time between New and Run is not part of the first tick.
+	g.ticker.Reset(g.interval)
+	select {
+	case <-g.ticker.C:
+	default:
+	}
+
 	lastTime := time.Now()
 	var tick float64
 
-- 
2.43.0


From b93780683b12ca9523561ff5e55653fbaf8d0e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 18/41] fix: decoding incomplete or inconsistent binary data
 returns an error or a usable value instead of panicking

---
 curve/curve.go                   | 19 ++++++++++++-------
 device.go                        | 16 ++++++++++++++++
 io.go                            |  4 +++-
 navigator/navigator.go           | 19 +++++++++++++++++--
 navigator/route_track_segment.go |  4 ++--
 5 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/curve/curve.go b/curve/curve.go
index c49075a..616295c 100644
--- a/curve/curve.go
+++ b/curve/curve.go
@@ -79,6 +79,9 @@ func (c *Curve) Shuffle() {
 
 // Point returns a point on the curve for a given parameter t.
 func (c *Curve) Point(t float64) Point {
+	if len(c.points) == 0 {
+		return Point{}
+	}
 	c.points[0].vp = c.points[0].cp
 	u := t
 	for i, p := range c.points[1:] {
@@ -129,14 +132,16 @@ func (c *Curve) Snapshot() *proto.Snapshot_Curve {
 
 // FromSnapshot restores the curve's state from a snapshot.
 func (c *Curve) FromSnapshot(snap *proto.Snapshot_Curve) {
-	c.mode = int(snap.Mode)
-	c.min = snap.Min
-	c.max = snap.Max
-	c.points = make([]point, len(snap.Points))
-	for i := 0; i < len(snap.Points); i++ {
+	points := snap.GetPoints()
+	c.mode = int(snap.GetMode())
+	c.min = snap.GetMin()
+	c.max = snap.GetMax()
+	c.points = make([]point, len(points))
+	for i := 0; i < len(points); i++ {
+		vp, cp := points[i].GetVp(), points[i].GetCp()
 		c.points[i] = point{
-			vp: Point{X: snap.Points[i].Vp.X, Y: snap.Points[i].Vp.Y},
-			cp: Point{X: snap.Points[i].Cp.X, Y: snap.Points[i].Cp.Y},
+			vp: Point{X: vp.GetX(), Y: vp.GetY()},
+			cp: Point{X: cp.GetX(), Y: cp.GetY()},
 		}
 	}
 }
diff --git a/device.go b/device.go
index e886c85..f76d385 100644
--- a/device.go
+++ b/device.go
@@ -720,6 +720,9 @@ func (d *Device) UnmarshalBinary(data []byte) error {
 	if err := proto.Unmarshal(data, snap); err != nil {
 		return err
 	}
+	if err := validateSnapshot(snap); err != nil {
+		return err
+	}
 	d.FromSnapshot(snap)
 	return nil
 }
@@ -943,6 +946,19 @@ func (d *Device) hasSensor(id string) bool {
 	return false
 }
 
+func validateSnapshot(snap *pb.Snapshot) error {
+	if snap.Navigator == nil || snap.Navigator.Elevation == nil ||
+		snap.Speed == nil || snap.Battery == nil {
+		return fmt.Errorf("gpsgen: incomplete snapshot data")
+	}
+	for _, route := range snap.Navigator.Routes {
+		if err := new(navigator.Route).RouteFromSnapshot(route); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func initDeviceState() *pb.Device {
 	return &pb.Device{
 		Routes:    &pb.Device_Routes{},
diff --git a/io.go b/io.go
index d664a69..8cf7283 100644
--- a/io.go
+++ b/io.go
@@ -91,7 +91,9 @@ func DecodeRoutes(data []byte) ([]*navigator.Route, error) {
 	routes := make([]*navigator.Route, len(pbroutes.Routes))
 	for i := 0; i < len(pbroutes.Routes); i++ {
 		route := new(navigator.Route)
-		route.RouteFromSnapshot(pbroutes.Routes[i])
+		if err := route.RouteFromSnapshot(pbroutes.Routes[i]); err != nil {
+			return nil, err
+		}
 		routes[i] = route
 	}
 	return routes, nil
diff --git a/navigator/navigator.go b/navigator/navigator.go
index ac9828d..6402ac3 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -595,14 +595,15 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	n.routeIndex = int(snap.RouteIndex)
 	n.trackIndex = int(snap.TrackIndex)
 	n.segmentIndex = int(snap.SegmentIndex)
+	n.normalizeIndexes()
 	n.currentSegmentDistance = snap.CurrentSegmentDistance
 	n.currentRouteDistance = snap.CurrentRouteDistance
 	n.currentTrackDistance = snap.CurrentTrackDistance
 	n.currentDistance = snap.CurrentDistance
 	n.offlineIndex = int(snap.OfflineIndex)
 	n.point = geo.LatLonPoint{
-		Lon: snap.Point.Lon,
-		Lat: snap.Point.Lat,
+		Lon: snap.GetPoint().GetLon(),
+		Lat: snap.GetPoint().GetLat(),
 	}
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
@@ -761,6 +762,20 @@ func (n *Navigator) resetIndexes() {
 	n.finish = false
 }
 
+// normalizeIndexes replaces indexes that do not exist with the first ones.
+func (n *Navigator) normalizeIndexes() {
+	if n.routeIndex < 0 || n.routeIndex > len(n.routes)-1 {
+		n.routeIndex = 0
+	}
+	if n.CurrentTrack() == nil {
+		n.trackIndex = 0
+	}
+	track := n.CurrentTrack()
+	if track == nil || n.segmentIndex < 0 || n.segmentIndex > track.NumSegments()-1 {
+		n.segmentIndex = 0
+	}
+}
+
 func (n *Navigator) hasRoute(id string) bool {
 	for i := 0; i < len(n.routes); i++ {
 		if id == n.routes[i].id {
diff --git a/navigator/route_track_segment.go b/navigator/route_track_segment.go
index ada403f..39434de 100644
--- a/navigator/route_track_segment.go
+++ b/navigator/route_track_segment.go
@@ -79,8 +79,8 @@ func SegmentFromSnapshot(snap *SegmentSnapshot) Segment {
 		return Segment{}
 	}
 	return Segment{
-		pointA:  geo.LatLonPoint{Lon: snap.PointA.Lon, Lat: snap.PointA.Lat},
-		pointB:  geo.LatLonPoint{Lon: snap.PointB.Lon, Lat: snap.PointB.Lat},
+		pointA:  geo.LatLonPoint{Lon: snap.GetPointA().GetLon(), Lat: snap.GetPointA().GetLat()},
+		pointB:  geo.LatLonPoint{Lon: snap.GetPointB().GetLon(), Lat: snap.GetPointB().GetLat()},
 		dist:    snap.Distance,
 		bearing: snap.Bearing,
 		index:   int(snap.Index),
-- 
2.43.0


From 45d60ba3777461632b8edd3b95fb8a0b9cc8a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 19/41] fix: decoding into a used device leaves nothing of its
 old sensors and missed steps

---
 device.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/device.go b/device.go
index f76d385..acd308d 100644
--- a/device.go
+++ b/device.go
@@ -763,6 +763,8 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 
+	d.resetTick()
+	d.finished = false
 	d.state = initDeviceState()
 	d.state.Id = snap.Id
 	d.state.UserId = snap.UserId
@@ -779,6 +781,7 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Speed = d.speed.Value()
 	d.battery = new(types.Battery)
 	d.battery.FromSnapshot(snap.Battery)
+	d.sensors = nil
 	if len(snap.Sensors) > 0 {
 		d.sensors = make([]*types.Sensor, len(snap.Sensors))
 		for i := 0; i < len(snap.Sensors); i++ {
-- 
2.43.0


From 04a4bc46138f9be3807c32dd90d77f0449516c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 20/41] fix: a track is closed only if its last point has the
 latitude of the first, too

---
 navigator/route_track.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/navigator/route_track.go b/navigator/route_track.go
index d283e05..b3c4d48 100644
--- a/navigator/route_track.go
+++ b/navigator/route_track.go
@@ -183,5 +183,5 @@ func isClosed(points []geo.LatLonPoint) bool {
 	p1 := points[0]
 	p2 := points[len(points)-1]
 	return p1.Lon == p2.Lon &&
-		p2.Lat == p2.Lat
+		p1.Lat == p2.Lat
 }
-- 
2.43.0


From 30b83086fa3d5bfd31b232e482f09795df3efa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 21/41] fix: decoding GeoJSON gives each track its own id,
 name, colour and properties and rejects null parts without panicking

---
 geojson/encoding.go           | 22 +++++++++++++++++++---
 geojson/feature_collection.go |  8 ++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index 442db31..fe566b3 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -32,9 +32,15 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	if err := json.Unmarshal(data, &fc); err != nil {
 		return nil, err
 	}
+	if fc == nil {
+		return nil, ErrNoRoutes
+	}
 	routes := make([]*navigator.Route, 0, len(fc.Features))
 	for i := 0; i < len(fc.Features); i++ {
 		feature := fc.Features[i]
+		if feature == nil {
+			return nil, ErrInvalidRoute
+		}
 		if feature.Type != "Feature" {
 			continue
 		}
@@ -140,7 +146,11 @@ func parseGeometries(route *navigator.Route, tracks []trackInfo, geom orb.Geomet
 	}
 
 	for i := 0; i < len(collection); i++ {
-		if err := parseGeometry(route, tracks, collection[i]); err != nil {
+		var info []trackInfo
+		if tracks != nil {
+			info = tracks[i : i+1]
+		}
+		if err := parseGeometry(route, info, collection[i]); err != nil {
 			return err
 		}
 	}
@@ -158,7 +168,9 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 		} else {
 			trackInfo := tracks[0]
 			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom))
-			track.Props().Merge(trackInfo.Props)
+			if err == nil {
+				trackInfo.restore(track)
+			}
 		}
 		if err != nil {
 			return err
@@ -186,7 +198,9 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 		} else {
 			trackInfo := tracks[0]
 			track, err = navigator.RestoreTrack(trackInfo.ID, trackInfo.Color, toPoints(geom[0]))
-			track.Props().Merge(trackInfo.Props)
+			if err == nil {
+				trackInfo.restore(track)
+			}
 		}
 		if err != nil {
 			return err
@@ -214,6 +228,8 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 			return err
 		}
 		route.AddTrack(track)
+	case nil:
+		err = fmt.Errorf("%w - no geometry", ErrInvalidGeometryType)
 	default:
 		err = fmt.Errorf("%w - %s", ErrInvalidGeometryType, geom.GeoJSONType())
 	}
diff --git a/geojson/feature_collection.go b/geojson/feature_collection.go
index 9270fec..3aceb52 100644
--- a/geojson/feature_collection.go
+++ b/geojson/feature_collection.go
@@ -76,6 +76,14 @@ type trackInfo struct {
 	Props       map[string]interface{} `json:"properties"`
 }
 
+// restore sets the name and the properties of a track.
+func (t trackInfo) restore(track *navigator.Track) {
+	if len(t.Name) > 0 {
+		_ = track.ChangeName(t.Name)
+	}
+	track.Props().Merge(t.Props)
+}
+
 func copyPoints(track *navigator.Track) []orb.Point {
 	points := make([]orb.Point, 0, track.NumSegments()+1)
 	for i := 0; i < track.NumSegments(); i++ {
-- 
2.43.0


From c7d40c2d7150c760a97aac3be21b09e47bd7208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 22/41] fix: GPX encoding keeps the properties of tracks

---
 gpx/encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 584a28e..1116c18 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -63,10 +63,10 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 			trackNode.SetAttr("color", track.Color())
 			trackNode.SetAttr("distance", f2s(track.Distance()))
 			trackNode.Data = track.ID()
-			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 			if attrs := makeAttrs(track.Props()); len(attrs) > 0 {
 				trackNode.Attrs = append(trackNode.Attrs, attrs...)
 			}
+			routeNode.Nodes = append(routeNode.Nodes, trackNode)
 
 			gpxTrack.Segments = append(gpxTrack.Segments, gpxSegment)
 		}
-- 
2.43.0


From be919188e2d0ecb12c428033a2eccedbb0d1961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 23/41] fix: GPX decoding keeps ids, names and colours that
 look like numbers or booleans

---
 gpx/encoding.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 1116c18..1eebb97 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -104,12 +104,12 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 			}
 			routeInfo := root.Nodes[i]
 			routeProps := makeProps(routeInfo.Attrs)
-			routeID, ok := routeProps.String("id")
+			routeID, ok := routeInfo.GetAttr("id")
 			if !ok {
 				return nil, ErrInvalidRoute
 			}
-			color, _ := routeProps.String("color")
-			routeName, _ := routeProps.String("name")
+			color, _ := routeInfo.GetAttr("color")
+			routeName, _ := routeInfo.GetAttr("name")
 			resetProps(routeProps)
 			route := navigator.RestoreRoute(routeID, color, routeProps)
 			if len(routeName) > 0 {
@@ -122,8 +122,8 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 				trackInfo := root.Nodes[i].Nodes[j]
 				trackID := trackInfo.Data
 				trackProps := makeProps(trackInfo.Attrs)
-				color, _ := trackProps.String("color")
-				trackName, _ := trackProps.String("name")
+				color, _ := trackInfo.GetAttr("color")
+				trackName, _ := trackInfo.GetAttr("name")
 				resetProps(trackProps)
 				track, err := navigator.RestoreTrack(
 					trackID,
-- 
2.43.0


From e6c5a4de606e0c0b46afcbc58377830248420828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 24/41] fix: a random polygon of zero points uses the default
 number of points instead of panicking

---
 random/polygon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random/polygon.go b/random/polygon.go
index a38415f..220b25c 100644
--- a/random/polygon.go
+++ b/random/polygon.go
@@ -17,7 +17,7 @@ const (
 // Polygon generates a random polygon with the specified number of points and zoom level.
 // It returns a slice of [2]float64 representing the polygon's coordinates.
 func Polygon(points int, zoom float64) [][2]float64 {
-	if points < 0 {
+	if points <= 0 {
 		points = defaultPoints
 	}
 	if zoom < minZoom {
-- 
2.43.0


From 0c118515afa18ea07ced8b88d1ae976447891945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 25/41] fix: the distance between antipodal points is half the
 circumference instead of NaN

---
 geo/distance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geo/distance.go b/geo/distance.go
index 7ed99c1..cd762ad 100644
--- a/geo/distance.go
+++ b/geo/distance.go
@@ -34,5 +34,5 @@ func DistanceToHaversine(meters float64) float64 {
 
 // DistanceFromHaversine converts a haversine value to a distance in meters.
 func DistanceFromHaversine(haversine float64) float64 {
-	return earthRadius * 2 * math.Asin(math.Sqrt(haversine))
+	return earthRadius * 2 * math.Asin(math.Min(1, math.Sqrt(haversine)))
 }
-- 
2.43.0


From d6f347877edee969eb01e75c85c4a4f98d0152c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 26/41] fix: random routes near a pole or the antimeridian have
 valid coordinates

---
 geo/normalize.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/geo/normalize.go b/geo/normalize.go
index 3510535..d9a5917 100644
--- a/geo/normalize.go
+++ b/geo/normalize.go
@@ -1,13 +1,23 @@
 package geo
 
+import "math"
+
 // NormalizeCoordinates normalizes a set of coordinates by adding the given latitude and longitude offsets.
+// Latitudes beyond a pole are moved to the pole and longitudes beyond the antimeridian are wrapped.
 func NormalizeCoordinates(lat, lon float64, points [][2]float64) []LatLonPoint {
 	coords := make([]LatLonPoint, len(points))
 	for i := 0; i < len(points); i++ {
 		coords[i] = LatLonPoint{
-			points[i][0] + lat,
-			points[i][1] + lon,
+			Lat: math.Max(-90, math.Min(90, points[i][0]+lat)),
+			Lon: wrapLongitude(points[i][1] + lon),
 		}
 	}
 	return coords
 }
+
+func wrapLongitude(lon float64) float64 {
+	if lon >= -180 && lon <= 180 {
+		return lon
+	}
+	return lon - 360*math.Floor((lon+180)/360)
+}
-- 
2.43.0


From 8e1d9746c6981f7c5479a5fa8227c425e36c4541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 27/41] fix: the state no longer names a route or track that
 was removed

---
 navigator/navigator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 6402ac3..933b7ea 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -354,6 +354,8 @@ func (n *Navigator) Update(state *proto.Device) {
 	state.Navigator.CurrentRouteIndex = int64(n.routeIndex)
 	state.Navigator.CurrentTrackIndex = int64(n.trackIndex)
 	state.Navigator.CurrentSegmentIndex = int64(n.segmentIndex)
+	state.Navigator.CurrentRouteId = ""
+	state.Navigator.CurrentTrackId = ""
 	if route := n.CurrentRoute(); route != nil {
 		state.Navigator.CurrentRouteId = route.ID()
 	}
-- 
2.43.0


From 88432f163fe47fe9980e03b71fd52ea919d9bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 28/41] fix: a device that was moved after completing a lap no
 longer reports the lap as finished

---
 device.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index acd308d..bb4d750 100644
--- a/device.go
+++ b/device.go
@@ -532,7 +532,7 @@ func (d *Device) Location() geo.LatLonPoint {
 func (d *Device) DestinationTo(meters float64) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.DestinationTo(meters)
+	return d.moved(d.navigator.DestinationTo(meters))
 }
 
 // MoveToSegment updates the device's position to a specific segment within a track and route.
@@ -540,7 +540,7 @@ func (d *Device) DestinationTo(meters float64) bool {
 func (d *Device) MoveToSegment(routeIndex int, trackIndex int, segmentIndex int) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.MoveToSegment(routeIndex, trackIndex, segmentIndex)
+	return d.moved(d.navigator.MoveToSegment(routeIndex, trackIndex, segmentIndex))
 }
 
 // MoveToTrack updates the device's position to a specific track within a route.
@@ -548,7 +548,7 @@ func (d *Device) MoveToSegment(routeIndex int, trackIndex int, segmentIndex int)
 func (d *Device) MoveToTrack(routeIndex int, trackIndex int) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.MoveToTrack(routeIndex, trackIndex)
+	return d.moved(d.navigator.MoveToTrack(routeIndex, trackIndex))
 }
 
 // MoveToRoute updates the device's position to a specific route.
@@ -556,7 +556,7 @@ func (d *Device) MoveToTrack(routeIndex int, trackIndex int) bool {
 func (d *Device) MoveToRoute(routeIndex int) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.MoveToRoute(routeIndex)
+	return d.moved(d.navigator.MoveToRoute(routeIndex))
 }
 
 // MoveToTrackByID updates the device's position to a specific track within a route, identified by IDs.
@@ -564,7 +564,7 @@ func (d *Device) MoveToRoute(routeIndex int) bool {
 func (d *Device) MoveToTrackByID(routeID string, trackID string) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.MoveToTrackByID(routeID, trackID)
+	return d.moved(d.navigator.MoveToTrackByID(routeID, trackID))
 }
 
 // MoveToRouteByID updates the device's position to a specific route, identified by its ID.
@@ -572,7 +572,7 @@ func (d *Device) MoveToTrackByID(routeID string, trackID string) bool {
 func (d *Device) MoveToRouteByID(routeID string) bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.MoveToRouteByID(routeID)
+	return d.moved(d.navigator.MoveToRouteByID(routeID))
 }
 
 // ToPrevRoute updates the device's position to the previous route in the navigator.
@@ -580,7 +580,7 @@ func (d *Device) MoveToRouteByID(routeID string) bool {
 func (d *Device) ToPrevRoute() bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.PrevRoute()
+	return d.moved(d.navigator.PrevRoute())
 }
 
 // ToNextRoute updates the device's position to the next route in the navigator.
@@ -588,7 +588,7 @@ func (d *Device) ToPrevRoute() bool {
 func (d *Device) ToNextRoute() bool {
 	d.mu.Lock()
 	defer d.mu.Unlock()
-	return d.navigator.NextRoute()
+	return d.moved(d.navigator.NextRoute())
 }
 
 // ToOffline sets the device's status to offline in the navigator.
@@ -842,6 +842,14 @@ func (d *Device) resetTick() float64 {
 	return math.Float64frombits(d.missed.Swap(0))
 }
 
+// moved forgets that the last lap was completed if the device was moved.
+func (d *Device) moved(ok bool) bool {
+	if ok {
+		d.finished = false
+	}
+	return ok
+}
+
 func (d *Device) nextT(tick float64) float64 {
 	if !(d.avgT > 0) {
 		return 1.0
-- 
2.43.0


From 1d0a3cfd13d0b2cb088be08ce4f5faf61e9d8bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 29/41] fix: decoding GeoJSON with a null member of a geometry
 collection returns an error instead of panicking

---
 geojson/encoding.go           | 14 +++++++++++++-
 geojson/feature_collection.go |  3 ++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index fe566b3..f041569 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -29,7 +29,8 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 // Decode converts GeoJSON data into a slice of navigator.Routes.
 func Decode(data []byte) ([]*navigator.Route, error) {
 	fc := geojson.NewFeatureCollection()
-	if err := json.Unmarshal(data, &fc); err != nil {
+	err := safeUnmarshal(func() error { return json.Unmarshal(data, &fc) })
+	if err != nil {
 		return nil, err
 	}
 	if fc == nil {
@@ -71,6 +72,17 @@ func Decode(data []byte) ([]*navigator.Route, error) {
 	return routes, nil
 }
 
+// safeUnmarshal reports an invalid geometry on which the GeoJSON parser panics,
+// such as a null member of a geometry collection, as an error.
+func safeUnmarshal(unmarshal func() error) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", ErrInvalidGeometryType, r)
+		}
+	}()
+	return unmarshal()
+}
+
 func routeExists(props map[string]interface{}) bool {
 	_, ok1 := props["routeID"]
 	_, ok2 := props["color"]
diff --git a/geojson/feature_collection.go b/geojson/feature_collection.go
index 3aceb52..3840565 100644
--- a/geojson/feature_collection.go
+++ b/geojson/feature_collection.go
@@ -9,7 +9,8 @@ import (
 // ParseFeatureCollection parses a GeoJSON FeatureCollection from the provided data.
 func ParseFeatureCollection(data []byte) (*geojson.FeatureCollection, error) {
 	fc := geojson.NewFeatureCollection()
-	if err := fc.UnmarshalJSON(data); err != nil {
+	err := safeUnmarshal(func() error { return fc.UnmarshalJSON(data) })
+	if err != nil {
 		return nil, err
 	}
 	return fc, nil
-- 
2.43.0


From 51c90147c215bb4ce0ce95c4756c62ae8617a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 30/41] fix: destinations from or near a pole are exact instead
 of metres or a continent off

---
 geo/destination.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/geo/destination.go b/geo/destination.go
index b898cfd..79a5a63 100644
--- a/geo/destination.go
+++ b/geo/destination.go
@@ -10,10 +10,14 @@ func Destination(lat, lon, meters, bearingDegrees float64) (
 	θ := bearingDegrees * radians
 	φ1 := lat * radians
 	λ1 := lon * radians
-	φ2 := math.Asin(math.Sin(φ1)*math.Cos(δ) +
-		math.Cos(φ1)*math.Sin(δ)*math.Cos(θ))
-	λ2 := λ1 + math.Atan2(math.Sin(θ)*math.Sin(δ)*math.Cos(φ1),
-		math.Cos(δ)-math.Sin(φ1)*math.Sin(φ2))
+	// components towards the starting meridian, east of it and north; unlike
+	// an arc sine they are precise at the poles
+	x := math.Cos(φ1)*math.Cos(δ) - math.Sin(φ1)*math.Sin(δ)*math.Cos(θ)
+	y := math.Sin(δ) * math.Sin(θ)
+	z := math.Sin(φ1)*math.Cos(δ) + math.Cos(φ1)*math.Sin(δ)*math.Cos(θ)
+
+	φ2 := math.Atan2(z, math.Hypot(x, y))
+	λ2 := λ1 + math.Atan2(y, x)
 	λ2 = math.Mod(λ2+3*math.Pi, 2*math.Pi) - math.Pi // normalise to -180..+180°
 	return φ2 * degrees, λ2 * degrees
 }
-- 
2.43.0


From ebd2114436a9648109b3d7273132707dbb841a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 31/41] fix: a speed above 1000 is refused also when only the
 minimum is given

---
 types/speed.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/speed.go b/types/speed.go
index f3a5744..e2cda51 100644
--- a/types/speed.go
+++ b/types/speed.go
@@ -37,12 +37,12 @@ func NewSpeed(min, max float64, amplitude int) (*Speed, error) {
 	if min < MinSpeedVal {
 		return nil, ErrMinSpeed
 	}
-	if max > MaxSpeedVal {
-		return nil, ErrMaxSpeed
-	}
 	if max <= 0 {
 		max = min
 	}
+	if max > MaxSpeedVal {
+		return nil, ErrMaxSpeed
+	}
 	if min > max {
 		return nil, ErrSpeedMinGreaterMax
 	}
-- 
2.43.0


From 84cdfe41b89188945571f17fc488711977a5d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 32/41] fix: a battery with a negative maximum is refused

---
 types/battery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/battery.go b/types/battery.go
index aaf5f19..ac43729 100644
--- a/types/battery.go
+++ b/types/battery.go
@@ -37,7 +37,7 @@ type Battery struct {
 // If the min value is greater than the max value, the min value is adjusted to match the max value.
 // If the chargeTime is less than or equal to zero, it is set to a default value of 9 hours.
 func NewBattery(min, max float64, chargeTime time.Duration) (*Battery, error) {
-	if min < minBatteryVal {
+	if min < minBatteryVal || max < minBatteryVal {
 		return nil, ErrMinBattery
 	}
 	if max > maxBatteryVal {
-- 
2.43.0


From 328a668942802f2ac16d5922bd69f3daeffb16b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 33/41] fix: offline and elevation limits never become negative

---
 navigator/options.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/navigator/options.go b/navigator/options.go
index 774df88..7e363b9 100644
--- a/navigator/options.go
+++ b/navigator/options.go
@@ -2,6 +2,7 @@ package navigator
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/mmadfox/go-gpsgen/types"
 )
@@ -62,8 +63,12 @@ func (o *navigatorOptions) validateElevation() error {
 		return fmt.Errorf("invalid maximum navigator elevation value got %.2f, expected < %.2f meters",
 			o.elevationMax, MaxElevation)
 	}
+	if o.elevationMax < MinElevation {
+		return fmt.Errorf("invalid maximum navigator elevation value got %.2f, expected > %.2f meters",
+			o.elevationMax, MinElevation)
+	}
 	if o.elevationMin > o.elevationMax {
-		o.elevationMin = o.elevationMax - 1
+		o.elevationMin = math.Max(o.elevationMax-1, MinElevation)
 	}
 	if o.elevationMax < o.elevationMin {
 		o.elevationMax = o.elevationMin + 1
@@ -84,8 +89,15 @@ func (o *navigatorOptions) validateOffline() error {
 		return fmt.Errorf("invalid maximum navigator offline value got %d, expected < %d seconds",
 			o.maxOffline, MaxOffline)
 	}
+	if o.maxOffline < MinOffline {
+		return fmt.Errorf("invalid maximum navigator offline value got %d, expected > %d seconds",
+			o.maxOffline, MinOffline)
+	}
 	if o.minOffline > o.maxOffline {
 		o.minOffline = o.maxOffline - 1
+		if o.minOffline < MinOffline {
+			o.minOffline = MinOffline
+		}
 	}
 	if o.maxOffline < o.minOffline {
 		o.maxOffline = o.minOffline + 1
-- 
2.43.0


From b4fd3c12d1f75d431038086ef2129bf34a594b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 34/41] fix: devices created from the same options have
 different ids

---
 device_options.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/device_options.go b/device_options.go
index c015148..265dc41 100644
--- a/device_options.go
+++ b/device_options.go
@@ -47,10 +47,11 @@ type DeviceOptions struct {
 }
 
 func (o *DeviceOptions) applyFor(s *pb.Device) error {
-	if len(o.ID) == 0 {
-		o.ID = uuid.NewString()
+	id := o.ID
+	if len(id) == 0 {
+		id = uuid.NewString()
 	}
-	s.Id = o.ID
+	s.Id = id
 	s.Description = o.Descr
 	if len(o.Model) > 0 {
 		model, err := types.NewModel(o.Model)
-- 
2.43.0


From 5907cb380e906f1a6767d3ca0965938adf7acfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:46 +0000
Subject: [PATCH 35/41] fix: restoring a device that is attached to a generator
 does not mark it stopped

---
 device.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index bb4d750..cfa611a 100644
--- a/device.go
+++ b/device.go
@@ -773,7 +773,9 @@ func (d *Device) FromSnapshot(snap *pb.Snapshot) {
 	d.state.Color = snap.Color
 	d.state.Description = snap.Descr
 	d.state.Duration = snap.Duration
-	d.status = Status(snap.Status)
+	if d.status != Running { // a device that is attached to a generator stays so
+		d.status = Status(snap.Status)
+	}
 	d.navigator = new(navigator.Navigator)
 	d.navigator.FromSnapshot(snap.Navigator)
 	d.speed = new(types.Speed)
-- 
2.43.0


From cd9f5f4c2dd4e5cad13ae3f0155bfba0a67cb5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:09 +0000
Subject: [PATCH 36/41] fix: routes and tracks with ids longer than 36
 characters can be found and removed

---
 navigator/navigator.go | 9 +++------
 navigator/route.go     | 4 ++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index 933b7ea..f0ecffb 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -122,7 +122,7 @@ func (n *Navigator) ResetRoutes() bool {
 
 // RouteByID retrieves a route by its ID.
 func (n *Navigator) RouteByID(routeID string) (*Route, error) {
-	if len(routeID) == 0 || len(routeID) > 36 {
+	if len(routeID) == 0 {
 		return nil, ErrRouteNotFound
 	}
 	for i := 0; i < len(n.routes); i++ {
@@ -147,7 +147,7 @@ func (n *Navigator) EachRoute(fn func(int, *Route) bool) {
 
 // RemoveRoute removes a route by its ID.
 func (n *Navigator) RemoveRoute(routeID string) (ok bool) {
-	if len(routeID) == 0 || len(routeID) > 36 {
+	if len(routeID) == 0 {
 		return
 	}
 	for i := 0; i < len(n.routes); i++ {
@@ -166,10 +166,7 @@ func (n *Navigator) RemoveRoute(routeID string) (ok bool) {
 
 // RemoveTrack removes a track from a route.
 func (n *Navigator) RemoveTrack(routeID string, trackID string) bool {
-	if len(routeID) == 0 ||
-		len(routeID) > 36 ||
-		len(trackID) == 0 ||
-		len(trackID) > 36 {
+	if len(routeID) == 0 || len(trackID) == 0 {
 		return false
 	}
 	route, err := n.RouteByID(routeID)
diff --git a/navigator/route.go b/navigator/route.go
index 69e9b0b..83d936f 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -120,7 +120,7 @@ func (r *Route) TrackAt(i int) *Track {
 
 // RemoveTrack removes a track from the route.
 func (r *Route) RemoveTrack(trackID string) (ok bool) {
-	if len(trackID) == 0 || len(trackID) > 36 {
+	if len(trackID) == 0 {
 		return
 	}
 	for i := 0; i < len(r.tracks); i++ {
@@ -141,7 +141,7 @@ func (r *Route) RemoveTrack(trackID string) (ok bool) {
 
 // TrackByID returns the track with the specified ID.
 func (r *Route) TrackByID(trackID string) (*Track, error) {
-	if len(trackID) == 0 || len(trackID) > 36 {
+	if len(trackID) == 0 {
 		return nil, ErrTrackNotFound
 	}
 	for i := 0; i < len(r.tracks); i++ {
-- 
2.43.0


From 9f9cc53ad6a73e2aaa75942b85122dd09b05d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:53 +0000
Subject: [PATCH 37/41] fix: geojson: refuse polygons without rings

A polygon without rings was left out silently, giving a route without tracks or
with a part missing, while any other path of fewer than two points is an error.
---
 geojson/encoding.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geojson/encoding.go b/geojson/encoding.go
index f041569..47ac4c6 100644
--- a/geojson/encoding.go
+++ b/geojson/encoding.go
@@ -201,7 +201,7 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 		}
 	case orb.Polygon:
 		if len(geom) == 0 {
-			return
+			return navigator.ErrInvalidRoutePath
 		}
 		var track *navigator.Track
 		var err error
@@ -229,6 +229,8 @@ func parseGeometry(route *navigator.Route, tracks []trackInfo, geometry orb.Geom
 					return err
 				}
 				route.AddTrack(track)
+			} else {
+				return navigator.ErrInvalidRoutePath
 			}
 		}
 	case orb.MultiPoint:
-- 
2.43.0


From e56c2173b9d78ecd57c6d66fd72ca671c164de4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:23 +0000
Subject: [PATCH 38/41] fix: navigator: fill in the parts missing from a
 location

---
 navigator/navigator.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index f0ecffb..afcb2d6 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -808,10 +808,15 @@ func (n *Navigator) normalizeDeviceState(device *proto.Device) {
 		device.Navigator = new(proto.Device_Navigator)
 	}
 	if device.Location == nil {
-		device.Location = &proto.Device_Location{
-			LatDms: new(proto.Device_Location_DMS),
-			LonDms: new(proto.Device_Location_DMS),
-			Utm:    new(proto.Device_Location_UTM),
-		}
+		device.Location = new(proto.Device_Location)
+	}
+	if device.Location.LatDms == nil {
+		device.Location.LatDms = new(proto.Device_Location_DMS)
+	}
+	if device.Location.LonDms == nil {
+		device.Location.LonDms = new(proto.Device_Location_DMS)
+	}
+	if device.Location.Utm == nil {
+		device.Location.Utm = new(proto.Device_Location_UTM)
 	}
 }
-- 
2.43.0


From 22944fb96f911e4502be90d6e8acacfa5be5ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:38 +0000
Subject: [PATCH 39/41] fix: navigator: restoring a route from a snapshot
 replaces its name

---
 navigator/route.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/navigator/route.go b/navigator/route.go
index 83d936f..5848663 100644
--- a/navigator/route.go
+++ b/navigator/route.go
@@ -215,14 +215,15 @@ func (r *Route) RouteFromSnapshot(snap *RouteSnapshot) error {
 		}
 	}
 
+	var name Name
 	if len(snap.Name) > 0 {
-		name, err := ParseName(snap.Name)
-		if err != nil {
+		var err error
+		if name, err = ParseName(snap.Name); err != nil {
 			return err
 		}
-		r.name = name
 	}
 
+	r.name = name
 	r.id = snap.Id
 	r.dist = snap.Distance
 	r.color = snap.Color
-- 
2.43.0


From 34102248b71b88fb401160333e852065e9fb68b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:38 +0000
Subject: [PATCH 40/41] fix: navigator: restoring a navigator from a snapshot
 leaves nothing of what it held

---
 navigator/navigator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/navigator/navigator.go b/navigator/navigator.go
index afcb2d6..32881bd 100644
--- a/navigator/navigator.go
+++ b/navigator/navigator.go
@@ -607,6 +607,8 @@ func (n *Navigator) FromSnapshot(snap *proto.Snapshot_Navigator) {
 	n.elevation = new(types.Sensor)
 	n.elevation.FromSnapshot(snap.Elevation)
 	n.skipOffline = snap.SkipOffline
+	n.finish = false
+	n.offline = nil
 	if !n.skipOffline {
 		n.offline = types.NewRandom(int(snap.OfflineMin), int(snap.OfflineMax))
 	}
-- 
2.43.0


From c3183c999c648e06d10f123adaa6a308a9bd8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:35 +0000
Subject: [PATCH 41/41] fix: gpx: a route without tracks made the document
 undecodable

---
 gpx/encoding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpx/encoding.go b/gpx/encoding.go
index 1eebb97..237e68b 100644
--- a/gpx/encoding.go
+++ b/gpx/encoding.go
@@ -34,6 +34,9 @@ func Encode(routes []*navigator.Route) ([]byte, error) {
 	// map: tracks=routes, segments=tracks
 	for i := 0; i < len(routes); i++ {
 		route := routes[i]
+		if route.NumTracks() == 0 {
+			continue // nothing that could be restored
+		}
 		gpxTrack := gpx.GPXTrack{
 			Segments: make([]gpx.GPXTrackSegment, 0, route.NumTracks()),
 		}
-- 
2.43.0

