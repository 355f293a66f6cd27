package checks

import (
	"bytes"
	"fmt"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	gpsgen "github.com/mmadfox/go-gpsgen"
	"github.com/mmadfox/go-gpsgen/types"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

// The generator runs in a bubble with a fake clock: time advances only when
// every goroutine of the bubble waits, so a plan of ticks, slow callbacks,
// edits and closings unfolds in microseconds and always in the same way.

// bubble runs f in a bubble and passes panics on, including the one that
// reports goroutines which can never run again.
func bubble(t *testing.T, f func()) {
	var p any
	func() {
		defer func() {
			if q := recover(); q != nil && p == nil {
				p = q
			}
		}()
		synctest.Test(t, func(*testing.T) {
			defer func() { p = recover() }()
			f()
		})
	}()
	if p != nil {
		panic(p)
	}
}

// offbeat keeps the times of the driver's actions apart from those of ticks
// and callbacks, which are multiples of a millisecond.
const offbeat = 123457 * time.Nanosecond

const (
	opAttachNew = iota
	opDetach
	opAttachAgain
	opAttachRunning
	opDetachUnknown
	opLook
)

type schedOp struct {
	at   time.Duration // driver: when; callbacks: unused
	nth  int           // callbacks: in which call
	kind int
	pick int
}

type busyOp struct {
	at, dur time.Duration
	pick    int
}

type plan struct {
	interval   time.Duration
	packetSize int
	defaults   string // "", "nil" (no options given) or "new" (NewOptions)
	workers    int
	devices    int
	bad        map[int]bool // devices that cannot be encoded
	start      time.Duration
	pDelay     []time.Duration
	nDelay     []time.Duration
	slowUntil  time.Duration
	ops        []schedOp // by the driver
	pOps, nOps []schedOp // in the packet and next callbacks
	busy       []busyOp
	until      time.Duration

	closeAt    string // "end", "packet", "next", "error", "before", "any"
	closeNth   int
	closeTime  time.Duration
	closers    int
	noCallback bool
}

func (p *plan) effInterval() time.Duration {
	if p.interval <= 0 {
		return time.Second
	}
	return p.interval
}

func (p *plan) effPacket() int { return max(p.packetSize, 1024) }

func (p *plan) effWorkers() int {
	if p.workers <= 0 {
		return runtime.NumCPU()
	}
	return p.workers
}

func (p *plan) instant() bool { return len(p.pDelay) == 0 && len(p.nDelay) == 0 }

func (p *plan) note(k *kase) {
	k.note("%sinterval %v packet %d workers %d devices %d bad %v start %v delays %v %v until %v ops %v/%v/%v busy %v run %v close %s %d %v x%d",
		p.defaults, p.interval, p.packetSize, p.workers, p.devices, p.bad, p.start, p.pDelay, p.nDelay, p.slowUntil,
		p.ops, p.pOps, p.nOps, p.busy, p.until, p.closeAt, p.closeNth, p.closeTime, p.closers)
}

func ms(rt *rapid.T, lo, hi int, label string) time.Duration {
	return time.Duration(intn(rt, lo, hi, label)) * time.Millisecond
}

func genPlan(rt *rapid.T) *plan {
	p := &plan{bad: map[int]bool{}, closeAt: "end", closers: 1}
	p.interval = oneOf(rt, "interval", time.Second, 3*time.Second, 1500*time.Millisecond, 250*time.Millisecond, 7*time.Second, time.Hour, 0, -time.Second)
	if chance(rt, 30, "anyinterval") {
		p.interval = ms(rt, 20, 20000, "intervalms")
	}
	p.workers = oneOf(rt, "workers", 1, 2, 3, 4, 8, 16, 0, -3)
	if chance(rt, 15, "any workers") {
		p.workers = intn(rt, 5, 100, "nworkers")
	}
	p.packetSize = oneOf(rt, "packet", 1024, 1024, 0, 10, 1500, 8192)
	if p.defaults = oneOf(rt, "defaults", "", "", "", "", "", "", "", "", "", "", "nil", "new"); p.defaults != "" {
		p.interval, p.packetSize, p.workers = 3*time.Second, 8192, 4 // as documented
	}
	p.devices = intn(rt, 1, 12, "devices")
	p.start = oneOf(rt, "start", 0, 0, 10*time.Millisecond, 900*time.Millisecond, 5*time.Second, time.Hour)
	p.until = p.effInterval()*time.Duration(length(rt, 1, 6, "ticks")) + p.effInterval()/2
	if chance(rt, 50, "slow") {
		for i := intn(rt, 0, 3, "npd"); i > 0; i-- {
			p.pDelay = append(p.pDelay, oneOf(rt, "pd", 0, 10*time.Millisecond, p.effInterval()/4, p.effInterval(), p.effInterval()*5/2).Truncate(time.Millisecond))
		}
		for i := intn(rt, 0, 3, "nnd"); i > 0; i-- {
			p.nDelay = append(p.nDelay, oneOf(rt, "nd", 0, 10*time.Millisecond, p.effInterval()/4, p.effInterval(), p.effInterval()*5/2).Truncate(time.Millisecond))
		}
		p.slowUntil = p.until
	}
	return p
}

// manyDevices makes a plan of few ticks with so many devices that packets are
// divided among workers and filled.
func (p *plan) manyDevices(rt *rapid.T) {
	p.devices = oneOf(rt, "many", 120, 129, 137, 200, 259, 260, 345, 520, 1023, 1024, 1025, 1026, 1100, 1500, 2047, 2048, 2049, 2200)
	if chance(rt, 30, "any many") {
		p.devices = intn(rt, 50, 400, "nmany")
	}
	p.until = p.effInterval()*time.Duration(intn(rt, 1, 3, "ticks")) + p.effInterval()/2
	p.slowUntil = min(p.slowUntil, p.until)
	p.ops, p.pOps, p.nOps = nil, nil, nil
}

func genOps(rt *rapid.T, p *plan) {
	kinds := []int{opAttachNew, opAttachNew, opDetach, opDetach, opAttachAgain, opAttachRunning, opDetachUnknown, opLook}
	op := func() schedOp {
		return schedOp{kind: oneOf(rt, "kind", kinds...), pick: intn(rt, 0, 50, "pick")}
	}
	for i := intn(rt, 0, 6, "nops"); i > 0; i-- {
		o := op()
		o.at = uniDur(rt, p.until, "at")
		p.ops = append(p.ops, o)
	}
	for i := intn(rt, 0, 3, "npops"); i > 0; i-- {
		o := op()
		o.nth = intn(rt, 1, 6, "nth")
		p.pOps = append(p.pOps, o)
	}
	for i := intn(rt, 0, 3, "nnops"); i > 0; i-- {
		o := op()
		o.nth = intn(rt, 1, 6, "nth")
		p.nOps = append(p.nOps, o)
	}
}

// uniDur is a time before d that no tick or callback happens at.
func uniDur(rt *rapid.T, d time.Duration, label string) time.Duration {
	return ms(rt, 0, int(d/time.Millisecond), label) + offbeat
}

// ---- running a plan ------------------------------------------------------

type schedDevice struct {
	d      *gpsgen.Device
	id     string
	bad    bool
	early  bool // attached before the run and never detached
	events []membership
	busy   [][2]time.Duration

	// Attaching and detaching wait for a device that is busy, which they
	// cannot do with a fake clock.
	mayBeBusy bool
}

type membership struct {
	attached bool
	d1, d2   float64 // the probe's duration before and after the change
}

type packetRecord struct {
	tick       float64 // the probe's duration while the packet is delivered
	start, end time.Duration
	ids        []string
	durations  []float64
	ticks      []float64
	data, copy []byte
	err        bool
	seq, eseq  int
}

type nextRecord struct {
	start, end time.Duration
	seq        int
}

type schedule struct {
	p    *plan
	g    *gpsgen.Generator
	base time.Time // when Run was called

	mu       sync.Mutex
	devs     []*schedDevice
	byID     map[string]*schedDevice
	list     []*schedDevice // model of the registry
	packets  []*packetRecord
	nexts    []*nextRecord
	seq      int
	problems []string
	closed   []time.Duration
	ran      bool
	ranAt    time.Duration
	ranSeq   int
}

func (s *schedule) fail(format string, args ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.problems) < 5 {
		s.problems = append(s.problems, fmt.Sprintf(format, args...))
	}
}

func (s *schedule) now() time.Duration { return time.Since(s.base) }

func (s *schedule) newDevice(bad bool) *schedDevice {
	o := steadyOptions(1)
	o.ID = fmt.Sprintf("device-%d", len(s.devs))
	o.Model = "Model"
	o.Color = "#102030"
	if bad {
		o.Descr = "\xff\xfe"
	}
	d := must(gpsgen.NewDevice(o))
	noErr(d.AddRoute(longRoute))
	sd := &schedDevice{d: d, id: o.ID, bad: bad}
	s.devs = append(s.devs, sd)
	s.byID[sd.id] = sd
	return sd
}

var longRoute = routeOf([]pt{{Lat: 1, Lon: 1}, {Lat: 1, Lon: 80}})

func (s *schedule) probe() float64 { return s.devs[0].d.Duration() }

// change makes a registry edit and records during which ticks it happened.
func (s *schedule) change(sd *schedDevice, attach bool) error {
	d1 := s.probe()
	var err error
	if attach {
		err = s.g.Attach(sd.d)
	} else {
		err = s.g.Detach(sd.id)
	}
	d2 := s.probe()
	s.mu.Lock()
	defer s.mu.Unlock()
	sd.events = append(sd.events, membership{attach, d1, d2})
	sd.early = sd.early && attach
	return err
}

// do is one action of the driver or of a callback. Actions are serialized so
// that the model of the registry is exact.
func (s *schedule) do(o schedOp, opMu *sync.Mutex) {
	opMu.Lock()
	defer opMu.Unlock()
	var in, out []*schedDevice // without the probe
	s.mu.Lock()
	for _, sd := range s.list {
		if sd != s.devs[0] && !sd.mayBeBusy {
			in = append(in, sd)
		}
	}
	for _, sd := range s.devs {
		if !s.contains(sd) {
			out = append(out, sd)
		}
	}
	s.mu.Unlock()
	attach := func(sd *schedDevice) {
		s.mu.Lock()
		s.list = append(s.list, sd)
		s.mu.Unlock()
		if err := s.change(sd, true); err != nil {
			s.fail("attaching %s: %v", sd.id, err)
		}
		if sd.d.Status() != gpsgen.Running {
			s.fail("%s is attached but not running", sd.id)
		}
	}
	switch o.kind {
	case opAttachNew:
		if len(s.devs) > 2600 {
			return
		}
		s.mu.Lock()
		sd := s.newDevice(false)
		s.mu.Unlock()
		attach(sd)
	case opAttachAgain:
		if len(out) > 0 {
			attach(out[o.pick%len(out)])
		}
	case opDetach:
		if len(in) > 0 {
			sd := in[o.pick%len(in)]
			if err := s.change(sd, false); err != nil {
				s.fail("detaching %s: %v", sd.id, err)
			}
			s.mu.Lock()
			for i := range s.list {
				if s.list[i] == sd {
					s.list = append(append([]*schedDevice{}, s.list[:i]...), s.list[i+1:]...)
					break
				}
			}
			s.mu.Unlock()
			if sd.d.Status() != gpsgen.Stopped {
				s.fail("%s is detached but not stopped", sd.id)
			}
		}
	case opAttachRunning:
		sd := s.devs[0]
		if len(in) > 0 {
			sd = in[o.pick%len(in)]
		}
		if s.g.Attach(sd.d) == nil {
			s.fail("a running device was attached again")
		}
	case opDetachUnknown:
		s.mu.Lock()
		devs := append([]*schedDevice{}, s.devs...)
		s.mu.Unlock()
		ids := []string{"unknown", ""}
		if len(devs) > 0 {
			id := devs[0].id
			ids = append(ids, strings.ToUpper(id), id[:len(id)-1], id[1:], id+" ")
		}
		id := ids[o.pick%len(ids)]
		for _, sd := range devs {
			if sd.id == id {
				id = "unknown"
			}
		}
		if err := s.g.Detach(id); err != nil {
			s.fail("detaching an unknown device: %v", err)
		}
		if _, ok := s.g.Lookup(id); ok || s.g.HasTracker(id) {
			s.fail("an unknown device %q is found", id)
		}
	case opLook:
	}
	s.look()
}

func (s *schedule) contains(sd *schedDevice) bool {
	for _, x := range s.list {
		if x == sd {
			return true
		}
	}
	return false
}

// look compares the registry with its model.
func (s *schedule) look() {
	s.mu.Lock()
	list := append([]*schedDevice{}, s.list...)
	devs := append([]*schedDevice{}, s.devs...)
	s.mu.Unlock()
	if s.g.NumDevices() != len(list) {
		s.fail("%d devices, want %d", s.g.NumDevices(), len(list))
		return
	}
	i := 0
	s.g.Each(func(n int, d *gpsgen.Device) bool {
		if n != i || i >= len(list) || list[i].d != d {
			s.fail("device %d (%d) is %s", n, i, d.ID())
			return false
		}
		i++
		return true
	})
	if i != len(list) {
		s.fail("%d devices visited, want %d", i, len(list))
	}
	in := map[*schedDevice]bool{}
	for _, sd := range list {
		in[sd] = true
	}
	if len(devs) > 60 {
		devs = devs[:60]
	}
	for _, sd := range devs {
		d, ok := s.g.Lookup(sd.id)
		if ok != in[sd] || ok && d != sd.d || s.g.HasTracker(sd.id) != ok {
			s.fail("lookup of %s: %v %v, want %v", sd.id, ok, s.g.HasTracker(sd.id), in[sd])
		}
	}
}

func pickDelay(ds []time.Duration, n int) time.Duration {
	if len(ds) == 0 {
		return 0
	}
	return ds[n%len(ds)]
}

func runPlan(t *testing.T, p *plan) *schedule {
	var s *schedule
	bubble(t, func() {
		opts := &gpsgen.Options{Interval: p.interval, PacketSize: p.packetSize, NumWorkers: p.workers}
		switch p.defaults {
		case "nil":
			opts = nil
		case "new":
			opts = gpsgen.NewOptions()
		}
		s = &schedule{p: p, byID: map[string]*schedDevice{}, base: time.Now()}
		s.g = gpsgen.New(opts)
		defer s.g.Close()
		var opMu sync.Mutex
		for i := 0; i < p.devices; i++ {
			s.newDevice(p.bad[i])
		}
		for _, b := range p.busy {
			s.devs[1+b.pick%(p.devices-1)].mayBeBusy = true
		}
		for _, sd := range s.devs {
			if err := s.g.Attach(sd.d); err != nil {
				s.fail("attaching %s: %v", sd.id, err)
			}
			sd.early = true
			sd.events = append(sd.events, membership{true, -1, -1})
		}
		s.list = append(s.list, s.devs...)
		npackets, nerrors := 0, 0

		closeNow := func() {
			s.mu.Lock()
			s.closed = append(s.closed, s.now())
			s.mu.Unlock()
			s.g.Close()
		}
		open := func(data []byte, e error) *packetRecord {
			r := &packetRecord{tick: s.probe(), start: s.now(), err: e != nil}
			s.mu.Lock()
			defer s.mu.Unlock()
			if s.ran {
				s.problems = append(s.problems, "a packet was delivered after the run had returned")
			}
			s.packets = append(s.packets, r)
			s.seq++
			r.seq = s.seq
			return r
		}
		finish := func(r *packetRecord) {
			s.mu.Lock()
			s.seq++
			r.eseq = s.seq
			r.end = s.now()
			s.mu.Unlock()
		}
		if !p.noCallback {
			s.g.OnPacket(func(data []byte) {
				r := open(data, nil)
				s.mu.Lock()
				npackets++
				n := npackets
				s.mu.Unlock()
				defer finish(r)
				s.readPacket(r, data)
				if p.closeAt == "packet" && n >= p.closeNth {
					closeNow()
				}
				if d := pickDelay(p.pDelay, n); d > 0 && s.now() < p.slowUntil {
					time.Sleep(d)
				}
				for _, o := range p.pOps {
					if o.nth == n {
						s.do(o, &opMu)
					}
				}
			})
			s.g.OnError(func(err error) {
				r := open(nil, fmt.Errorf("x"))
				s.mu.Lock()
				nerrors++
				n := nerrors
				s.mu.Unlock()
				defer finish(r)
				if err == nil {
					s.fail("the error callback was called without an error")
				}
				if p.closeAt == "error" && n >= p.closeNth {
					closeNow()
				}
			})
			s.g.OnNext(func() {
				s.mu.Lock()
				s.seq++
				r := &nextRecord{start: s.now(), seq: s.seq}
				if s.ran {
					s.problems = append(s.problems, "the next-callback was called after the run had returned")
				}
				s.nexts = append(s.nexts, r)
				n := len(s.nexts)
				s.mu.Unlock()
				defer func() {
					s.mu.Lock()
					r.end = s.now()
					s.mu.Unlock()
				}()
				if p.closeAt == "next" && n >= p.closeNth {
					closeNow()
				}
				if d := pickDelay(p.nDelay, n); d > 0 && s.now() < p.slowUntil {
					time.Sleep(d)
				}
				for _, o := range p.nOps {
					if o.nth == n {
						time.Sleep(offbeat)
						s.do(o, &opMu)
					}
				}
			})
		}

		time.Sleep(p.start)
		s.base = time.Now()
		if p.closeAt == "before" {
			closeNow()
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			s.g.Run()
			s.mu.Lock()
			s.ran = true
			s.ranAt = s.now()
			s.seq++
			s.ranSeq = s.seq
			s.mu.Unlock()
		}()

		// Actions and busy periods.
		var wg sync.WaitGroup
		for _, b := range p.busy {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(b.at)
				sd := s.devs[1+b.pick%(p.devices-1)]
				w := [2]time.Duration{s.now(), 0}
				sd.d.EachRoute(func(int, *gpsgen.Route) bool { time.Sleep(b.dur); return true })
				w[1] = s.now()
				s.mu.Lock()
				sd.busy = append(sd.busy, w)
				s.mu.Unlock()
			}()
		}
		for c := 0; c < p.closers && p.closeAt == "any"; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(p.closeTime)
				closeNow()
			}()
		}
		ops := append([]schedOp{}, p.ops...)
		sort.SliceStable(ops, func(i, j int) bool { return ops[i].at < ops[j].at })
		for _, o := range ops {
			time.Sleep(o.at - s.now())
			s.do(o, &opMu)
		}
		time.Sleep(p.until - s.now())
		wg.Wait()
		// A quiet phase: the callbacks no longer wait.
		time.Sleep(4 * p.effInterval())
		time.Sleep(4*p.effInterval() - s.now()%p.effInterval() + offbeat)
		if p.closeAt == "end" {
			closeNow()
		}
		if len(s.closed) == 0 {
			// The planned closing never came: nothing to check about it.
			closeNow()
		}
		<-done
		synctest.Wait()
		time.Sleep(10 * p.effInterval())
		synctest.Wait()
		if leak := leaked(); leak != "" {
			s.fail("a goroutine of the generator is left: %s", leak)
		}
	})
	return s
}

// readPacket decodes a delivered packet and compares it with the devices,
// which cannot advance before the packet has been delivered.
func (s *schedule) readPacket(r *packetRecord, data []byte) {
	r.data, r.copy = data, bytes.Clone(data)
	pck, err := gpsgen.PacketFromBytes(data)
	if err != nil {
		s.fail("a delivered packet does not decode: %v", err)
		return
	}
	if pck.Timestamp != time.Now().Unix() {
		s.fail("the packet is from %d, now is %d", pck.Timestamp, time.Now().Unix())
	}
	for _, st := range pck.Devices {
		s.mu.Lock()
		sd := s.byID[st.GetId()]
		s.mu.Unlock()
		if sd == nil {
			s.fail("a packet holds an unknown device %q", st.GetId())
			continue
		}
		r.ids = append(r.ids, st.Id)
		r.durations = append(r.durations, st.Duration)
		r.ticks = append(r.ticks, st.Tick)
		if now := sd.d.State(); !proto.Equal(now, st) {
			s.fail("%s was delivered as %v but is %v", st.Id, st, now)
		}
	}
}

// leaked is the stack of a goroutine of this bubble that runs the generator.
func leaked() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if i > 0 && strings.Contains(head, "synctest bubble") && strings.Contains(g, "mmadfox/go-gpsgen") {
			return g
		}
	}
	return ""
}

// ---- oracles -------------------------------------------------------------

const (
	isOut = iota
	isMaybe
	isIn
)

// attachedAt tells whether a device was attached for the whole tick.
func (sd *schedDevice) attachedAt(tick float64) int {
	state := isOut
	for _, e := range sd.events {
		want := isOut
		if e.attached {
			want = isIn
		}
		switch {
		case e.d2 < tick:
			state = want
		case e.d1 <= tick && state != want:
			state = isMaybe
		}
	}
	return state
}

type tickGroup struct {
	tick    float64
	packets []*packetRecord
	start   time.Duration
	end     time.Duration
	endSeq  int
	errs    int
}

// ticks groups the packets by tick, in order.
func (s *schedule) ticks() []*tickGroup {
	m := map[float64]*tickGroup{}
	var out []*tickGroup
	for _, r := range s.packets {
		g := m[r.tick]
		if g == nil {
			g = &tickGroup{tick: r.tick, start: r.start}
			m[r.tick] = g
			out = append(out, g)
		}
		g.packets = append(g.packets, r)
		g.start = min(g.start, r.start)
		g.end = max(g.end, r.end)
		g.endSeq = max(g.endSeq, r.eseq)
		if r.err {
			g.errs++
		}
	}
	return out
}

// delivery checks that every tick delivers exactly the attached devices.
func (s *schedule) delivery(rt *rapid.T, k *kase) {
	groups := s.ticks()
	complete := groups
	if s.p.closeAt != "end" && len(groups) > 0 {
		complete = groups[:len(groups)-1]
	}
	if !s.p.noCallback && s.p.closeAt == "end" && len(groups) == 0 {
		rt.Fatalf("no tick in %v at an interval of %v", s.ranAt, s.p.effInterval())
	}
	for i, g := range groups {
		seen := map[string]int{}
		bad, maybeBad := 0, 0
		most := 0
		for _, sd := range s.devs {
			if sd.attachedAt(g.tick) != isOut {
				most++
			}
		}
		if full := (most + s.p.effPacket() - 1) / s.p.effPacket(); len(g.packets) > full*s.p.effWorkers() {
			rt.Fatalf("tick %d delivered %d devices in %d packets, packet size %d, %d workers", i, most, len(g.packets), s.p.effPacket(), s.p.effWorkers())
		}
		for _, r := range g.packets {
			if len(r.ids) > s.p.effPacket() {
				rt.Fatalf("a packet of %d devices, packet size %d", len(r.ids), s.p.effPacket())
			}
			for _, id := range r.ids {
				seen[id]++
			}
		}
		for _, sd := range s.devs {
			if sd.bad && sd.attachedAt(g.tick) == isIn {
				bad++
			}
			if sd.bad && sd.attachedAt(g.tick) != isOut {
				maybeBad++
			}
		}
		for _, sd := range s.devs {
			n, in := seen[sd.id], sd.attachedAt(g.tick)
			switch {
			case n > 1:
				rt.Fatalf("tick %d (%v) delivered %s %d times", i, g.tick, sd.id, n)
			case n == 1 && in == isOut:
				rt.Fatalf("tick %d (%v) delivered %s, which was not attached: %v", i, g.tick, sd.id, sd.events)
			case n == 1 && sd.bad:
				rt.Fatalf("tick %d delivered %s, which cannot be encoded", i, sd.id)
			case n == 0 && in == isIn && maybeBad == 0 && i < len(complete):
				rt.Fatalf("tick %d (%v) of %d did not deliver %s: %v", i, g.tick, len(groups), sd.id, sd.events)
			}
		}
		if g.errs > maybeBad {
			rt.Fatalf("tick %d reported %d errors for %d devices that cannot be encoded", i, g.errs, bad)
		}
		if bad > 0 && g.errs == 0 && i < len(complete) {
			rt.Fatalf("tick %d reported no error for %d devices that cannot be encoded", i, bad)
		}
		if bad > 0 {
			k.class("encoding error")
			if len(seen) > 0 {
				k.class("encoding error in one packet of several")
			}
		}
		if len(g.packets) > 1 {
			k.class("several packets in a tick")
		}
		if len(seen) > s.p.effPacket() {
			k.class("more devices than the packet size")
		}
	}
	for _, r := range s.packets {
		if !bytes.Equal(r.data, r.copy) {
			rt.Fatalf("a delivered packet was changed afterwards")
		}
	}
	// A next-callback needs a tick that was delivered completely before it.
	for j, n := range s.nexts {
		done := 0
		for _, g := range groups {
			if g.endSeq < n.seq {
				done++
			}
		}
		if done < j+1 {
			rt.Fatalf("next-callback %d after %d delivered ticks", j+1, done)
		}
	}
	if s.p.closeAt == "end" && !s.p.noCallback {
		if s.p.instant() && len(s.p.nOps) == 0 && len(s.nexts) != len(groups) {
			rt.Fatalf("%d next-callbacks for %d ticks", len(s.nexts), len(groups))
		}
		if last := groups[len(groups)-1]; len(s.nexts) == 0 || s.nexts[len(s.nexts)-1].seq < last.endSeq {
			rt.Fatalf("no next-callback after the last tick")
		}
	}
	if len(groups) > 1 {
		k.nontrivial()
	}
}

// clock checks that every device advances by the time that passes.
func (s *schedule) clock(rt *rapid.T, k *kase) {
	groups := s.ticks()
	interval := s.p.effInterval()
	prevEnd, prevStart := time.Duration(-1), time.Duration(0)
	prevTick, prevPrompt := 0.0, true
	missed := map[string]bool{}
	for i, g := range groups {
		elapsed := g.start.Seconds() // since the start of the run
		prompt := g.start > prevEnd
		if interval >= time.Second {
			if g.tick > elapsed+1e-6 {
				rt.Fatalf("tick %d: devices advanced by %v s within %v s", i, g.tick, elapsed)
			}
			if prompt && !near(g.tick, elapsed, 1e-6) {
				rt.Fatalf("tick %d: devices advanced by %v s in %v s", i, g.tick, elapsed)
			}
			if lag := (prevEnd - prevStart + interval).Seconds(); g.tick < elapsed-lag-1e-6 {
				rt.Fatalf("tick %d: devices advanced by %v s in %v s", i, g.tick, elapsed)
			}
		} else if prompt && prevPrompt {
			want := max(1, (g.start - prevStart).Seconds())
			if !near(g.tick-prevTick, want, 1e-6) {
				rt.Fatalf("tick %d: devices advanced by %v s, want %v", i, g.tick-prevTick, want)
			}
			k.class("interval below a second")
		}
		if !prompt {
			k.class("late tick")
		}
		if prompt && !near((g.start).Seconds(), g.tick, 1e-6) && interval >= time.Second {
			rt.Fatalf("tick %d at %v", i, g.start)
		}
		for _, r := range g.packets {
			for j, id := range r.ids {
				sd := s.byID[id]
				if !sd.early {
					continue
				}
				busy := false
				for _, b := range sd.busy {
					if b[0] <= g.start && g.start <= b[1] {
						busy = true
					}
				}
				switch {
				case busy:
					k.class("busy at a tick")
				case !near(r.durations[j], g.tick, 1e-6):
					rt.Fatalf("tick %d: %s advanced by %v, others by %v (busy %v)", i, id, r.durations[j], g.tick, sd.busy)
				}
				if len(sd.busy) == 0 && !near(r.ticks[j], g.tick-prevTick, 1e-6) {
					rt.Fatalf("tick %d: the last step of %s took %v s, want %v", i, id, r.ticks[j], g.tick-prevTick)
				}
				if missed[id] && !busy {
					k.class("missed time made up for")
				}
				missed[id] = busy
			}
		}
		prevEnd, prevStart, prevTick, prevPrompt = g.end, g.start, g.tick, prompt
	}
	if s.p.closeAt == "end" && s.p.instant() && len(s.p.nOps) == 0 {
		// Every tick happens: none is skipped and none is added.
		n := int(s.ranAt / interval)
		if len(groups) != n {
			rt.Fatalf("%d ticks in %v at an interval of %v", len(groups), s.ranAt, interval)
		}
	}
	if len(groups) > 2 {
		k.nontrivial()
	}
}

// closing checks that closing ends the run at once.
func (s *schedule) closing(rt *rapid.T, k *kase) {
	if !s.ran {
		rt.Fatalf("the run did not return")
	}
	closed := s.closed[0]
	for _, c := range s.closed {
		closed = min(closed, c)
	}
	end := closed
	for _, r := range s.packets {
		if r.start <= closed {
			end = max(end, r.end)
			if r.end > closed && r.start < closed {
				k.class("closed during a packet callback")
			}
		}
	}
	for _, r := range s.nexts {
		if r.start <= closed {
			end = max(end, r.end)
			if r.end > closed && r.start < closed {
				k.class("closed during a next callback")
			}
		}
	}
	if s.ranAt > end {
		rt.Fatalf("closed at %v, callbacks ended at %v, the run returned at %v", closed, end, s.ranAt)
	}
	late := func(start, end time.Duration) {
		if end > s.ranAt {
			rt.Fatalf("closed at %v, the run returned at %v, a callback that started at %v ended at %v", closed, s.ranAt, start, end)
		}
	}
	for _, r := range s.packets {
		late(r.start, r.end)
	}
	for _, r := range s.nexts {
		late(r.start, r.end)
	}
	k.class("closed by " + s.p.closeAt)
}

func (s *schedule) report(rt *rapid.T) {
	if len(s.problems) > 0 {
		rt.Fatalf("%s", strings.Join(s.problems, "\n"))
	}
}

func TestP22_Delivery(t *testing.T) {
	check(t, 400, func(rt *rapid.T, k *kase) {
		p := genPlan(rt)
		genOps(rt, p)
		if chance(rt, 25, "bad") {
			for i := intn(rt, 1, 2, "nbad"); i > 0; i-- {
				p.bad[intn(rt, 0, p.devices-1, "badi")] = true
			}
		}
		p.note(k)
		s := runPlan(t, p)
		s.report(rt)
		s.delivery(rt, k)
	})
}

func TestP22_ManyDevices(t *testing.T) {
	check(t, 25, func(rt *rapid.T, k *kase) {
		p := genPlan(rt)
		p.manyDevices(rt)
		if chance(rt, 30, "bad") {
			for i := intn(rt, 1, 3, "nbad"); i > 0; i-- {
				p.bad[intn(rt, 0, p.devices-1, "badi")] = true
			}
		}
		if chance(rt, 50, "ops") {
			genOps(rt, p)
		}
		p.note(k)
		s := runPlan(t, p)
		s.report(rt)
		s.delivery(rt, k)
	})
}

func TestP23_Clock(t *testing.T) {
	check(t, 400, func(rt *rapid.T, k *kase) {
		p := genPlan(rt)
		genOps(rt, p)
		p.devices = max(p.devices, 2)
		for i := intn(rt, 0, 3, "nbusy"); i > 0; i-- {
			p.busy = append(p.busy, busyOp{
				at: uniDur(rt, p.until, "busyat"), dur: uniDur(rt, 2*p.until, "busyfor"),
				pick: intn(rt, 0, 20, "busypick")})
		}
		p.note(k)
		s := runPlan(t, p)
		s.report(rt)
		s.clock(rt, k)
	})
}

func TestP24_Close(t *testing.T) {
	check(t, 500, func(rt *rapid.T, k *kase) {
		p := genPlan(rt)
		genOps(rt, p)
		if chance(rt, 15, "many") {
			p.manyDevices(rt)
		}
		p.closeAt = oneOf(rt, "close", "any", "any", "any", "packet", "next", "error", "before", "end")
		p.closeNth = intn(rt, 1, 4, "closenth")
		p.closeTime = ms(rt, 0, int(p.until/time.Millisecond), "closetime")
		switch intn(rt, 0, 3, "closealign") {
		case 0:
			p.closeTime += offbeat
		case 1:
			p.closeTime = p.closeTime.Round(p.effInterval())
		}
		p.closers = oneOf(rt, "closers", 1, 1, 2, 3)
		if p.closeAt == "error" {
			p.bad[intn(rt, 0, p.devices-1, "badi")] = true
		}
		p.noCallback = chance(rt, 5, "nocb")
		p.note(k)
		s := runPlan(t, p)
		s.report(rt)
		s.closing(rt, k)
		if len(s.packets) > 0 {
			k.nontrivial()
		}
	})
}

// Missed steps of a device that is used without a generator.
func TestP23_Missed(t *testing.T) {
	check(t, 500, func(rt *rapid.T, k *kase) {
		o := steadyOptions(1)
		d := must(gpsgen.NewDevice(o))
		noErr(d.AddRoute(routeOf([]pt{{Lat: 1, Lon: 1}, {Lat: 1, Lon: 80}})))
		d.AddSensor(must(types.NewSensor("s", 0, 1, 4, 0)))
		total := 0.0
		missed := 0.0
		for i := length(rt, 1, 12, "steps"); i > 0; i-- {
			dt := genTick(rt)
			k.note("%v", dt)
			how := intn(rt, 0, 2, "how")
			if how == 0 {
				if !d.Next(dt) {
					rt.Fatalf("step of %v failed", dt)
				}
				dt += missed
				missed = 0
				total += dt
				st := d.State()
				if !near(st.Tick, dt, 1e-9*(1+dt)) {
					rt.Fatalf("the step took %v s, want %v", st.Tick, dt)
				}
				if !near(d.Duration(), total, 1e-9*(1+total)) || !near(st.Duration, total, 1e-9*(1+total)) || !near(d.CurrentDistance(), total, 1e-6*(1+total)) {
					rt.Fatalf("after %v s: duration %v (published %v), distance %v", total, d.Duration(), st.Duration, d.CurrentDistance())
				}
				continue
			}
			ok := false
			before := d.State()
			if how == 1 {
				d.EachRoute(func(int, *gpsgen.Route) bool { ok = d.Next(dt); return true })
			} else {
				d.EachSensor(func(int, *gpsgen.Sensor) bool { ok = d.Next(dt); return true })
			}
			if ok || !proto.Equal(before, d.State()) {
				rt.Fatalf("a busy device advanced (%v)", ok)
			}
			missed += dt
			k.nontrivial()
			if missed > dt {
				k.class("several steps missed")
			}
		}
	})
}

// The registries of two generators that are not running.
func TestP24_Registry(t *testing.T) {
	check(t, 400, func(rt *rapid.T, k *kase) {
		var gens []*gpsgen.Generator
		for i := 0; i < 2; i++ {
			var opts *gpsgen.Options
			if coin.Draw(rt, "opts") {
				opts = gpsgen.NewOptions()
			}
			gens = append(gens, gpsgen.New(opts))
		}
		defer func() {
			for _, g := range gens {
				g.Close()
			}
		}()
		var devs []*gpsgen.Device
		n := 5
		if chance(rt, 3, "many") {
			n = 60
		}
		for i := 0; i < n; i++ {
			o := steadyOptions(1)
			if coin.Draw(rt, "id") {
				o.ID = fmt.Sprintf(oneOf(rt, "idform", "d%d", "%d"), i)
			}
			devs = append(devs, must(gpsgen.NewDevice(o)))
		}
		lists := make([][]*gpsgen.Device, 2)
		if n > 5 {
			for _, d := range devs[:intn(rt, 0, n, "attached at first")] {
				noErr(gens[0].Attach(d))
				lists[0] = append(lists[0], d)
			}
		}
		index := func(l []*gpsgen.Device, d *gpsgen.Device) int {
			for i := range l {
				if l[i] == d {
					return i
				}
			}
			return -1
		}
		for i := length(rt, 1, 25, "steps"); i > 0; i-- {
			gi, di := intn(rt, 0, 1, "gen"), intn(rt, 0, len(devs)-1, "dev")
			if n > 5 && chance(rt, 40, "end") {
				di = oneOf(rt, "enddev", 0, 0, 1, len(devs)-1)
			}
			g, d := gens[gi], devs[di]
			running := index(lists[0], d) >= 0 || index(lists[1], d) >= 0
			switch intn(rt, 0, 8, "op") {
			case 6: // a device is restored, attached or not
				k.note("restore %d", di)
				o := steadyOptions(2)
				o.ID = d.ID()
				if coin.Draw(rt, "newid") {
					o.ID = fmt.Sprintf("restored %d", i)
				}
				src := must(gpsgen.NewDevice(o))
				if coin.Draw(rt, "attached") {
					other := gpsgen.New(nil)
					noErr(other.Attach(src))
					defer other.Close()
				}
				if coin.Draw(rt, "binary") {
					noErr(d.UnmarshalBinary(must(src.MarshalBinary())))
				} else {
					d.FromSnapshot(src.Snapshot())
				}
				k.class("restored")
			case 7: // a device takes its place after a copy of it was made
				k.note("decode a copy of %d", di)
				c := must(gpsgen.DecodeTracker(must(gpsgen.EncodeTracker(d))))
				if c.Status() != gpsgen.Stopped {
					rt.Fatalf("a decoded device (running: %v) has status %v", running, c.Status())
				}
				if !running {
					devs[di] = c
				} else {
					other := gpsgen.New(nil)
					if err := other.Attach(c); err != nil {
						rt.Fatalf("attaching a decoded copy of a running device: %v", err)
					}
					other.Close()
				}
				k.class("copied")
			case 8: // sundry calls change nothing
				k.note("use %d", di)
				d.Next(1)
				d.Update()
				d.ResetNavigator()
				d.ToOffline()
				d.State()
			case 0, 1, 2:
				k.note("attach %d to %d", di, gi)
				if err := g.Attach(d); (err != nil) != running {
					rt.Fatalf("attaching a device (running: %v): %v", running, err)
				}
				if !running {
					lists[gi] = append(lists[gi], d)
				} else {
					k.class("refused")
					k.nontrivial()
				}
			case 3, 4:
				k.note("detach %d from %d", di, gi)
				if err := g.Detach(d.ID()); err != nil {
					rt.Fatalf("detaching: %v", err)
				}
				if n := index(lists[gi], d); n >= 0 {
					lists[gi] = append(append([]*gpsgen.Device{}, lists[gi][:n]...), lists[gi][n+1:]...)
					k.class("detached")
					k.nontrivial()
				}
			case 5:
				if g.Attach(nil) != nil || g.Detach("") != nil || g.Detach("nobody") != nil {
					rt.Fatalf("attaching no device or detaching an unknown one is an error")
				}
			}
			for gi, g := range gens {
				if g.NumDevices() != len(lists[gi]) {
					rt.Fatalf("%d devices, want %d", g.NumDevices(), len(lists[gi]))
				}
				var seen []*gpsgen.Device
				stop := -1
				if coin.Draw(rt, "stop") {
					stop = intn(rt, 0, n-1, "stopat")
				}
				g.Each(func(i int, d *gpsgen.Device) bool {
					if i != len(seen) {
						rt.Fatalf("iteration %d has number %d", len(seen), i)
					}
					seen = append(seen, d)
					return i != stop
				})
				want := lists[gi]
				if stop >= 0 && stop < len(want) {
					want = want[:stop+1]
				}
				if !slices.Equal(seen, want) {
					rt.Fatalf("iteration does not visit the attached devices in order")
				}
				for _, d := range devs {
					got, ok := g.Lookup(d.ID())
					in := index(lists[gi], d) >= 0
					if ok != in || (ok && got != d) || g.HasTracker(d.ID()) != in {
						rt.Fatalf("lookup: %v, want %v", ok, in)
					}
				}
				if _, ok := g.Lookup(""); ok || g.HasTracker("nobody") {
					rt.Fatalf("an unknown device was found")
				}
				var ids []string
				for _, d := range devs {
					ids = append(ids, d.ID())
				}
				absent := genAbsentID(rt, ids...)
				if _, ok := g.Lookup(absent); ok || g.HasTracker(absent) || g.Detach(absent) != nil || g.NumDevices() != len(lists[gi]) {
					rt.Fatalf("the unknown device %q was found or detached", absent)
				}
			}
			for _, d := range devs {
				want := gpsgen.Stopped
				if index(lists[0], d) >= 0 || index(lists[1], d) >= 0 {
					want = gpsgen.Running
				}
				if d.Status() != want {
					rt.Fatalf("status %v, want %v", d.Status(), want)
				}
			}
		}
	})
}

// ---- several generators, and times without devices ------------------------

type genRun struct {
	g        *gpsgen.Generator
	interval time.Duration
	list     []*runDevice // model
	ticks    int
}

type runDevice struct {
	d     *gpsgen.Device
	id    string
	kind  string
	in    *genRun
	total float64 // time it should have been advanced by
	last  float64
}

// checkGenerators runs several generators at once, between which devices move
// and which have no device at all at times. Callbacks take no time here, so it
// is known exactly which devices a tick delivers and how far they have come.
func checkGenerators(t *testing.T, rt *rapid.T, k *kase, clock bool) {
	type op struct {
		at       time.Duration
		dev, gen int // gen < 0: detach
	}
	n := intn(rt, 1, 3, "generators")
	var opts []*gpsgen.Options
	var longest time.Duration
	for i := 0; i < n; i++ {
		o := &gpsgen.Options{
			Interval:   oneOf(rt, "interval", time.Second, time.Second, 1500*time.Millisecond, 400*time.Millisecond, 3*time.Second, 0),
			PacketSize: oneOf(rt, "packet", 0, 1024, 2000),
			NumWorkers: oneOf(rt, "workers", 0, 1, 2, 5),
		}
		if chance(rt, 30, "anyinterval") {
			o.Interval = ms(rt, 100, 10000, "intervalms")
		}
		opts = append(opts, o)
		longest = max(longest, o.Interval, time.Second)
	}
	until := longest * time.Duration(length(rt, 2, 10, "ticks"))
	var kinds []string
	for i := intn(rt, 1, 6, "devices"); i > 0; i-- {
		kinds = append(kinds, oneOf(rt, "kind", "steady", "steady", "steady", "offline", "no route", "short"))
	}
	var before, ops []op
	for i := range kinds {
		if chance(rt, 50, "early") {
			before = append(before, op{dev: i, gen: intn(rt, 0, n-1, "earlygen")})
		}
	}
	for i := intn(rt, 0, 14, "nops"); i > 0; i-- {
		o := op{at: uniDur(rt, until, "at"), dev: intn(rt, 0, len(kinds)-1, "dev"), gen: intn(rt, 0, n-1, "gen")}
		if chance(rt, 50, "detach") {
			o.gen = -1
		}
		ops = append(ops, o)
	}
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].at < ops[j].at })
	k.note("generators %v devices %v before %v ops %v until %v", opts, kinds, before, ops, until)
	for _, o := range opts {
		k.note("interval %v packet %d workers %d", o.Interval, o.PacketSize, o.NumWorkers)
	}

	var mu sync.Mutex
	var problems []string
	fail := func(format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if len(problems) < 5 {
			problems = append(problems, fmt.Sprintf(format, args...))
		}
	}
	bubble(t, func() {
		var gens []*genRun
		for _, o := range opts {
			x := *o
			g := &genRun{g: gpsgen.New(&x), interval: o.Interval}
			if g.interval == 0 {
				g.interval = time.Second
			}
			gens = append(gens, g)
			defer g.g.Close()
		}
		var devs []*runDevice
		for i, kind := range kinds {
			o := steadyOptions(1)
			o.ID = fmt.Sprintf("device-%d", i)
			if kind == "offline" {
				o.Navigator.SkipOffline = false
				o.Navigator.Offline.Min, o.Navigator.Offline.Max = 2, 5
			}
			d := must(gpsgen.NewDevice(o))
			switch kind {
			case "steady", "offline":
				noErr(d.AddRoute(longRoute))
			case "short":
				noErr(d.AddRoute(routeOf([]pt{{Lat: 1, Lon: 1}, {Lat: 1, Lon: 1.00003}, {Lat: 1.00003, Lon: 1.00003}})))
			}
			if kind == "offline" {
				d.ToOffline()
			}
			devs = append(devs, &runDevice{d: d, id: o.ID, kind: kind})
		}
		do := func(o op) {
			mu.Lock()
			defer mu.Unlock()
			x := devs[o.dev]
			from := x.in
			if o.gen < 0 {
				if from == nil {
					return
				}
				x.in = nil
				from.list = slices.DeleteFunc(from.list, func(y *runDevice) bool { return y == x })
				noErr(from.g.Detach(x.d.ID()))
				return
			}
			g := gens[o.gen]
			err := g.g.Attach(x.d)
			if (err != nil) != (from != nil) {
				panic(fmt.Sprintf("attaching a device (attached %v): %v", from != nil, err))
			}
			if from == nil {
				x.in = g
				g.list = append(g.list, x)
			}
		}
		for _, o := range before {
			do(o)
		}
		base := time.Now()
		var runs sync.WaitGroup
		for gi, g := range gens {
			delivered := map[string]int{}
			var times []time.Duration
			g.g.OnPacket(func(data []byte) {
				now := time.Since(base)
				pck := must(gpsgen.PacketFromBytes(data))
				if len(pck.Devices) == 0 {
					fail("generator %d: an empty packet at %v", gi, now)
				}
				mu.Lock()
				defer mu.Unlock()
				if len(times) == 0 || times[len(times)-1] != now {
					times = append(times, now)
				}
				for _, st := range pck.Devices {
					delivered[st.Id]++
					// Looking at a device of another generator could make it miss its tick.
					i := slices.IndexFunc(devs, func(x *runDevice) bool { return x.id == st.Id })
					if i < 0 {
						problems = append(problems, fmt.Sprintf("generator %d delivers %q", gi, st.Id))
						continue
					}
					x := devs[i]
					if !proto.Equal(st, x.d.State()) {
						problems = append(problems, fmt.Sprintf("generator %d delivers %s as %v but it is %v", gi, st.Id, st, x.d.State()))
					}
				}
			})
			// The ticks of the model: they come just after those of the
			// generator, when its callbacks have been called.
			runs.Add(1)
			go func() {
				defer runs.Done()
				for at := g.interval; at <= until; at += g.interval {
					time.Sleep(at - time.Since(base) + time.Microsecond)
					mu.Lock()
					want := map[string]int{}
					for _, x := range g.list {
						want[x.d.ID()] = 1
						step := max(1, g.interval.Seconds())
						x.total += step
						st := x.d.State()
						if clock && (x.kind == "steady" || x.kind == "offline") {
							if !near(st.Duration, x.total, 1e-6) || !near(st.Tick, step, 1e-6) || !near(x.d.Duration(), x.total, 1e-6) {
								problems = append(problems, fmt.Sprintf("generator %d, tick at %v: %s has moved for %v s, want %v; its last step took %v, want %v", gi, at, st.Id, st.Duration, x.total, st.Tick, step))
							}
							k.nontrivial()
						}
					}
					if fmt.Sprint(delivered) != fmt.Sprint(want) {
						problems = append(problems, fmt.Sprintf("generator %d, tick at %v: delivered %v, want %v", gi, at, delivered, want))
					}
					if len(want) > 0 && (len(times) != 1 || times[0] != at) {
						problems = append(problems, fmt.Sprintf("generator %d, tick at %v: packets at %v", gi, at, times))
					}
					if len(want) == 0 {
						k.class("tick without devices")
					} else if !clock {
						k.nontrivial()
					}
					clear(delivered)
					times = nil
					mu.Unlock()
				}
			}()
			runs.Add(1)
			go func() {
				defer runs.Done()
				g.g.Run()
			}()
		}
		for _, o := range ops {
			time.Sleep(o.at - time.Since(base))
			do(o)
		}
		time.Sleep(until - time.Since(base) + 2*offbeat)
		for _, g := range gens {
			g.g.Close()
		}
		runs.Wait()
		// Devices that are not attached have not moved.
		for _, x := range devs {
			if clock && (x.kind == "steady" || x.kind == "offline") && !near(x.d.Duration(), x.total, 1e-6) && len(problems) == 0 {
				fail("%s has moved for %v s, want %v", x.d.ID(), x.d.Duration(), x.total)
			}
		}
	})
	if n > 1 {
		k.class("several generators")
	}
	if len(problems) > 0 {
		rt.Fatalf("%s", strings.Join(problems, "\n"))
	}
}

func TestP22_Generators(t *testing.T) {
	check(t, 300, func(rt *rapid.T, k *kase) { checkGenerators(t, rt, k, false) })
}

func TestP23_Generators(t *testing.T) {
	check(t, 300, func(rt *rapid.T, k *kase) { checkGenerators(t, rt, k, true) })
}

// TestP24_Contended: goroutines attach the same devices to several generators
// at the same moment, and detach them again: one of them attaches each device.
func TestP24_Contended(t *testing.T) {
	check(t, 25, func(rt *rapid.T, k *kase) {
		ng, nw, nd := intn(rt, 1, 3, "generators"), intn(rt, 2, 8, "goroutines"), intn(rt, 1, 60, "devices")
		rounds := intn(rt, 1, 4, "rounds")
		k.note("%d generators %d goroutines %d devices %d rounds", ng, nw, nd, rounds)
		var gens []*gpsgen.Generator
		for i := 0; i < ng; i++ {
			gens = append(gens, gpsgen.New(nil))
			defer gens[i].Close()
		}
		var devs []*gpsgen.Device
		for i := 0; i < nd; i++ {
			o := steadyOptions(1)
			o.ID = fmt.Sprint("device ", i)
			devs = append(devs, must(gpsgen.NewDevice(o)))
		}
		together := func(f func(w, i int)) {
			var arrived atomic.Int64
			var wg sync.WaitGroup
			for w := 0; w < nw; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := range devs {
						arrived.Add(1)
						for arrived.Load() < int64((i+1)*nw) {
							runtime.Gosched()
						}
						f(w, i)
					}
				}()
			}
			wg.Wait()
		}
		for r := 0; r < rounds; r++ {
			attached := make([]atomic.Int64, nd)
			together(func(w, i int) {
				if gens[(w+i)%ng].Attach(devs[i]) == nil {
					attached[i].Add(1)
				}
			})
			for i, d := range devs {
				if n := attached[i].Load(); n != 1 {
					rt.Fatalf("device %d was attached %d times", i, n)
				}
				in := 0
				for _, g := range gens {
					g.Each(func(_ int, x *gpsgen.Device) bool {
						if x == d {
							in++
						}
						return true
					})
				}
				if in != 1 || d.Status() != gpsgen.Running {
					rt.Fatalf("device %d is in %d lists, status %v", i, in, d.Status())
				}
			}
			errs := make([]atomic.Int64, nd)
			together(func(w, i int) {
				if gens[(w+i)%ng].Detach(devs[i].ID()) != nil {
					errs[i].Add(1)
				}
			})
			for i, d := range devs { // those that nobody detached, with fewer goroutines than generators
				for _, g := range gens {
					noErr(g.Detach(d.ID()))
				}
				if n := errs[i].Load(); n != 0 || d.Status() != gpsgen.Stopped {
					rt.Fatalf("detaching device %d failed %d times, status %v", i, n, d.Status())
				}
			}
			for _, g := range gens {
				if g.NumDevices() != 0 {
					rt.Fatalf("%d devices are left", g.NumDevices())
				}
			}
		}
		k.nontrivial()
	})
}
