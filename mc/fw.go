package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// An Engine enumerates one bounded space completely.  The space is cut into
// numbered units; every unit enumerates its cases in a fixed order, so that
// (engine, unit, index) names one case for ever and can be replayed alone.
type Engine struct {
	Name    string
	Rule    string // what is enumerated and what makes a case count
	Bounds  string
	Workers int // 0 = all cores
	Units   func(thorough bool) int
	Run     func(w *W, unit int)
	// HangAfter overrides the per-case hang limit
	HangAfter time.Duration
	// whole units are replayed (cases depend on their predecessors)
	WholeUnit bool
}

type Property struct {
	ID          string
	Level       string
	Engines     []*Engine
	Assumptions []string
	// the engines are spread over this many processes (0: one process)
	Shards int
	// additional environment of the child processes
	Env []string
}

var properties = map[string]*Property{}

func register(p *Property) {
	if p.Level == "" {
		p.Level = "model_checking"
	}
	properties[p.ID] = p
}

// W is one worker: it owns the counters of the cases it executes.
type W struct {
	id       int
	Thorough bool
	eng      *Engine
	engIdx   int
	unit     int
	idx      int64
	only     int64 // replay: execute only this index (-1: everything)
	upto     bool  // replay: execute everything up to and including `only`
	desc     bool  // replay: write a description before executing
	slot     *slot
	run      *runState

	Evals       int64 // executions of the real code compared with the reference
	States      int64
	Transitions int64
	Nontrivial  int64
	outcomes    map[string]int64
	samples     []string
	nsamples    int
	local       map[string]interface{}
}

type slot struct {
	eng, unit, idx, beat uint64
}

type failure struct {
	Property string `json:"property"`
	Engine   string `json:"engine"`
	Unit     int    `json:"unit"`
	Index    int64  `json:"index"`
	Tier     string `json:"tier"`
	Case     string `json:"case"`
	Detail   string `json:"detail"`
	Repro    string `json:"reproduced,omitempty"`
	How      string `json:"how_to_replay,omitempty"`
}

type engineStats struct {
	Name        string           `json:"engine"`
	Rule        string           `json:"rule"`
	Bounds      string           `json:"bounds,omitempty"`
	Units       int              `json:"units"`
	UnitsDone   int64            `json:"units_completed"`
	Evals       int64            `json:"executions_compared"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Nontrivial  int64            `json:"nontrivial"`
	Outcomes    map[string]int64 `json:"outcomes,omitempty"`
	Samples     []string         `json:"samples,omitempty"`
	Exhaustive  bool             `json:"exhaustive"`
	Wall        float64          `json:"wall_s"`
}

type childResult struct {
	Engines  []*engineStats `json:"engines"`
	Failures []*failure     `json:"failures"`
	Known    []string       `json:"known"`
	Deadline bool           `json:"deadline_hit"`
}

type runState struct {
	prop     *Property
	tier     string
	deadline time.Time
	stop     int32
	mu       sync.Mutex
	failures []*failure
	known    map[string]string
	knownHit map[string]bool
}

func (r *runState) stopped() bool { return atomic.LoadInt32(&r.stop) != 0 }

// Begin announces the next case.  When it returns false the case is skipped.
func (w *W) Begin() bool {
	w.idx++
	if w.only >= 0 {
		if w.idx > w.only {
			return false
		}
		if w.idx < w.only && !w.upto {
			return false
		}
	}
	atomic.StoreUint64(&w.slot.idx, uint64(w.idx))
	w.Evals++
	return true
}

// Announce writes the description of the case about to be executed; only in
// replay mode, where a crash would otherwise leave no description behind.
func (w *W) Announce(desc func() string) {
	if w.desc && w.idx == w.only {
		os.WriteFile(os.Getenv("MC_DESC"), []byte(desc()), 0o644)
	}
}

// Stop reports whether the unit should give up (a violation was found or the
// deadline has passed).
func (w *W) Stop() bool {
	return w.run.stopped() || (w.only >= 0 && w.idx > w.only)
}

func (w *W) Outcome(k string) {
	if w.outcomes == nil {
		w.outcomes = map[string]int64{}
	}
	w.outcomes[k]++
}

func (w *W) Sample(f func() string) {
	w.nsamples++
	if len(w.samples) < 2 {
		w.samples = append(w.samples, clip(f(), 300))
	}
}

func (w *W) Fail(desc string, err error) {
	r := w.run
	r.mu.Lock()
	defer r.mu.Unlock()
	key := r.prop.ID + "|" + w.eng.Name + "|" + desc
	if what, ok := r.known[key]; ok {
		r.knownHit[what] = true
		return
	}
	if len(r.failures) < 5 {
		r.failures = append(r.failures, &failure{
			Property: r.prop.ID, Engine: w.eng.Name, Unit: w.unit, Index: w.idx, Tier: r.tier,
			Case: clip(desc, 4000), Detail: clip(err.Error(), 4000),
		})
	}
	if os.Getenv("MC_KEEPGOING") == "" {
		atomic.StoreInt32(&r.stop, 1)
	} else {
		fmt.Fprintf(os.Stderr, "FAIL %s %s: %s\n", w.eng.Name, desc, err)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

// catch turns a panic of the code under test into an error.
func catch(err *error) {
	if r := recover(); r != nil {
		*err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 30 {
		lines = lines[:30]
	}
	return strings.Join(lines, "\n")
}

func mmapSlots(path string) ([]slot, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	const n = 64 * 32
	if err := f.Truncate(n); err != nil {
		return nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return unsafe.Slice((*slot)(unsafe.Pointer(&b[0])), 64), nil
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func budget() time.Duration {
	if s := os.Getenv("MC_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			return d
		}
	}
	if tier() == "thorough" {
		return 6 * time.Hour
	}
	return 10 * time.Minute
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return m
	}
	var doc struct {
		Findings []struct {
			Property string `json:"property"`
			Engine   string `json:"engine"`
			Case     string `json:"case"`
			What     string `json:"what"`
		} `json:"findings"`
	}
	if json.Unmarshal(b, &doc) != nil {
		return m
	}
	for _, f := range doc.Findings {
		m[f.Property+"|"+f.Engine+"|"+f.Case] = f.What
	}
	return m
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

// child executes the engines of one property.
func child(id string) int {
	p := properties[id]
	debug.SetMaxStack(128 << 20)
	debug.SetPanicOnFault(true)
	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(400)
	}
	slots, err := mmapSlots(os.Getenv("MC_SLOTS"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	rs := &runState{prop: p, tier: tier(), deadline: time.Now().Add(budget()), known: loadKnown(), knownHit: map[string]bool{}}
	res := &childResult{}
	thorough := tier() == "thorough"
	onlyEng, onlyUnit, onlyIdx := os.Getenv("MC_ENGINE"), -1, int64(-1)
	if s := os.Getenv("MC_UNIT"); s != "" {
		fmt.Sscan(s, &onlyUnit)
	}
	if s := os.Getenv("MC_INDEX"); s != "" {
		fmt.Sscan(s, &onlyIdx)
	}
	go watchdog(rs, slots, res)
	for ei, e := range p.Engines {
		if onlyEng != "" && e.Name != onlyEng {
			continue
		}
		if rs.stopped() {
			break
		}
		t0 := time.Now()
		st := &engineStats{Name: e.Name, Rule: e.Rule, Bounds: e.Bounds, Exhaustive: true}
		res.Engines = append(res.Engines, st)
		units := e.Units(thorough)
		st.Units = units
		nw := e.Workers
		if nw == 0 {
			nw = runtime.GOMAXPROCS(0)
		}
		if nw > units {
			nw = units
		}
		if onlyUnit >= 0 {
			nw = 1
		}
		var next int64 = -1
		shard, nshard := 0, 1
		if v := os.Getenv("MC_SHARD"); v != "" && onlyUnit < 0 {
			fmt.Sscanf(v, "%d/%d", &shard, &nshard)
		}
		var wg sync.WaitGroup
		ws := make([]*W, nw)
		for i := 0; i < nw; i++ {
			w := &W{id: i, Thorough: thorough, eng: e, engIdx: ei, only: onlyIdx, slot: &slots[i], run: rs, local: map[string]interface{}{}}
			w.upto = e.WholeUnit || os.Getenv("MC_UPTO") != ""
			w.desc = os.Getenv("MC_DESC") != ""
			ws[i] = w
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					u := int(atomic.AddInt64(&next, 1))
					if onlyUnit >= 0 {
						if u > 0 {
							return
						}
						u = onlyUnit
					}
					if u < units && u%nshard != shard {
						continue
					}
					if u >= units || rs.stopped() {
						atomic.StoreUint64(&w.slot.beat, 0)
						return
					}
					w.unit, w.idx = u, -1
					atomic.StoreUint64(&w.slot.eng, uint64(ei))
					atomic.StoreUint64(&w.slot.unit, uint64(u))
					atomic.StoreUint64(&w.slot.idx, ^uint64(0))
					atomic.StoreUint64(&w.slot.beat, 1)
					func() {
						defer func() {
							if r := recover(); r != nil {
								w.Fail(fmt.Sprintf("unit %d index %d", w.unit, w.idx), fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack())))
							}
						}()
						e.Run(w, u)
					}()
					if !rs.stopped() {
						atomic.AddInt64(&st.UnitsDone, 1)
					}
				}
			}()
		}
		wg.Wait()
		for i := range slots {
			atomic.StoreUint64(&slots[i].beat, 0)
		}
		for _, w := range ws {
			st.Evals += w.Evals
			st.States += w.States
			st.Transitions += w.Transitions
			st.Nontrivial += w.Nontrivial
			for k, v := range w.outcomes {
				if st.Outcomes == nil {
					st.Outcomes = map[string]int64{}
				}
				st.Outcomes[k] += v
			}
			if len(st.Samples) < 4 {
				st.Samples = append(st.Samples, w.samples...)
			}
		}
		if len(st.Samples) > 4 {
			st.Samples = st.Samples[:4]
		}
		st.Exhaustive = st.UnitsDone == int64(units)
		st.Wall = time.Since(t0).Seconds()
	}
	writeResult(rs, res)
	return 0
}

var resultOnce sync.Mutex

func writeResult(rs *runState, res *childResult) {
	resultOnce.Lock()
	defer resultOnce.Unlock()
	rs.mu.Lock()
	res.Failures = rs.failures
	for k := range rs.knownHit {
		res.Known = append(res.Known, k)
	}
	sort.Strings(res.Known)
	rs.mu.Unlock()
	b, _ := json.Marshal(res)
	os.WriteFile(os.Getenv("MC_RESULT"), b, 0o644)
}

func watchdog(rs *runState, slots []slot, res *childResult) {
	type seen struct {
		s slot
		t time.Time
	}
	last := make([]seen, len(slots))
	for {
		time.Sleep(250 * time.Millisecond)
		now := time.Now()
		if now.After(rs.deadline) && !rs.stopped() {
			res.Deadline = true
			atomic.StoreInt32(&rs.stop, 1)
		}
		bad := ""
		which := -1
		if rss := rssBytes(); rss > 14<<30 {
			bad = fmt.Sprintf("memory grew to %d MB", rss>>20)
		}
		for i := range slots {
			s := slot{atomic.LoadUint64(&slots[i].eng), atomic.LoadUint64(&slots[i].unit), atomic.LoadUint64(&slots[i].idx), atomic.LoadUint64(&slots[i].beat)}
			if s.beat == 0 || s != last[i].s {
				last[i] = seen{s, now}
				continue
			}
			limit := 150 * time.Second
			if e := rs.prop.Engines[s.eng]; e.HangAfter != 0 {
				limit = e.HangAfter
			}
			if now.Sub(last[i].t) > limit {
				bad, which = fmt.Sprintf("no progress for %s (hang)", limit), i
			}
		}
		if bad != "" {
			rs.mu.Lock()
			for i := range slots {
				s := &slots[i]
				if which >= 0 && i != which || atomic.LoadUint64(&s.beat) == 0 {
					continue
				}
				e := rs.prop.Engines[atomic.LoadUint64(&s.eng)]
				rs.failures = append(rs.failures, &failure{Property: rs.prop.ID, Engine: e.Name, Unit: int(s.unit), Index: int64(s.idx), Tier: rs.tier,
					Case: fmt.Sprintf("unit %d index %d", s.unit, int64(s.idx)), Detail: bad})
				if which < 0 && len(rs.failures) > 8 {
					break
				}
			}
			rs.mu.Unlock()
			writeResult(rs, res)
			os.Exit(0)
		}
	}
}

type childRun struct {
	res    *childResult
	err    error
	stderr string
	slots  []slot
	desc   string
}

// runSharded runs every shard in a process of its own and merges the results.
// The first process that died or failed is the one reported.
func runSharded(id, dir string, n int) *childRun {
	rs := make([]*childRun, n)
	var wg sync.WaitGroup
	for i := range rs {
		i := i
		d := filepath.Join(dir, fmt.Sprint("shard", i))
		os.MkdirAll(d, 0o755)
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs[i] = runChild(id, d, fmt.Sprintf("MC_SHARD=%d/%d", i, n))
		}()
	}
	wg.Wait()
	var out *childRun
	for _, r := range rs {
		if out == nil {
			out = r
			continue
		}
		if out.err != nil || out.res == nil {
			continue
		}
		if r.err != nil || r.res == nil {
			out = r
			continue
		}
		for k, st := range r.res.Engines {
			if k >= len(out.res.Engines) {
				out.res.Engines = append(out.res.Engines, st)
				continue
			}
			o := out.res.Engines[k]
			o.UnitsDone += st.UnitsDone
			o.Evals += st.Evals
			o.States += st.States
			o.Transitions += st.Transitions
			o.Nontrivial += st.Nontrivial
			for x, v := range st.Outcomes {
				if o.Outcomes == nil {
					o.Outcomes = map[string]int64{}
				}
				o.Outcomes[x] += v
			}
			if o.Wall < st.Wall {
				o.Wall = st.Wall
			}
			o.Exhaustive = o.UnitsDone == int64(o.Units)
		}
		out.res.Failures = append(out.res.Failures, r.res.Failures...)
		out.res.Known = append(out.res.Known, r.res.Known...)
		out.res.Deadline = out.res.Deadline || r.res.Deadline
	}
	return out
}

func runChild(id, dir string, env ...string) *childRun {
	self, _ := os.Executable()
	if alt := os.Getenv("MC_CHILD_BIN"); alt != "" {
		self = alt
	}
	slotsPath := filepath.Join(dir, "slots")
	resPath := filepath.Join(dir, "result.json")
	descPath := filepath.Join(dir, "desc")
	os.Remove(slotsPath)
	os.Remove(resPath)
	os.Remove(descPath)
	cmd := exec.Command(self, "child", id)
	cmd.Env = append(os.Environ(), "MC_SLOTS="+slotsPath, "MC_RESULT="+resPath)
	cmd.Env = append(cmd.Env, env...)
	cmd.Env = append(cmd.Env, properties[id].Env...)
	for i, e := range cmd.Env {
		if e == "MC_DESC=1" {
			cmd.Env[i] = "MC_DESC=" + descPath
		}
	}
	errPath := filepath.Join(dir, "stderr")
	ef, _ := os.Create(errPath)
	if os.Getenv("MC_KEEPGOING") != "" {
		cmd.Stderr = os.Stderr
	} else {
		cmd.Stderr = ef
	}
	cmd.Stdout = ef
	cr := &childRun{}
	cr.err = cmd.Run()
	ef.Close()
	if b, err := os.ReadFile(errPath); err == nil {
		if len(b) > 6000 {
			b = append(append([]byte{}, b[:3000]...), b[len(b)-3000:]...)
		}
		cr.stderr = string(b)
	}
	if b, err := os.ReadFile(resPath); err == nil {
		r := &childResult{}
		if json.Unmarshal(b, r) == nil {
			cr.res = r
		}
	}
	if b, err := os.ReadFile(descPath); err == nil {
		cr.desc = string(b)
	}
	if s, err := mmapSlots(slotsPath); err == nil {
		cr.slots = s
	}
	return cr
}

// runProperty is the parent: it survives any crash of the code under test.
func runProperty(id string) int {
	p := properties[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 3
	}
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(dir)
	all := func() *childRun {
		if p.Shards > 1 {
			return runSharded(id, dir, p.Shards)
		}
		return runChild(id, dir)
	}
	cr := all()
	res := cr.res
	if cr.err != nil || res == nil {
		// the child died: a fatal error of the runtime, a fault or the OOM killer
		if res == nil {
			res = &childResult{}
		}
		f := &failure{Property: id, Tier: tier(), Case: "(process died)", Detail: fmt.Sprintf("the process died: %v\n%s", cr.err, cr.stderr)}
		found := false
		for _, s := range cr.slots {
			if s.beat == 0 || found {
				continue
			}
			e := p.Engines[s.eng]
			g := &failure{Property: id, Engine: e.Name, Unit: int(s.unit), Index: int64(s.idx), Tier: tier(), Detail: f.Detail}
			c2 := runChild(id, dir, "MC_ENGINE="+e.Name, fmt.Sprintf("MC_UNIT=%d", s.unit), fmt.Sprintf("MC_INDEX=%d", int64(s.idx)), "MC_DESC=1")
			if c2.err != nil || (c2.res != nil && len(c2.res.Failures) > 0) {
				g.Case = c2.desc
				if c2.res != nil && len(c2.res.Failures) > 0 {
					g.Case = c2.res.Failures[0].Case
					g.Detail = c2.res.Failures[0].Detail
				}
				f = g
				found = true
			}
		}
		if !found && os.Getenv("MC_NORETRY") == "" {
			// not reproduced case by case: run the whole check once more
			c3 := all()
			if c3.err == nil && c3.res != nil {
				res = c3.res
				f = nil
				fmt.Fprintf(os.Stderr, "child died once and not again: %v\n%s\n", cr.err, cr.stderr)
			}
		}
		if f != nil {
			res.Failures = append(res.Failures, f)
		}
	}
	// confirm the first failure alone, in fresh processes
	var fails []*failure
	fails = append(fails, res.Failures...)
	replay := ""
	if len(fails) > 0 {
		f := fails[0]
		if f.Engine != "" && os.Getenv("MC_KEEPGOING") == "" {
			ok := 0
			n := 3
			if strings.Contains(f.Detail, "(hang)") || strings.Contains(f.Detail, "memory grew") {
				n = 1
			}
			for i := 0; i < n; i++ {
				c := runChild(id, dir, "MC_ENGINE="+f.Engine, fmt.Sprintf("MC_UNIT=%d", f.Unit), fmt.Sprintf("MC_INDEX=%d", f.Index), "MC_DESC=1")
				if c.err != nil || (c.res != nil && len(c.res.Failures) > 0) {
					ok++
					if c.desc != "" && strings.HasPrefix(f.Case, "unit ") {
						f.Case = c.desc
					}
				}
			}
			f.Repro = fmt.Sprintf("%d/%d alone in a fresh process", ok, n)
			if ok == 0 {
				c := runChild(id, dir, "MC_ENGINE="+f.Engine, fmt.Sprintf("MC_UNIT=%d", f.Unit), fmt.Sprintf("MC_INDEX=%d", f.Index), "MC_UPTO=1")
				if c.err != nil || (c.res != nil && len(c.res.Failures) > 0) {
					f.Repro += "; reproduced when the cases of the unit before it run first (history dependent)"
				} else {
					f.Repro += "; depends on the executions before it"
				}
				if strings.Contains(f.Detail, "(hang)") || strings.Contains(f.Detail, "memory grew") {
					// a resource alarm that does not come back alone is the machine, not the code
					fmt.Fprintf(os.Stderr, "resource alarm not reproduced, dropped: %s\n", f.Detail)
					fails = nil
				}
			}
		}
		if len(fails) > 0 {
			f.How = fmt.Sprintf("cd %s && ./check.sh replay <this file>", verifDir())
			rd := filepath.Join(verifDir(), "evidence", "replay")
			os.MkdirAll(rd, 0o755)
			replay = filepath.Join(rd, fmt.Sprintf("%s-%s-%d-%d.json", id, sanitize(f.Engine), f.Unit, f.Index))
			b, _ := json.MarshalIndent(f, "", " ")
			os.WriteFile(replay, append(b, '\n'), 0o644)
		}
	}
	writeEvidence(p, res, fails, time.Since(t0).Seconds())
	for _, k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	for _, st := range res.Engines {
		fmt.Printf("%s %-22s executions=%d states=%d transitions=%d nontrivial=%d units=%d/%d exhaustive=%v %.1fs\n", id, st.Name, st.Evals, st.States, st.Transitions, st.Nontrivial, st.UnitsDone, st.Units, st.Exhaustive, st.Wall)
	}
	if len(fails) > 0 {
		for _, f := range fails {
			fmt.Printf("  engine=%s unit=%d index=%d %s\n  case: %s\n  %s\n", f.Engine, f.Unit, f.Index, f.Repro, clip(f.Case, 600), clip(f.Detail, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func writeEvidence(p *Property, res *childResult, fails []*failure, wall float64) {
	var states, trans, evals, nontriv int64
	ex := len(res.Engines) == len(p.Engines) && len(fails) == 0
	var samples []string
	var rules []string
	for _, st := range res.Engines {
		states += st.States
		trans += st.Transitions
		evals += st.Evals
		nontriv += st.Nontrivial
		ex = ex && st.Exhaustive
		for i, s := range st.Samples {
			if i < 2 {
				samples = append(samples, st.Name+": "+s)
			}
		}
		rules = append(rules, st.Name+": "+st.Rule)
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": evals,
		"evaluations": evals, "distinct_nontrivial": nontriv,
		"rule":    strings.Join(rules, " || "),
		"samples": samples, "exhaustive": ex, "deadline_hit": res.Deadline, "engines": res.Engines,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier(), "seed": seed(), "level": p.Level,
		"coverage": cov, "assumptions": append([]string{
			"the Go 1.23 toolchain and runtime, and encoding/json / strconv where they serve as the reference, are correct",
			"values outside the stated alphabets and bounds are not covered",
		}, p.Assumptions...),
		"wall_s": wall, "violations": len(fails),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0o755)
	os.WriteFile(filepath.Join(d, p.ID+".json"), append(b, '\n'), 0o644)
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 3
	}
	os.Setenv("VERIF_TIER", f.Tier)
	dir, _ := os.MkdirTemp("", "mc-replay-")
	defer os.RemoveAll(dir)
	c := runChild(f.Property, dir, "MC_ENGINE="+f.Engine, fmt.Sprintf("MC_UNIT=%d", f.Unit), fmt.Sprintf("MC_INDEX=%d", f.Index), "MC_DESC=1")
	if c.err != nil {
		fmt.Printf("case: %s\ncrashed: %v\n%s\n", c.desc, c.err, c.stderr)
		return 1
	}
	if c.res == nil || len(c.res.Failures) == 0 {
		fmt.Println("no violation")
		return 0
	}
	for _, f := range c.res.Failures {
		fmt.Printf("case: %s\n%s\n", f.Case, f.Detail)
	}
	return 1
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: mc run|replay|child ID")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		list()
		os.Exit(0)
	case "run":
		os.Exit(runProperty(os.Args[2]))
	case "child":
		os.Exit(child(os.Args[2]))
	case "calib":
		calib()
		os.Exit(0)
	case "replay":
		os.Exit(replayFile(os.Args[2]))
	}
	os.Exit(3)
}

// list writes the engines of all properties as markdown (ENGINES.md)
func list() {
	var ids []string
	for id := range properties {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	fmt.Println("# Engines (generated by `mc list`)")
	for _, id := range ids {
		fmt.Printf("\n## %s\n", id)
		for _, e := range properties[id].Engines {
			fmt.Printf("\n* **%s** (%d units; thorough %d). %s. *Bounds:* %s.\n", e.Name, e.Units(false), e.Units(true), e.Rule, e.Bounds)
		}
	}
}
