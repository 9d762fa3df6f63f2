package vh

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type line struct {
	T      string           `json:"t"`
	Case   int              `json:"case"`
	Counts map[string]int64 `json:"counts,omitempty"`
	Keys   []uint64         `json:"keys,omitempty"`
	Sample string           `json:"sample,omitempty"`
	Fail   *Failure         `json:"fail,omitempty"`
	Inconc string           `json:"inconc,omitempty"`
}

// Main is the entry point of a check binary.
func Main() {
	var (
		id      = flag.String("check", "", "property id")
		worker  = flag.Bool("worker", false, "internal")
		shard   = flag.Int("shard", 0, "internal")
		shards  = flag.Int("shards", 1, "internal")
		from    = flag.Int("from", 0, "internal")
		total   = flag.Int("total", 0, "internal")
		only    = flag.Int("case", -1, "run one case only")
		attempt = flag.Int("attempt", 0, "internal")
		seed    = flag.Int64("seed", envInt("VERIF_SEED", 1), "seed")
		tier    = flag.String("tier", envStr("VERIF_TIER", "quick"), "quick or thorough")
		verif   = flag.String("verif", "/verif", "directory of the framework")
		scratch = flag.String("scratch", "", "scratch directory")
		list    = flag.Bool("list", false, "list checks")
		isRace  = flag.Bool("needsrace", false, "exit 0 if the check needs a race build")
		doc     = flag.Bool("doc", false, "print check descriptions as JSON")
	)
	flag.Parse()
	if *list {
		for _, i := range IDs() {
			fmt.Println(i)
		}
		return
	}
	if *doc {
		type d struct {
			ID, Rule, Technique, Note string
			Race                      bool
			Quick, Thorough           int
		}
		for _, i := range IDs() {
			c := Get(i)
			b, _ := json.Marshal(d{c.ID, c.Rule, c.Technique, c.LevelNote, c.Race, c.Quick, c.Thorough})
			fmt.Println(string(b))
		}
		return
	}
	c := Get(*id)
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		os.Exit(3)
	}
	if *isRace {
		if c.Race {
			os.Exit(0)
		}
		os.Exit(1)
	}
	if *worker {
		runWorker(c, *shard, *shards, *from, *total, *only, *attempt, *seed, *tier, *scratch)
		return
	}
	os.Exit(runParent(c, *seed, *tier, *verif, *scratch, *only))
}

func envInt(k string, d int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return v
	}
	return d
}
func envStr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// ---------------------------------------------------------------- worker

func runWorker(c *Check, shard, shards, from, total, only, attempt int, seed int64, tier, scratch string) {
	out := os.Stdout
	devnull, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = devnull                    // the server prints for every chunk
	if f := os.Getenv("VH_OUT"); f != "" { // debugging aid
		os.Stdout, _ = os.OpenFile(f, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	}
	var mu sync.Mutex
	emit := func(l line) {
		b, _ := json.Marshal(l)
		mu.Lock()
		out.Write(append(b, '\n'))
		mu.Unlock()
	}
	dir := filepath.Join(scratch, fmt.Sprintf("w%d", os.Getpid()))
	os.MkdirAll(dir, 0o755)
	os.Chdir(dir)
	pid := os.Getpid()
	w := &Worker{Check: c, Shard: shard, Seed: seed, Tier: tier, Attempt: attempt, Scratch: dir,
		IP: fmt.Sprintf("127.%d.%d.%d", 10+(pid>>15)&63, (pid>>7)&255, pid&127<<1|1), Counts: map[string]int64{}}
	if c.MemLimit > 0 {
		debug.SetMemoryLimit(c.MemLimit / 2)
	}
	if c.Setup != nil {
		c.Setup(w)
	}
	runOne := func(i int) bool {
		emit(line{T: "start", Case: i})
		cs := NewCase(w, i)
		if d := os.Getenv("VH_SLOW"); d != "" { // debugging aid: stacks of cases that take long
			t := time.AfterFunc(4*time.Second, func() {
				f, _ := os.Create(fmt.Sprintf("%s.%d", d, i))
				pprof.Lookup("goroutine").WriteTo(f, 2)
				f.Close()
			})
			defer t.Stop()
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stopCase); !ok {
						panic(r)
					}
				}
			}()
			c.Run(cs)
		}()
		l := line{T: "end", Case: i, Counts: cs.counts, Sample: cs.sample, Fail: cs.fail, Inconc: cs.inconc}
		for k := range cs.keys {
			l.Keys = append(l.Keys, k)
		}
		if l.Sample == "" && len(cs.trace) > 0 {
			s := strings.Join(cs.trace, " | ")
			if len(s) > 600 {
				s = s[:600] + "..."
			}
			l.Sample = s
		}
		emit(l)
		return cs.fail == nil
	}
	if only >= 0 {
		runOne(only)
	} else {
		for i := shard; i < total; i += shards {
			if i < from {
				continue
			}
			runOne(i)
		}
	}
	if c.Finish != nil {
		c.Finish(w)
	}
	emit(line{T: "done", Counts: w.Counts})
	os.Exit(0)
}

// ---------------------------------------------------------------- parent

type result struct {
	evals  int
	counts map[string]int64
	keys   map[uint64]struct{}
	samp   []interface{}
	inconc []string
}

type found struct {
	Property string   `json:"property"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Case     int      `json:"case"`
	Failure  *Failure `json:"failure"`
	How      string   `json:"how_to_replay"`
}

type parent struct {
	c       *Check
	seed    int64
	tier    string
	scratch string
	total   int
	known   map[string]string

	mu     sync.Mutex
	res    result
	viol   []found
	knownH map[string]int
	errs   []string
	stop   chan struct{}
	once   sync.Once
	procs  map[int]*exec.Cmd
	serial sync.Mutex
}

func (p *parent) halt() {
	p.once.Do(func() { close(p.stop) })
	p.mu.Lock()
	for _, c := range p.procs {
		c.Process.Kill()
	}
	p.mu.Unlock()
}
func (p *parent) stopped() bool {
	select {
	case <-p.stop:
		return true
	default:
		return false
	}
}

func runParent(c *Check, seed int64, tier, verif, scratch string, only int) int {
	t0 := time.Now()
	if scratch == "" {
		scratch, _ = os.MkdirTemp("", "vh")
		defer os.RemoveAll(scratch)
	}
	total := c.Quick
	if tier == "thorough" {
		total = c.Thorough
	}
	p := &parent{c: c, seed: seed, tier: tier, scratch: scratch, total: total, stop: make(chan struct{}),
		procs: map[int]*exec.Cmd{}, knownH: map[string]int{}, known: loadKnown(filepath.Join(verif, "known_findings.json"), c.ID)}
	p.res.counts = map[string]int64{}
	p.res.keys = map[uint64]struct{}{}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)

	if only >= 0 {
		p.runShard(0, 1, only)
	} else {
		n := c.Workers
		if n > total {
			n = total
		}
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); p.runShard(i, n, -1) }(i)
		}
		wg.Wait()
	}
	sort.Slice(p.viol, func(i, j int) bool { return p.viol[i].Case < p.viol[j].Case })
	code := 0
	if len(p.viol) > 0 {
		code = 1
		v := p.viol[0]
		path := filepath.Join(verif, "evidence", c.ID+".replay.json")
		b, _ := json.MarshalIndent(p.viol, "", " ")
		os.WriteFile(path, b, 0o644)
		for i, x := range p.viol {
			if i < 5 {
				m := x.Failure.Msg
				if len(m) > 4000 {
					m = m[:4000] + "..."
				}
				fmt.Printf("case %d [%s]: %s\n", x.Case, x.Failure.Key, m)
				if x.Failure.Stack != "" {
					fmt.Println(headLines(x.Failure.Stack, 25))
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
	} else {
		os.Remove(filepath.Join(verif, "evidence", c.ID+".replay.json"))
		if len(p.errs) > 0 {
			for _, e := range p.errs {
				fmt.Println("check error:", e)
			}
			code = 3
		}
	}
	for k, n := range p.knownH {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s, %d cases)\n", c.ID, p.known[k], k, n)
	}
	if code == 0 && only < 0 && (len(p.res.keys) == 0 || p.res.evals < total*9/10) {
		fmt.Printf("check error: observed too little: %d of %d cases, %d non-trivial, %d inconclusive\n", p.res.evals, total, len(p.res.keys), len(p.res.inconc))
		code = 3
	}
	cov := map[string]interface{}{
		"evaluations": p.res.evals, "distinct_nontrivial": len(p.res.keys), "rule": c.Rule, "samples": p.res.samp,
		"observed": p.res.counts, "inconclusive": len(p.res.inconc),
	}
	if len(p.res.inconc) > 0 {
		m := p.res.inconc
		if len(m) > 5 {
			m = m[:5]
		}
		cov["inconclusive_examples"] = m
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(p.viol),
	}
	if c.Assumptions == nil {
		delete(ev, "assumptions")
	}
	if p.res.samp == nil {
		cov["samples"] = []interface{}{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if only < 0 {
		os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d inconclusive, %d violations, %.1fs; observed %v\n",
		c.ID, tier, seed, p.res.evals, len(p.res.keys), len(p.res.inconc), len(p.viol), time.Since(t0).Seconds(), p.res.counts)
	for i, m := range p.res.inconc {
		if i < 3 {
			fmt.Println("inconclusive:", strings.SplitN(m, "\n", 2)[0])
		}
	}
	return code
}

// runShard runs the cases of a shard, restarting the worker after a crash.
func (p *parent) runShard(shard, shards, only int) {
	from := 0
	for !p.stopped() {
		cur, fl, done := p.runProc(shard, shards, from, only, 0)
		if fl != nil {
			p.report(cur, fl)
		}
		if done || only >= 0 || p.stopped() {
			return
		}
		from = cur + 1
	}
}

func (p *parent) report(idx int, fl *Failure) {
	if p.stopped() {
		return
	}
	if fl.Key == "harness" {
		p.mu.Lock()
		p.errs = append(p.errs, fmt.Sprintf("case %d: %s", idx, fl.Msg))
		p.mu.Unlock()
		p.halt()
		return
	}
	if _, ok := p.known[fl.Key]; ok {
		p.mu.Lock()
		p.knownH[fl.Key]++
		p.mu.Unlock()
		return
	}
	if fl.Timed {
		// confirm, alone among confirmations and with longer deadlines
		p.serial.Lock()
		defer p.serial.Unlock()
		if p.stopped() {
			return
		}
		var second *Failure
		for k := 0; k < 2 && second == nil && !p.stopped(); k++ {
			_, second, _ = p.runProc(0, 1, 0, idx, 1)
		}
		if p.stopped() {
			return
		}
		if second == nil {
			p.mu.Lock()
			p.res.inconc = append(p.res.inconc, fmt.Sprintf("case %d [%s] not confirmed: %s", idx, fl.Key, fl.Msg))
			p.mu.Unlock()
			return
		}
		if second.Key == "harness" {
			p.mu.Lock()
			p.errs = append(p.errs, fmt.Sprintf("case %d: %s", idx, second.Msg))
			p.mu.Unlock()
			p.halt()
			return
		}
		if _, ok := p.known[second.Key]; ok {
			p.mu.Lock()
			p.knownH[second.Key]++
			p.mu.Unlock()
			return
		}
		fl = second
	}
	p.mu.Lock()
	p.viol = append(p.viol, found{p.c.ID, p.seed, p.tier, idx, fl,
		fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s -case %d", p.seed, p.tier, p.c.ID, idx)})
	p.mu.Unlock()
	p.halt()
}

// runProc runs one worker; it returns the case it was in when it stopped.
func (p *parent) runProc(shard, shards, from, only, attempt int) (cur int, fl *Failure, done bool) {
	self, _ := os.Executable()
	args := []string{"-worker", "-check", p.c.ID, "-shard", strconv.Itoa(shard), "-shards", strconv.Itoa(shards),
		"-from", strconv.Itoa(from), "-total", strconv.Itoa(p.total), "-case", strconv.Itoa(only), "-attempt", strconv.Itoa(attempt),
		"-seed", strconv.FormatInt(p.seed, 10), "-tier", p.tier, "-scratch", p.scratch}
	cmd := exec.Command(self, args...)
	errf, _ := os.CreateTemp(p.scratch, "stderr")
	defer errf.Close()
	defer os.Remove(errf.Name())
	cmd.Stderr = errf
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return 0, &Failure{Key: "harness", Msg: err.Error()}, true
	}
	racelog := errf.Name() + ".race"
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 history_size=5 log_path="+racelog)
	if err := cmd.Start(); err != nil {
		return 0, &Failure{Key: "harness", Msg: err.Error()}, true
	}
	pid := cmd.Process.Pid
	p.mu.Lock()
	p.procs[pid] = cmd
	p.mu.Unlock()
	defer func() { p.mu.Lock(); delete(p.procs, pid); p.mu.Unlock() }()

	lines := make(chan line, 64)
	go func() {
		sc := bufio.NewReaderSize(pipe, 1<<20)
		for {
			b, err := sc.ReadBytes('\n')
			if len(b) > 0 {
				var l line
				if json.Unmarshal(b, &l) == nil {
					lines <- l
				}
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	timeout := p.c.CaseTimeout
	if attempt > 0 {
		timeout = timeout * 2
	}
	if timeout < 20*time.Second {
		timeout = 20 * time.Second
	}
	wd := time.NewTimer(timeout)
	tick := time.NewTicker(40 * time.Millisecond)
	defer tick.Stop()
	cur = -1
	killed := ""
	finished := false
loop:
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				break loop
			}
			wd.Reset(timeout)
			switch l.T {
			case "start":
				cur = l.Case
			case "end", "done":
				p.merge(l, attempt)
				if l.T == "done" {
					finished = true
				}
				if l.Fail != nil {
					if only >= 0 {
						fl = l.Fail
					} else {
						p.report(l.Case, l.Fail)
					}
				}
			}
		case <-wd.C:
			killed = "hang"
			cmd.Process.Signal(syscall.SIGQUIT)
			go func() { time.Sleep(5 * time.Second); cmd.Process.Kill() }()
		case <-tick.C:
			if rss := rssOf(pid); rss > p.c.MemLimit && killed == "" {
				killed = fmt.Sprintf("memory: resident set grew to %d MB", rss>>20)
				cmd.Process.Kill()
			}
		}
	}
	werr := cmd.Wait()
	if rl := raceReports(racelog); len(rl) > 0 && p.c.Race {
		f := &Failure{Key: "race:" + rl[0].sig, Msg: fmt.Sprintf("%d data race report(s); first:", len(rl)), Stack: rl[0].text}
		for _, r := range rl {
			if _, ok := p.known["race:"+r.sig]; !ok {
				f.Key, f.Stack = "race:"+r.sig, r.text
				break
			}
		}
		p.report(cur, f)
	}
	if p.stopped() && killed == "" {
		return cur, fl, true
	}
	if finished && werr == nil {
		return cur, fl, true
	}
	eb, _ := os.ReadFile(errf.Name())
	es := string(eb)
	switch {
	case killed == "hang":
		if d := os.Getenv("VH_SLOW"); d != "" {
			os.WriteFile(fmt.Sprintf("%s.hang.%d.%d", d, cur, attempt), eb, 0o644)
		}
		return cur, &Failure{Key: "hang", Msg: "case did not finish (watchdog)", Stack: headLines(ggGoroutines(es), 120), Timed: true}, false
	case killed != "":
		return cur, &Failure{Key: "memory", Msg: killed}, false
	}
	sig, gg := crashSignature(es)
	if gg {
		return cur, &Failure{Key: "crash:" + sig, Msg: "the process crashed: " + sig, Stack: headLines(es, 60)}, false
	}
	return cur, &Failure{Key: "harness", Msg: fmt.Sprintf("worker ended (%v): %s", werr, headLines(es, 60))}, true
}

func (p *parent) merge(l line, attempt int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if attempt == 0 && l.T == "end" {
		if l.Inconc == "" {
			p.res.evals++
		}
	}
	for k, v := range l.Counts {
		if strings.HasPrefix(k, "max_") {
			if v > p.res.counts[k] {
				p.res.counts[k] = v
			}
		} else {
			p.res.counts[k] += v
		}
	}
	for _, k := range l.Keys {
		p.res.keys[k] = struct{}{}
	}
	if l.Sample != "" && len(p.res.samp) < 6 {
		p.res.samp = append(p.res.samp, fmt.Sprintf("case %d: %s", l.Case, l.Sample))
	}
	if l.Inconc != "" {
		p.res.inconc = append(p.res.inconc, fmt.Sprintf("case %d: %s", l.Case, l.Inconc))
	}
}

func rssOf(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func headLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

const modPath = "github.com/sbraveyoung/GGmpeg"

var reHex = regexp.MustCompile(`0x[0-9a-f]+|\b\d+\b`)

// crashSignature finds the panic message and whether GGmpeg is on its stack.
func crashSignature(s string) (string, bool) {
	i := -1
	for _, m := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds", "unexpected fault"} {
		if j := strings.Index(s, m); j >= 0 && (i < 0 || j < i) {
			i = j
		}
	}
	if i < 0 {
		return "", false
	}
	msg := s[i:]
	head := strings.SplitN(msg, "\n", 2)[0]
	fn := ""
	// the first goroutine block is the one that failed
	blocks := strings.Split(msg, "\n\n")
	lim := 2
	if strings.Contains(head, "stack exceeds") || strings.Contains(head, "stack overflow") || strings.Contains(head, "out of memory") {
		lim = 3
	}
	for k := 0; k < len(blocks) && k < lim && fn == ""; k++ {
		for _, l := range strings.Split(blocks[k], "\n") {
			if strings.HasPrefix(l, modPath) {
				fn = strings.TrimPrefix(l, modPath+"/")
				if j := strings.LastIndex(fn, "("); j > 0 {
					fn = fn[:j]
				}
				break
			}
		}
	}
	return reHex.ReplaceAllString(head, "N") + " in " + fn, fn != ""
}

func ggGoroutines(s string) string {
	var out []string
	for _, b := range strings.Split(s, "\n\n") {
		if strings.Contains(b, modPath) {
			out = append(out, b)
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n\n")
}

type raceRep struct{ sig, text string }

func raceReports(prefix string) (out []raceRep) {
	files, _ := filepath.Glob(prefix + ".*")
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		os.Remove(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "DATA RACE") {
				continue
			}
			var fns []string
			// first GGmpeg (or dependency) frame of each access
			for _, part := range strings.Split(blk, "\n\n") {
				t := strings.TrimSpace(part)
				if !(strings.Contains(t, "WARNING: DATA RACE") || strings.HasPrefix(t, "Previous ")) {
					continue
				}
				fn := "?"
				for _, l := range strings.Split(t, "\n") {
					l = strings.TrimSpace(l)
					if strings.HasPrefix(l, modPath) {
						fn = strings.TrimPrefix(l, modPath+"/")
						fn = strings.TrimSuffix(fn, "()")
						break
					}
				}
				fns = append(fns, fn)
			}
			sort.Strings(fns)
			sig := strings.Join(fns, "|")
			if strings.Trim(sig, "?|") == "" {
				continue // neither access is in the code under test
			}
			if seen[sig] {
				continue
			}
			seen[sig] = true
			out = append(out, raceRep{sig, headLines(strings.TrimSpace(blk), 60)})
		}
	}
	return
}

// loadKnown reads the committed known findings of one property.
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	var f struct {
		Findings []struct {
			Property string `json:"property"`
			Key      string `json:"key"`
			What     string `json:"what"`
		} `json:"findings"`
	}
	if json.Unmarshal(b, &f) != nil {
		return out
	}
	for _, x := range f.Findings {
		if x.Property == id {
			out[x.Key] = x.What
		}
	}
	return out
}

var _ = io.EOF
