package sim

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

// G is one goroutine of a stop-the-world snapshot.
type G struct {
	ID      int
	State   string
	Stack   string
	Durable bool // blocked within a synctest bubble in a way that lets its time advance
}

// Blocked reports whether the goroutine waits for another goroutine (not for time, I/O or the processor).
func (g G) Blocked() bool {
	switch g.State {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "semacquire", "chan receive", "chan send", "select",
		"select (no cases)", "sync.Cond.Wait", "sync.WaitGroup.Wait", "chan receive (nil chan)", "chan send (nil chan)":
		return true
	}
	return false
}

var snapMu sync.Mutex
var snapBuf []byte

// Snapshot takes a consistent picture of all goroutines: runtime.Stack stops the world while it runs.
func Snapshot() (gs []G) {
	snapMu.Lock()
	defer snapMu.Unlock()
	if snapBuf == nil {
		snapBuf = make([]byte, 1<<18)
	}
	n := runtime.Stack(snapBuf, true)
	for n == len(snapBuf) {
		snapBuf = make([]byte, 2*len(snapBuf))
		n = runtime.Stack(snapBuf, true)
	}
	for _, blk := range bytes.Split(snapBuf[:n], []byte("\n\n")) {
		if !bytes.HasPrefix(blk, []byte("goroutine ")) {
			continue
		}
		nl := bytes.IndexByte(blk, '\n')
		head := blk
		if nl >= 0 {
			head = blk[:nl]
		}
		o, cl := bytes.IndexByte(head, '['), bytes.LastIndexByte(head, ']')
		if o < 0 || cl < 0 {
			continue
		}
		id, _ := strconv.Atoi(strings.Fields(string(head[10:o]))[0])
		st := string(head[o+1 : cl])
		if i := strings.IndexByte(st, ','); i >= 0 {
			st = st[:i]
		}
		durable := strings.HasSuffix(st, " (durable)")
		st = strings.TrimSuffix(st, " (durable)")
		gs = append(gs, G{id, st, string(blk), durable})
	}
	return
}

// GoID is the identifier of the calling goroutine.
func GoID() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	id, _ := strconv.Atoi(strings.Fields(string(b[10:n]))[0])
	return id
}

// Op is an operation running on its own goroutine.
type Op struct {
	Name  string
	Err   error
	Panic string // non-empty if the operation panicked
	done  chan struct{}
	gid   int
	ready chan struct{}
}

// Go starts an operation.
func Go(name string, f func() error) *Op {
	o := &Op{Name: name, done: make(chan struct{}), ready: make(chan struct{})}
	go func() {
		o.gid = GoID()
		close(o.ready)
		defer close(o.done)
		o.Panic = Catch(func() { o.Err = f() })
	}()
	<-o.ready
	return o
}

// Catch runs f and returns a description of its panic, or "".
func Catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
			msg += "\n" + trimStack(string(debug.Stack()))
		}
	}()
	f()
	return ""
}

func trimStack(s string) string {
	// Keep the frames below the panic that belong to the code under test or the harness.
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "tinygo-mqtt") || strings.Contains(l, "/repo/") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 12 {
		keep = keep[:12]
	}
	return strings.Join(keep, "\n")
}

// Yield lets other goroutines run.
func Yield(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

// Done reports whether the operation returned.
func (o *Op) Done() bool {
	select {
	case <-o.done:
		return true
	default:
		return false
	}
}

// Wait waits for the operation without any bound; the process watchdog covers it.
func (o *Op) Wait() *Op { <-o.done; return o }

// blockedOps reports, in one snapshot, whether every unfinished op is blocked, and their stacks.
func blockedOps(ops []*Op) (all bool, runnable bool, stacks []string) {
	gs := Snapshot()
	self := GoID()
	by := map[int]G{}
	others := true
	for _, g := range gs {
		by[g.ID] = g
		// Any other goroutine of the process that can still run could wake an operation.
		if g.ID != self && !g.Blocked() && !strings.Contains(g.Stack, ").watchdog(") {
			others = false
		}
	}
	all = true
	for _, o := range ops {
		if o.Done() {
			continue
		}
		g, ok := by[o.gid]
		if !ok { // just finished
			continue
		}
		if !g.Blocked() {
			all = false
			runnable = true
		}
		stacks = append(stacks, o.Name+": "+g.Stack)
	}
	if !others {
		all = false
	}
	return
}

// Settle waits until every given operation is finished or blocked. It says nothing about how long that takes; it is a
// scheduling aid, not an oracle.
func Settle(ops ...*Op) {
	streak := 0
	for i := 0; ; i++ {
		alldone := true
		for _, o := range ops {
			if !o.Done() {
				alldone = false
			}
		}
		if alldone {
			return
		}
		if all, _, _ := blockedOps(ops); all {
			streak++
			if streak >= 2 {
				return
			}
		} else {
			streak = 0
		}
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
	}
}

// Stuck describes operations that can never return.
type Stuck struct {
	Ops    []string
	Stacks []string
}

func (s *Stuck) Error() string {
	return fmt.Sprintf("stuck: %s\n%s", strings.Join(s.Ops, ", "), strings.Join(s.Stacks, "\n---\n"))
}

// Drive calls poll until all operations have returned. poll performs one Poll on the calling goroutine and reports
// whether it was idle (nothing was received, nothing changed). If poll stays idle while every unfinished operation is
// blocked in one stop-the-world snapshot, nothing can ever wake them: that is a proof of being stuck, not a timeout.
// It is confirmed over several further idle polls, because a poll releases and takes the client's locks.
func Drive(poll func() (idle bool, err error), ops ...*Op) error {
	idle := 0
	confirm := 0
	for i := 0; ; i++ {
		pend := pending(ops)
		if len(pend) == 0 {
			return nil
		}
		isIdle, err := poll()
		if err != nil {
			return err
		}
		if !isIdle {
			idle, confirm = 0, 0
			continue
		}
		idle++
		if idle < 4 {
			runtime.Gosched()
			continue
		}
		// Let everything runnable run to a standstill with no Poll in progress.
		Settle(pend...)
		if len(pending(ops)) < len(pend) {
			idle, confirm = 0, 0
			continue
		}
		if all, _, stacks := blockedOps(pend); all {
			confirm++
			if confirm >= 6 {
				s := &Stuck{Stacks: stacks}
				for _, o := range pend {
					s.Ops = append(s.Ops, o.Name)
				}
				return s
			}
		} else {
			confirm = 0
		}
	}
}

func pending(ops []*Op) (r []*Op) {
	for _, o := range ops {
		if !o.Done() {
			r = append(r, o)
		}
	}
	return
}

// Await waits until all ops are done, with nobody polling: stuck once every one of them is blocked.
func Await(ops ...*Op) error {
	return Drive(func() (bool, error) { return true, nil }, ops...)
}
