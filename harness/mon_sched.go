//go:build testing
// +build testing

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"

	sdk "github.com/cosmos/cosmos-sdk/types"
)

// Restart closes the node between two blocks and opens it again from what it has stored.
func (c *Chain) Restart() {
	defer guardApp("restart")
	c.App, c.EC = openApp(c.DB)
}

const (
	hookA    = "verif/a"
	hookB    = "verif/b"
	hookNone = "verif/none" // nobody handles it
)

// job is one planted task together with what it does when it's performed.
type job struct {
	id      int
	at      time.Time
	hook    string
	planted int  // order of scheduling
	panics  bool // the handler panics in the end
	spawn   []*job
	cancel  []int // jobs the handler cancels
}

func (j *job) data() []byte { return []byte(fmt.Sprintf("job-%d", j.id)) }

// run is one observed execution.
type run struct {
	id        int
	hook      string
	taskTime  time.Time
	blockTime time.Time
	height    int64
}

// monSched plants tasks of its own among those of the modules and judges the scheduler by what happens to them.
type monSched struct {
	NopMonitor
	jobs    map[int]*job
	pending map[int]bool
	late    map[int]bool // scheduled while the very moment was being processed
	log     []run
	next    int
	order   int
	inBlock bool
	extra   []string
}

func (m *monSched) Start(w *World) {
	m.jobs, m.pending, m.late = map[int]*job{}, map[int]bool{}, map[int]bool{}
	m.hooks(w)
}

func (m *monSched) hooks(w *World) {
	k := w.C.App.GetScheduleKeeper()
	for _, h := range []string{hookA, hookB} {
		h := h
		k.AddHook(h, func(ctx sdk.Context, data []byte, at time.Time) { m.handle(w, ctx, h, data, at) })
	}
}

func (m *monSched) handle(w *World, ctx sdk.Context, hook string, data []byte, at time.Time) {
	var id int
	if n, _ := fmt.Sscanf(string(data), "job-%d", &id); n != 1 || m.jobs[id] == nil {
		w.Rep.Violate(w, "unknown-task", "a task that was never scheduled is performed: %s %q @%s", hook, data, at)
		return
	}
	m.log = append(m.log, run{id: id, hook: hook, taskTime: at, blockTime: ctx.BlockTime(), height: ctx.BlockHeight()})
	j := m.jobs[id]
	if !m.pending[id] {
		w.Rep.Violate(w, "again", "task %d is performed although it had been performed or cancelled before", id)
	}
	delete(m.pending, id)
	k := w.C.App.GetScheduleKeeper()
	for _, s := range j.spawn {
		m.plant(w, ctx, s)
		if !s.at.After(ctx.BlockTime()) {
			m.late[s.id] = true
		}
	}
	for _, c := range j.cancel {
		if x := m.jobs[c]; m.pending[c] && !x.at.Equal(at) {
			k.Delete(ctx, x.at, x.hook, x.data())
			delete(m.pending, c)
			w.Rep.Count("cancelled by a task", 1)
		}
	}
	if j.panics {
		panic("planted")
	}
}

func (m *monSched) plant(w *World, ctx sdk.Context, j *job) {
	m.jobs[j.id], m.pending[j.id] = j, true
	j.planted = m.order
	m.order++
	w.C.App.GetScheduleKeeper().ScheduleTask(ctx, j.at, j.hook, j.data())
}

// moment picks an interesting time around now.
func (m *monSched) moment(w *World) time.Time {
	r, now := w.R, w.C.Time
	day := int64(w.S.day())
	switch r.Intn(9) {
	case 0:
		return now
	case 1:
		return now.Add(1)
	case 2:
		return now.Add(-time.Duration(r.between(1, day)))
	case 3, 4: // together with some other task
		if len(w.S.Tasks) > 0 {
			t := w.S.Tasks[r.Intn(len(w.S.Tasks))].Time
			if r.chance(0.3) {
				t = t.Add(time.Duration(r.between(-1, 1)))
			}
			return t
		}
	case 5: // together with some other job
		for _, id := range m.sorted() {
			if r.chance(0.2) {
				return m.jobs[id].at
			}
		}
	case 6:
		return now.Add(time.Duration(r.between(1, 100*day)))
	}
	return now.Add(time.Duration(r.between(0, 3*day)))
}

func (m *monSched) sorted() []int {
	var r []int
	for id := range m.pending {
		r = append(r, id)
	}
	sort.Ints(r)
	return r
}

func (m *monSched) job(w *World, depth int) *job {
	m.next++
	r := w.R
	j := &job{id: m.next, at: m.moment(w), hook: []string{hookA, hookA, hookB, hookNone}[r.Intn(4)], panics: r.chance(0.15)}
	if depth < 2 {
		for r.chance(0.3) {
			s := m.job(w, depth+1)
			if r.chance(0.4) { // at the very same moment as its parent, or right around it
				s.at = j.at.Add(time.Duration(r.between(-1, 1)))
			}
			j.spawn = append(j.spawn, s)
		}
	}
	if ids := m.sorted(); len(ids) > 0 && r.chance(0.25) {
		j.cancel = append(j.cancel, ids[r.Intn(len(ids))])
	}
	return j
}

// BeginBlock judges what the scheduler has done and then plants some more.
func (m *monSched) BeginBlock(w *World, pre, post *Snap, b *BlockRec, _ abci.ResponseBeginBlock) {
	// what must have been performed: simulated on what was pending before
	var due []*job
	stillPre := map[string]bool{}
	for _, t := range pre.Tasks {
		if strings.HasPrefix(t.HandlerName, "verif/") {
			stillPre[string(t.Data)] = true
		}
	}
	for _, j := range m.jobs {
		if !j.at.After(b.Time) && stillPre[string(j.data())] {
			due = append(due, j)
		}
	}
	sort.Slice(due, func(i, k int) bool {
		if !due[i].at.Equal(due[k].at) {
			return due[i].at.Before(due[k].at)
		}
		return due[i].planted < due[k].planted
	})
	var want []int
	cancelled := map[int]bool{}
	wasDue := map[int]bool{}
	for _, j := range due {
		wasDue[j.id] = true
	}
	before := map[int]bool{}
	for _, x := range m.log { // what this very block has scheduled may be performed at once, and cancel others
		if !wasDue[x.id] {
			for _, c := range m.jobs[x.id].cancel {
				if y := m.jobs[c]; y != nil && !y.at.Equal(m.jobs[x.id].at) && !before[c] {
					cancelled[c] = true
					w.Rep.Count("cancelled by a task scheduled in the same block", 1)
				}
			}
		}
		before[x.id] = true
	}
	for _, j := range due {
		if cancelled[j.id] {
			continue
		}
		if j.hook == hookNone {
			delete(m.pending, j.id)
			continue
		}
		want = append(want, j.id)
		for _, c := range j.cancel {
			if x := m.jobs[c]; x != nil && !x.at.Equal(j.at) {
				cancelled[c] = true
			}
		}
	}
	var got []int
	seen := map[int]int{}
	for _, x := range m.log {
		j := m.jobs[x.id]
		seen[x.id]++
		if seen[x.id] > 1 {
			w.Rep.Violate(w, "twice", "task %d is performed %d times in a block", x.id, seen[x.id])
		}
		if x.taskTime.After(x.blockTime) {
			w.Rep.Violate(w, "early", "task %d of %s is performed at %s", x.id, x.taskTime, x.blockTime)
		}
		if !x.taskTime.Equal(j.at) || x.hook != j.hook {
			w.Rep.Violate(w, "altered", "task %d was scheduled as %s @%s and is performed as %s @%s", x.id, j.hook, j.at, x.hook, x.taskTime)
		}
		if !x.blockTime.Equal(b.Time) || x.height != b.Height {
			w.Rep.Violate(w, "context", "task %d is performed in block %d (%s) with the context of block %d (%s)", x.id, b.Height, b.Time, x.height, x.blockTime)
		}
		if wasDue[x.id] {
			got = append(got, x.id)
		} else {
			w.Rep.Count("performed in the block which scheduled them", 1)
		}
		kind := ""
		if j.panics {
			kind = "panics "
			w.Rep.Count("panicked", 1)
		}
		w.Rep.Eval("performed %s%s late=%d spawn=%d cancel=%d due=%d", kind, j.hook, magnitude(int64(b.Time.Sub(j.at))), len(j.spawn), len(j.cancel), len(due))
	}
	m.log = nil
	if fmt.Sprint(got) != fmt.Sprint(want) {
		sg := append([]int(nil), got...)
		sw := append([]int(nil), want...)
		sort.Ints(sg)
		sort.Ints(sw)
		sig := "order"
		if fmt.Sprint(sg) != fmt.Sprint(sw) {
			sig = "not-performed"
		}
		w.Rep.Violate(w, sig, "tasks %v were performed, expected %v", got, want)
	}
	w.Rep.Count("performed", int64(len(got)))
	if len(got) > 1 {
		w.Rep.Count("blocks with several", 1)
	}
	for _, j := range due {
		delete(m.pending, j.id)
	}
	// no task that was due has been left behind, those of the modules included
	x, y := taskSet(pre.Tasks), taskSet(post.Tasks)
	for _, t := range pre.Tasks {
		if t.Time.After(b.Time) {
			continue
		}
		k := fmt.Sprintf("%s %x @%s", t.HandlerName, t.Data, t.Time.UTC().Format(time.RFC3339Nano))
		w.Rep.Count("module tasks due", int64(boolInt(!strings.HasPrefix(t.HandlerName, "verif/"))))
		if y[k] >= x[k] {
			w.Rep.Violate(w, "left:"+t.HandlerName, "a task that was due is left: %s", k)
		}
	}
	m.stored(w, post, "BeginBlock")
	m.act(w)
}

// act schedules and cancels from within the block.
func (m *monSched) act(w *World) {
	ctx, r := w.C.Ctx(), w.R
	k := w.C.App.GetScheduleKeeper()
	for r.chance(0.75) {
		m.plant(w, ctx, m.job(w, 0))
		w.Rep.Count("planted", 1)
	}
	if r.chance(0.2) {
		if ids := m.sorted(); len(ids) > 0 {
			j := m.jobs[ids[r.Intn(len(ids))]]
			if r.chance(0.6) {
				k.Delete(ctx, j.at, j.hook, j.data())
				delete(m.pending, j.id)
				w.Rep.Count("cancelled", 1)
			} else {
				k.DeleteAll(ctx, j.at, j.hook)
				for _, id := range ids {
					if x := m.jobs[id]; x.at.Equal(j.at) && x.hook == j.hook {
						delete(m.pending, id)
					}
				}
				w.Rep.Count("cancelled all", 1)
			}
		}
	}
	if r.chance(0.1) { // nothing to cancel
		j := m.job(w, 2)
		k.Delete(ctx, j.at, j.hook, j.data())
		w.Rep.Count("cancelled nothing", 1)
	}
	if r.chance(0.3) {
		from, to := m.moment(w), m.moment(w)
		if to.Before(from) {
			from, to = to, from
		}
		var want []int
		for _, id := range m.sorted() {
			if j := m.jobs[id]; !j.at.Before(from) && j.at.Before(to) && j.hook != hookNone {
				want = append(want, id)
			}
		}
		var got []int
		for _, t := range k.GetTasks(ctx, from, to) {
			var id int
			if n, _ := fmt.Sscanf(string(t.Data), "job-%d", &id); n == 1 && t.HandlerName != hookNone {
				got = append(got, id)
			}
		}
		sort.Ints(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			w.Rep.Violate(w, "range", "tasks from %s to %s are %v, not %v", from, to, got, want)
		}
		w.Rep.Count("ranges", 1)
		w.Rep.Eval("range %d", len(want))
	}
	w.S = w.snap()
	m.stored(w, w.S, "scheduling")
}

// stored compares what the store holds with what is pending.
func (m *monSched) stored(w *World, s *Snap, what string) {
	got := map[string]int{}
	var prev time.Time
	for _, t := range s.Tasks {
		if t.Time.Before(prev) {
			w.Rep.Violate(w, "unsorted", "the tasks are not listed in order of time")
		}
		prev = t.Time
		if strings.HasPrefix(t.HandlerName, "verif/") && (t.HandlerName != hookNone || t.Time.After(s.Time)) {
			got[fmt.Sprintf("%s %s @%s", t.HandlerName, t.Data, t.Time.UTC().Format(time.RFC3339Nano))]++
		}
	}
	want := map[string]int{}
	for id := range m.pending {
		j := m.jobs[id]
		if j.hook == hookNone && !j.at.After(s.Time) {
			continue // may be gone or not, when it has been scheduled by a task
		}
		want[fmt.Sprintf("%s %s @%s", j.hook, j.data(), j.at.UTC().Format(time.RFC3339Nano))]++
	}
	if d := diffCounts(got, want); len(d) > 0 {
		w.Rep.Violate(w, "stored", "after %s: %v", what, first(d, 5))
	}
	w.Rep.Count("stored tasks compared", int64(len(want)))
}

func (m *monSched) Tx(w *World, pre, post *Snap, tx *TxRec) {
	// whatever a failed transaction has done to the schedule is undone (A01); a successful one never touches foreign tasks
	m.stored(w, post, tx.Kind)
}

func (m *monSched) EndBlock(w *World, pre, post *Snap, _ abci.ResponseEndBlock) {
	m.stored(w, post, "EndBlock")
}

func (m *monSched) Commit(w *World, s *Snap) {
	if w.R.chance(0.08) {
		w.C.Restart()
		m.hooks(w)
		w.Rep.Count("restarts", 1)
	}
	if w.R.chance(0.1) {
		k := w.C.App.GetScheduleKeeper()
		ctx := w.C.App.BaseApp.NewContext(true, w.C.header())
		_, ts := k.ExportGenesis(ctx)
		if x, y := taskSet(ts), taskSet(s.Tasks); len(diffCounts(x, y)) > 0 {
			w.Rep.Violate(w, "export", "exported tasks differ: %v", first(diffCounts(x, y), 5))
		}
		w.Rep.Count("exports", 1)
	}
}
