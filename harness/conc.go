package main

import (
	"encoding/json"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	gjs "github.com/xeipuuv/gojsonschema"
)

// Conc is what goroutines do after the calls of the session have set the scene
type Conc struct {
	Progs [][]Op   `json:"progs"`
	Sched []string `json:"sched,omitempty"` // s<g> and r<g>: goroutine g makes its next call, or its parked checker is released
	Docs  []string `json:"docs,omitempty"`  // decoded once and shared
	Times int      `json:"times,omitempty"` // without a schedule: how often every goroutine goes through its calls
}

var sharedDocs []interface{}

type event struct {
	g      int
	parked bool
	obs    Obs
}

// the goroutine that the schedule lets run
type scheduler struct {
	sync.Mutex
	current int
	release []chan bool
	ev      chan event
	st      []*state
	nested  [][]bool
}

var sch *scheduler

func (s *scheduler) cur() int {
	s.Lock()
	defer s.Unlock()
	return s.current
}

// park is called by a checker
func (s *scheduler) park() {
	g := s.cur()
	s.ev <- event{g: g, parked: true}
	<-s.release[g]
}

// call is made by a checker
func (s *scheduler) call(op *Op) {
	g := s.cur()
	o := s.st[g].exec(op)
	r := o.R
	if op.Op == "validate" {
		r = o.Valid
	} else if op.Op != "fhas" && op.Op != "fis" {
		r = o.OK
	}
	s.Lock()
	s.nested[g] = append(s.nested[g], r)
	s.Unlock()
}

var clock int64

var stuck = make(chan bool, 1)

// a call that the schedule lets run is stuck if it neither returns nor parks by then
var stuckAfter = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VERIF_STUCK")); err == nil {
		return d
	}
	return 20 * time.Second
}()

func (c *Conc) run(st *state) []Obs {
	sharedDocs = nil
	for _, d := range c.Docs {
		sharedDocs = append(sharedDocs, decode(d))
	}
	n := len(c.Progs)
	states := make([]*state, n)
	for g := range states {
		states[g] = &state{conc: true, touched: map[string]bool{}, schemas: append([]*gjs.Schema{}, st.schemas...), loaders: append([]*gjs.SchemaLoader{}, st.loaders...)}
	}
	defer func() {
		for _, s := range states {
			for k := range s.touched {
				st.touched[k] = true
			}
		}
	}()
	if c.Sched == nil {
		return c.free(states)
	}
	sch = &scheduler{ev: make(chan event, 1), st: states, release: make([]chan bool, n), nested: make([][]bool, n)}
	next := make([]int, n)
	for g := range sch.release {
		sch.release[g] = make(chan bool)
	}
	out := []Obs{}
	for _, t := range c.Sched {
		g := int(t[1]-'0') - 1
		sch.Lock()
		sch.current = g
		sch.Unlock()
		if t[0] == 's' {
			op := &c.Progs[g][next[g]]
			next[g]++
			sch.nested[g] = nil
			go func() {
				o := states[g].exec(op)
				sch.ev <- event{g: g, obs: o}
			}()
		} else {
			select {
			case sch.release[g] <- true:
			case <-time.After(stuckAfter):
				return append(out, Obs{Ev: "not parked"})
			}
		}
		select {
		case e := <-sch.ev:
			o := e.obs
			o.Ev = "done"
			if e.parked {
				o.Ev = "parked"
			}
			if e.g != g {
				o.Ev = "other"
			}
			sch.Lock()
			o.Nested = append([]bool{}, sch.nested[g]...)
			sch.Unlock()
			out = append(out, o)
		case <-time.After(stuckAfter):
			stuck <- true // what follows may block as well
			select {}
		}
	}
	return out
}

// free lets all goroutines run
func (c *Conc) free(states []*state) []Obs {
	n := len(c.Progs)
	res := make([][]Obs, n)
	start := make(chan bool)
	var ready int32
	var wg sync.WaitGroup
	for g := range c.Progs {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			// all begin at the same moment
			for atomic.AddInt32(&ready, 1); atomic.LoadInt32(&ready) < int32(n); {
				runtime.Gosched()
			}
			for i := range c.Progs[g] {
				inv := atomic.AddInt64(&clock, 1)
				o := states[g].exec(&c.Progs[g][i])
				o.Inv, o.Ret = inv, atomic.AddInt64(&clock, 1)
				res[g] = append(res[g], o)
			}
		}()
	}
	close(start)
	wg.Wait()
	out := []Obs{}
	for _, r := range res {
		out = append(out, r...)
	}
	return out
}

func parkChecker(c checker) bool {
	var b bool
	json.Unmarshal([]byte(c.ck.A), &b)
	if c.ck.K == "park" {
		sch.park()
	} else {
		sch.call(c.ck.Op)
	}
	return b
}
