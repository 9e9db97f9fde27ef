package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const wpT = "WorkerPool"

func init() {
	register(&Property{ID: "W01", Level: "proof", MinObl: 20, Run: runW01,
		Explain: "All paths of every method of the worker pool and of every goroutine it starts: the closed flag and the size under their locks, a job announced to the wait group before its one send and only while the pool is open, each channel closed once by the first shutdown with the wait in between, a worker running each received job once and then reporting it done, its error offered without waiting, and a resize changing the number of workers by exactly the difference."})
}

func runW01(c *Ctx) {
	// the shutdown lock is held in read mode while a job is handed over, so
	// that no shutdown can close the channel under it
	roots := c.typeMethods("", wpT, true)
	if f := c.NeedF("", "NewWorkerPool"); f != nil {
		roots = append(roots, f)
	}
	c.runLocks("", roots, lockRules{
		Guards: []guard{
			{Field: wpT + ".closed", Lock: wpT + ".shutdownMu"},
			{Field: wpT + ".workers", Lock: wpT + ".resizeMu"},
		},
		NoCallback: true, NoBlock: false,
		Exempt: func(f *ssa.Function) bool { return !c.ofPool(f) },
		Extra: func(p *Path, e *Event) {
			if e.Kind == "call" && e.Name == "sync.(*WaitGroup).Wait" && p.HeldAny() != "" {
				c.Fail("Shutdown: waits without a lock", e.Pos(), p.Trace(), "it waits for the jobs while holding %s, which a job that enqueues another needs", p.HeldAny())
			}
		},
	})
	c.poolEnqueue()
	c.poolShutdown()
	workers := map[*ssa.Function]bool{}
	c.poolResize(workers)
	c.poolNew(workers)
	c.Check("workers found", len(workers) > 0, 0, "no goroutine takes jobs")
	for _, f := range c.P.Funcs {
		if workers[f] {
			c.poolWorker(f)
		}
	}
	if f := c.NeedM("", wpT, "Errors"); f != nil {
		k := "Errors: the channel the workers report to"
		c.Oblige(k)
		x := newEngine(c.P, f)
		for _, o := range c.Explore(x, nil) {
			if !o.Res[0].unbox().isLoadOf(wpT + ".errorChan") {
				c.Fail(k, f.Pos(), o.Path.Trace(), "it returns %s", short(o.Res[0]))
			}
		}
	}
	// nobody else sends on, closes or replaces the channels
	k := "channels: used by the pool only"
	c.Oblige(k)
	for _, f := range c.P.Funcs {
		if c.ofPool(f) {
			continue
		}
		for _, fl := range []string{"jobs", "quit", "errorChan", "wg", "closed", "workers"} {
			eachFieldAddr(f, wpT+"."+fl, func(fa *ssa.FieldAddr) {
				c.Fail(k, fa.Pos(), "", "%s uses the pool's %s", f.Name(), fl)
			})
		}
	}
}

// ofPool: a method of the pool, its constructor, or a closure of one.
func (c *Ctx) ofPool(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil || f.Pkg != c.P.pkg("") {
		return false
	}
	s := f.Signature
	if s.Recv() != nil {
		return strings.HasSuffix(typeStr(derefT(s.Recv().Type())), wpT)
	}
	for i := 0; i < s.Results().Len(); i++ {
		if strings.HasSuffix(typeStr(derefT(s.Results().At(i).Type())), wpT) {
			return true
		}
	}
	for i := 0; i < s.Params().Len(); i++ {
		if strings.HasSuffix(typeStr(derefT(s.Params().At(i).Type())), wpT) {
			return true
		}
	}
	return false
}

func isPoolLock(t *Term) bool { return t.op == "field" && t.name == wpT+".shutdownMu" }

// closedNow follows what is known of the closed flag in the current section.
func poolClosed(p *Path, e *Event) {
	switch e.Kind {
	case "branch":
		if e.Val.isLoadOf(wpT+".closed") && p.HeldRW(isPoolLock) {
			if e.Truth {
				p.Set("closed")
			} else {
				p.Set("open")
			}
		}
	case "unlock":
		if isPoolLock(e.Addr) && !p.HeldRW(isPoolLock) {
			p.Clear("open")
		}
	}
}

func (c *Ctx) poolEnqueue() {
	f := c.NeedM("", wpT, "Enqueue")
	if f == nil {
		return
	}
	ks, kc, ka := "Enqueue: a job is handed over exactly once", "Enqueue: only while the pool is open", "Enqueue: announced before it is handed over"
	for _, k := range []string{ks, kc, ka} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	job := rootParam(f, 1)
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		poolClosed(p, e)
		switch e.Kind {
		case "go":
			fail(ks, "it starts a goroutine")
		case "precall":
			switch {
			case e.Name == "sync.(*WaitGroup).Add":
				n, ok := e.Args[1].intConst()
				if !ok || n != 1 || !e.Args[0].isFieldAddr(wpT+".wg") || p.Has("added") {
					fail(ka, "it announces %s", short(e.Args[1]))
				}
				if !p.Has("open") {
					fail(kc, "a job is announced without the pool being known to be open")
				}
				p.Set("added")
			case strings.HasPrefix(e.Name, "sync.(*WaitGroup)."):
				fail(ka, "it calls %s", e.Name)
			case strings.HasPrefix(e.Name, "dyn:"):
				fail(ks, "it runs the job itself")
			}
		case "send":
			if !e.Addr.isLoadOf(wpT+".jobs") || e.Val.key != job.key || p.Has("sent") {
				fail(ks, "it sends %s on %s", short(e.Val), short(e.Addr))
			}
			if !e.Blocking {
				fail(ks, "the job may be dropped although the pool is open")
			}
			if !p.Has("open") || !p.HeldRW(isPoolLock) {
				fail(kc, "the job is handed over without the pool being kept open")
			}
			if !p.Has("added") {
				fail(ka, "the job is handed over before it is announced")
			}
			p.Set("sent")
		case "recv", "close":
			fail(ks, "it does a %s on %s", e.Kind, short(e.Addr))
		case "return":
			if !p.Has("sent") && !p.Has("closed") {
				fail(ks, "a job is dropped although the pool is open")
			}
			if p.Has("added") && !p.Has("sent") {
				fail(ka, "a job is announced but not handed over")
			}
		}
	}
	c.Explore(x, nil)
}

func (c *Ctx) poolShutdown() {
	f := c.NeedM("", wpT, "Shutdown")
	if f == nil {
		return
	}
	kf, kj, kw, ke := "Shutdown: only the first one acts", "Shutdown: jobs stop while no job is being handed over", "Shutdown: waits for all jobs", "Shutdown: signals its workers and readers after the jobs are done"
	for _, k := range []string{kf, kj, kw, ke} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	held := func(p *Path) bool { return p.HeldW(isPoolLock) }
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		poolClosed(p, e)
		switch e.Kind {
		case "go":
			fail(kf, "it starts a goroutine")
		case "send", "recv":
			fail(kf, "it does a %s on %s", e.Kind, short(e.Addr))
		case "store":
			if !e.Addr.isFieldAddr(wpT + ".closed") {
				if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, wpT+".") {
					fail(kf, "it changes %s", e.Addr.name)
				}
				return
			}
			if !p.IsTrue(e.Val) {
				fail(kf, "the pool is marked %s", short(e.Val))
			}
			if p.Has("open") && held(p) {
				p.Set("mine")
			} else if !p.Has("closed") {
				fail(kf, "the pool is marked closed without looking whether it already is")
			}
			p.Set("marked")
		case "close":
			n := ""
			for _, ch := range []string{"jobs", "quit", "errorChan"} {
				if e.Addr.isLoadOf(wpT + "." + ch) {
					n = ch
				}
			}
			if n == "" || p.Has("shut "+n) {
				fail(kf, "it closes %s", short(e.Addr))
			}
			p.Set("shut " + n)
			if !p.Has("mine") && !p.Has("open") {
				fail(kf, "a channel is closed although an earlier shutdown may have closed it")
			}
			switch n {
			case "jobs":
				if !held(p) {
					fail(kj, "the job channel is closed while a job may be being handed over")
				}
				p.Set("in")
			default:
				if !p.Has("waited") {
					fail(ke, "%s is closed before the jobs are done", n)
				}
			}
		case "unlock":
			if isPoolLock(e.Addr) && p.Has("mine") != p.Has("shut jobs") {
				fail(kj, "the lock is released between marking the pool closed and closing the job channel")
			}
		case "precall":
			if e.Name == "sync.(*WaitGroup).Wait" {
				if !e.Args[0].isFieldAddr(wpT+".wg") || !p.Has("shut jobs") {
					fail(kw, "it waits before no more jobs can come")
				}
				p.Set("waited")
			} else if strings.HasPrefix(e.Name, "sync.(*WaitGroup).") {
				fail(kw, "it calls %s", e.Name)
			}
		case "return":
			if p.Has("mine") {
				if !p.Has("waited") {
					fail(kw, "it returns before the jobs are done")
				}
				if !p.Has("shut quit") || !p.Has("shut errorChan") {
					fail(ke, "it returns without closing the channels")
				}
			} else if !p.Has("closed") {
				fail(kf, "it returns without shutting down")
			}
		}
	}
	c.Explore(x, nil)
}

// isWorkerGo: the goroutine started at e runs on the same pool.
func (c *Ctx) isWorkerGo(x *Engine, e *Event, workers map[*ssa.Function]bool) bool {
	t := e.Args[0]
	if t.op != "fn" && t.op != "closure" || t.fn == nil || !c.ofPool(t.fn) {
		return false
	}
	workers[t.fn] = true
	return true
}

func (c *Ctx) poolResize(workers map[*ssa.Function]bool) {
	f := c.NeedM("", wpT, "Resize")
	if f == nil {
		return
	}
	kn, kc, kw := "Resize: as many workers start or stop as the sizes differ", "Resize: nothing for a negative size or a closed pool", "Resize: the new size is recorded"
	for _, k := range []string{kn, kc, kw} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	size := rootParam(f, 1)
	dir := func(p *Path, n *Term) string {
		old := p.Vars["old"]
		if old == nil {
			return ""
		}
		switch {
		case linSame(n, linSub(size, old)):
			return "more"
		case linSame(n, linSub(old, size)):
			return "less"
		}
		return ""
	}
	loop := &counted{tag: "t", over: func(p *Path, n *Term) bool {
		d := dir(p, n)
		if d == "" {
			return false
		}
		p.Clear("dir more")
		p.Clear("dir less")
		p.Set("dir " + d)
		return true
	}, end: func(p *Path, e *Event) {
		if !p.Has("t/did") {
			c.Fail(kn, e.Pos(), p.Trace(), "a worker is left out")
		}
	}}
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		poolClosed(p, e)
		if loop.step(p, e) && p.Has("t.all") {
			for _, d := range []string{"more", "less"} {
				if p.Has("dir " + d) {
					p.Set("all " + d)
				}
			}
		}
		act := func(want, what string) {
			if !p.Has("open") {
				fail(kc, "%s without the pool being kept open", what)
			}
			if !p.Has("t") || !p.Has("dir "+want) || p.Has("t/did") {
				fail(kn, "%s more or less often than the sizes differ", what)
			}
			p.Set("t/did")
			p.Set("acted")
		}
		switch e.Kind {
		case "load":
			if e.Addr.isFieldAddr(wpT+".workers") && !p.Has("stored") && p.Vars["old"] == nil {
				p.Vars["old"] = x.fieldByName(p, e.Addr.args[0], "workers")
			}
		case "store":
			if e.Addr.isFieldAddr(wpT + ".workers") {
				if e.Val.key != size.key {
					fail(kw, "the size recorded is %s", short(e.Val))
				}
				if p.Decide(lt(size, tInt(0))) != no || !p.Has("open") {
					fail(kc, "the size is recorded although it may be negative or the pool closed")
				}
				p.Set("stored")
			}
		case "go":
			if !c.isWorkerGo(x, e, workers) {
				fail(kn, "it starts %s", short(e.Args[0]))
			}
			act("more", "a worker is started")
		case "send":
			if !e.Addr.isLoadOf(wpT+".quit") || !e.Blocking {
				fail(kn, "it sends on %s", short(e.Addr))
			}
			act("less", "a worker is stopped")
		case "close", "recv":
			fail(kc, "it does a %s on %s", e.Kind, short(e.Addr))
		case "precall":
			if strings.HasPrefix(e.Name, "sync.(*WaitGroup).") {
				fail(kn, "it calls %s", e.Name)
			}
		case "return":
			old := p.Vars["old"]
			same := old != nil && (p.IsTrue(eq(size, old)) || p.isSame(size, old))
			neg := p.Decide(lt(size, tInt(0))) == yes
			switch {
			case p.Has("closed") || neg || same:
				if p.Has("acted") {
					fail(kc, "it starts or stops workers although it should not")
				}
			default:
				if !p.Has("stored") {
					fail(kw, "the new size is not recorded")
				}
				s, known := 0, false
				if old != nil {
					s, known = p.diff(linSub(size, old))
				}
				if !p.Has("all more") && !(known && s <= 0) || !p.Has("all less") && !(known && s >= 0) {
					fail(kn, "it returns without having started or stopped workers")
				}
			}
		}
	}
	c.Explore(x, nil)
}

// isSame: the path knows a and b to be the same number.
func (p *Path) isSame(a, b *Term) bool {
	s, ok := p.diff(linSub(a, b))
	return ok && s == 0
}

// diff: the sign of a difference, in whichever form the program computed it.
func (p *Path) diff(n *Term) (int, bool) {
	for _, d := range p.doms {
		t := d.t
		if t == nil || t.typ == nil || !isIntT(t.typ) {
			continue
		}
		s := 0
		switch {
		case linSame(t, n):
			s = 1
		case linSame(mk(&Term{op: "neg", args: []*Term{t}, typ: t.typ}), n):
			s = -1
		default:
			continue
		}
		lo, hi := p.interval(t)
		switch {
		case lo != nil && hi != nil && *lo == 0 && *hi == 0:
			return 0, true
		case lo != nil && *lo > 0:
			return s, true
		case hi != nil && *hi < 0:
			return -s, true
		}
	}
	return 0, false
}

func (c *Ctx) poolNew(workers map[*ssa.Function]bool) {
	f := c.NeedF("", "NewWorkerPool")
	if f == nil {
		return
	}
	kn, kf := "NewWorkerPool: starts as many workers as asked for", "NewWorkerPool: an open pool of that size with its own channels"
	c.Oblige(kn)
	c.Oblige(kf)
	x := newEngine(c.P, f)
	size := rootParam(f, 0)
	loop := &counted{tag: "t", over: func(p *Path, n *Term) bool { return linSame(n, size) }, end: func(p *Path, e *Event) {
		if !p.Has("t/did") {
			c.Fail(kn, e.Pos(), p.Trace(), "a worker is left out")
		}
	}}
	x.OnEvent = func(p *Path, e *Event) {
		loop.step(p, e)
		switch e.Kind {
		case "go":
			if !c.isWorkerGo(x, e, workers) || !p.Has("t") || p.Has("t/did") {
				c.Fail(kn, e.Pos(), p.Trace(), "it starts %s", short(e.Args[0]))
			}
			for _, ch := range []string{"jobs", "quit", "errorChan"} {
				if !p.Has("has " + ch) {
					c.Fail(kf, e.Pos(), p.Trace(), "a worker starts before the pool has its %s channel", ch)
				}
			}
			p.Set("t/did")
		case "store":
			if e.Addr.isFieldAddr(wpT+".workers") && e.Val.key != size.key {
				c.Fail(kf, e.Pos(), p.Trace(), "the size recorded is %s", short(e.Val))
			}
			if e.Addr.isFieldAddr(wpT + ".workers") {
				p.Set("sized")
			}
			if e.Addr.isFieldAddr(wpT+".closed") && !p.IsFalse(e.Val) {
				c.Fail(kf, e.Pos(), p.Trace(), "a new pool is closed")
			}
			if e.Addr.op == "field" && strings.HasPrefix(e.Addr.name, wpT+".") {
				n := strings.TrimPrefix(e.Addr.name, wpT+".")
				if e.Val.op == "makechan" {
					for _, ch := range []string{"jobs", "quit", "errorChan"} {
						if p.Has("is " + ch + " " + e.Val.key) {
							c.Fail(kf, e.Pos(), p.Trace(), "%s and %s are one channel", n, ch)
						}
					}
					p.Set("has " + n)
					p.Set("is " + n + " " + e.Val.key)
				}
			}
		case "send", "close", "recv":
			c.Fail(kf, e.Pos(), p.Trace(), "it does a %s on %s", e.Kind, short(e.Addr))
		}
	}
	for _, o := range c.Explore(x, nil) {
		if !o.Path.Has("t.all") {
			c.Fail(kn, f.Pos(), o.Path.Trace(), "it returns without having started all workers")
		}
		r := o.Res[0]
		if r.op != "alloc" {
			c.Fail(kf, f.Pos(), o.Path.Trace(), "it returns %s", short(r))
			continue
		}
		if !o.Path.Has("sized") {
			c.Fail(kf, f.Pos(), o.Path.Trace(), "the size is not recorded")
		}
		for _, ch := range []string{"jobs", "quit", "errorChan"} {
			if !o.Path.Has("has " + ch) {
				c.Fail(kf, f.Pos(), o.Path.Trace(), "the pool has no %s channel", ch)
			}
		}
	}
}

func (c *Ctx) poolWorker(f *ssa.Function) {
	n := "worker " + f.Name() + ": "
	kr, kd, ke, kl := n+"each job runs exactly once", n+"each job is reported done once, after it ran", n+"an error is offered once, without waiting, before the job is done", n+"runs on until told to stop"
	for _, k := range []string{kr, kd, ke, kl} {
		c.Oblige(k)
	}
	x := newEngine(c.P, f)
	x.OnEvent = func(p *Path, e *Event) {
		fail := func(k, m string, a ...any) { c.Fail(k, e.Pos(), p.Trace(), m, a...) }
		settled := func() {
			if p.Has("have") {
				if !p.Has("ran") {
					fail(kr, "a job is taken and not run")
				}
				if !p.Has("done") {
					fail(kd, "a job is not reported done")
				}
			}
		}
		switch e.Kind {
		case "recv":
			settled()
			if p.Has("over") {
				fail(kl, "it goes on after having been told to stop")
			}
			for _, fl := range []string{"have", "ran", "done", "offered", "over"} {
				p.Clear(fl)
			}
			delete(p.Vars, "job")
			delete(p.Vars, "err")
			switch {
			case e.Addr.isLoadOf(wpT + ".jobs"):
				p.Set("have")
				if e.Res != nil {
					p.Vars["ok"] = e.Res
				}
			case e.Addr.isLoadOf(wpT + ".quit"):
				p.Set("over")
			default:
				fail(kl, "it receives from %s", short(e.Addr))
			}
		case "branch":
			if e.Val.op == "recvok" && !e.Truth && p.Has("have") && !p.Has("ran") {
				p.Clear("have")
				p.Set("over")
			}
			if r := p.Vars["err"]; r != nil {
				if isCmp(e.Val, "==") && (e.Val.args[0].key == r.key && e.Val.args[1].isNil()) {
					if !e.Truth {
						p.Set("bad")
					} else {
						p.Clear("bad")
						p.Set("offered")
					}
				}
			}
		case "precall":
			switch {
			case strings.HasPrefix(e.Name, "dyn:recvval("):
				if !p.Has("have") || p.Has("ran") || p.Has("done") {
					fail(kr, "a job runs twice or without one having been taken")
				}
				if ok := p.Vars["ok"]; ok == nil || p.Decide(ok) != yes {
					fail(kr, "a job runs although the channel may be closed and have none")
				}
				p.Set("ran")
			case e.Name == "sync.(*WaitGroup).Done" || e.Name == "sync.(*WaitGroup).Add":
				if e.Name == "sync.(*WaitGroup).Add" {
					if m, ok := e.Args[1].intConst(); !ok || m != -1 {
						fail(kd, "it announces %s", short(e.Args[1]))
					}
				}
				if !p.Has("ran") || p.Has("done") || !e.Args[0].isFieldAddr(wpT+".wg") {
					fail(kd, "a job is reported done twice or before it ran")
				}
				if !p.Has("offered") {
					fail(ke, "the job is reported done before its error is offered")
				}
				p.Set("done")
			case strings.HasPrefix(e.Name, "sync.(*WaitGroup)."):
				fail(kd, "it calls %s", e.Name)
			case strings.HasPrefix(e.Name, "dyn:"):
				fail(kr, "it runs %s", strings.TrimPrefix(e.Name, "dyn:"))
			}
		case "call":
			if strings.HasPrefix(e.Name, "dyn:recvval(") && e.Res != nil {
				p.Vars["err"] = e.Res
				if e.Res.op == "const" {
					p.Set("offered")
				}
			}
		case "send":
			r := p.Vars["err"]
			if !e.Addr.isLoadOf(wpT+".errorChan") || r == nil || e.Val.key != r.key || p.Has("sent "+e.Val.key) && p.Has("offered") {
				fail(ke, "it sends %s on %s", short(e.Val), short(e.Addr))
			}
			if r != nil && p.Decide(mkEq(r, tNil)) != no {
				fail(ke, "it reports an error that may be nil")
			}
			if e.Blocking {
				fail(ke, "a worker may block on the error channel, so that a shutdown nobody reads errors of never ends")
			}
			p.Set("offered")
		case "seldefault":
			p.Set("offered")
		case "close", "go":
			fail(kl, "it does a %s", e.Kind)
		case "panic":
			fail(kl, "it panics")
		case "return":
			settled()
			if !p.Has("over") {
				fail(kl, "it ends without having been told to")
			}
		}
	}
	c.Explore(x, nil)
}
