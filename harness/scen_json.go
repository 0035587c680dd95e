package main

import (
	"encoding/json"
	"fmt"
	"io"

	crossplane "github.com/nginxinc/nginx-go-crossplane"
	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

// jPayload is a payload as a program in another language sees it: errors are whatever they are written as.
type jPayload struct {
	Status string `json:"status"`
	Errors []struct {
		File     string          `json:"file"`
		Line     *int            `json:"line"`
		Error    json.RawMessage `json:"error"`
		Callback interface{}     `json:"callback"`
	} `json:"errors"`
	Config []struct {
		File   string `json:"file"`
		Status string `json:"status"`
		Errors []struct {
			Line  *int            `json:"line"`
			Error json.RawMessage `json:"error"`
		} `json:"errors"`
		Parsed crossplane.Directives `json:"parsed"`
	} `json:"config"`
}

// jsonText is what is known about an error's form in JSON: a parse error is its message.
func jsonText(err error) string {
	if pe, ok := err.(*crossplane.ParseError); ok {
		return pe.Error()
	}
	return "?"
}

func rawText(raw json.RawMessage, known string) string {
	if known == "?" {
		return "?"
	}
	var s string
	if json.Unmarshal(raw, &s) != nil {
		return "not a string: " + string(raw)
	}
	return s
}

// handDump describes everything a payload says; q, if not nil, is the payload as read and p only tells which errors are
// known by their text.
func handDump(p *crossplane.Payload, q *jPayload) string {
	d := &dumper{}
	if q == nil {
		d.p("payload %q, %d errors, %d configs", p.Status, len(p.Errors), len(p.Config))
		for _, e := range p.Errors {
			c := "-"
			if e.Callback != nil {
				c = fmt.Sprint(e.Callback)
			}
			d.p("payload error %q:%s callback=%s %q", e.File, lineStr(e.Line), c, jsonText(e.Error))
		}
		for i, c := range p.Config {
			d.p("config %d %q %q", i, c.File, c.Status)
			for _, e := range c.Errors {
				d.p("  error line %s %q", lineStr(e.Line), jsonText(e.Error))
			}
			d.dirs(c.Parsed, "  ")
		}
		return d.sb.String()
	}
	d.p("payload %q, %d errors, %d configs", q.Status, len(q.Errors), len(q.Config))
	for i, e := range q.Errors {
		known := "?"
		if i < len(p.Errors) {
			known = jsonText(p.Errors[i].Error)
		}
		c := "-"
		if e.Callback != nil {
			c = fmt.Sprint(e.Callback)
		}
		d.p("payload error %q:%s callback=%s %q", e.File, lineStr(e.Line), c, rawText(e.Error, known))
	}
	for i, c := range q.Config {
		d.p("config %d %q %q", i, c.File, c.Status)
		for k, e := range c.Errors {
			known := "?"
			if i < len(p.Config) && k < len(p.Config[i].Errors) {
				known = jsonText(p.Config[i].Errors[k].Error)
			}
			d.p("  error line %s %q", lineStr(e.Line), rawText(e.Error, known))
		}
		d.dirs(c.Parsed, "  ")
	}
	return d.sb.String()
}

func numErrors(p *crossplane.Payload) int {
	n := len(p.Errors)
	for _, c := range p.Config {
		n += len(c.Errors)
	}
	return n
}

// C20: a payload that one process stores as JSON is the same payload in the next one.
func scenC20(r *R) {
	const state = "/var/lib/agent/state.json"
	r.FS.PutDir("/var/lib/agent")
	var pl *crossplane.Payload
	var call *pcall
	switch r.Src.Draw(4) {
	case 0:
		pl = genPayload(r, 4, true, true)
	case 1:
		pl = genIncludePayload(r)
	default:
		w := genWorld(r, wcfg{files: 4, budget: 8, comments: 20, unknown: 12, invalid: []int{0, 12}[r.Src.Draw(2)], fancy: 40, incRate: 4, depth: 4, cycles: 5})
		if r.Src.Draw(3) == 2 {
			f := w.paths[r.Src.Draw(len(w.paths))]
			w.openFault(r, f)
		}
		w.deliver(r)
		w.install(r)
		o := genOpts(r, w.exts)
		o.combine = r.Src.Draw(4) == 3
		genCap(r)
		r.describeCall(w.main, o, 0)
		call = newCall(r, w.main, o)
	}
	if pl != nil {
		r.Desc("payload made by hand:\n%s", clip(dumpReal(pl, nil), 3000))
	}
	bo := genBuildOpts(r)

	// process A stores the payload; it may be interrupted, and then starts over
	var fs []*fault
	for k := r.Src.DrawW(3, 3, 1); k > 0; k-- {
		f := &fault{op: []string{"write", "create", "close"}[r.Src.DrawW(3, 1, 1)], nth: r.Src.Draw(2), n: r.Src.Draw(600)}
		if r.Src.Draw(2) == 1 {
			f.crash = 1 + r.Src.Draw(2)
			r.Desc("the process that stores it dies at %s number %d (a write gets %d bytes through)", f.op, f.nth, f.n)
		} else {
			f.err = diskErr(r)
			r.Desc("storing it: %s number %d fails with %v after %d bytes", f.op, f.nth, f.err, f.n)
		}
		fs = append(fs, f)
	}
	piece := []int{1 << 20, 512, 7}[r.Src.DrawW(3, 2, 1)]
	readFail := r.Src.Draw(5) == 4
	failAt := r.Src.Draw(600)
	modes := []int{r.Src.Draw(6), r.Src.Draw(6)}

	var data []byte
	var merr error
	var partial []string
	stored := false
	var q jPayload
	var qerr, perr2 error
	var p2 crossplane.Payload
	var c1, c2 *crossplane.Payload
	var e1, e2 error
	failedRead, tookBroken := false, false
	r.MaxSteps = 100000000
	r.Exec(func() {
		if call != nil {
			call.run()
			if pl = call.pl; sim.Killed() || call.err != nil || pl == nil {
				return
			}
		}
		for try := 0; try <= len(fs) && !stored; try++ {
			tag := 10 + try
			armOps(r, tag, nil)
			if try < len(fs) {
				armOps(r, tag, fs[try:try+1])
			}
			sim.Join(sim.GoNamed("store", tag, func() {
				if data, merr = json.Marshal(pl); merr != nil {
					return
				}
				h, err := r.FS.OpenFile("create", state, 0x242, 0o644) // O_RDWR|O_CREAT|O_TRUNC
				if err != nil {
					return
				}
				if len(data)/piece > 3000 {
					piece = len(data) / 3000
				}
				for off := 0; off < len(data); off += piece {
					end := off + piece
					if end > len(data) {
						end = len(data)
					}
					if _, err := h.Write(data[off:end]); err != nil {
						_ = h.Close()
						return
					}
				}
				stored = h.Close() == nil && !sim.Killed()
			}))
			if !stored {
				if t, ok := r.FS.Get(state); ok {
					partial = append(partial, t)
				}
			}
		}
		r.FS.Hook = nil
		if !stored {
			return
		}
		// process B reads it, in whatever pieces it arrives
		n := 0
		r.FS.OnOpen = func(h *sim.Handle) {
			h.D.Mode = modes[n&1]
			if readFail && n == 0 && failAt < len(data) {
				h.D.FailAt, h.D.Err = failAt, errRead
			}
			n++
		}
		read := func(into interface{}) error {
			h, err := r.FS.Open(state)
			if err != nil {
				return err
			}
			defer h.Close()
			dec := json.NewDecoder(h)
			if err := dec.Decode(into); err != nil {
				return err
			}
			if _, err := dec.Token(); err != io.EOF {
				return fmt.Errorf("more than one value")
			}
			return nil
		}
		if readFail && failAt < len(data) {
			var x jPayload
			failedRead = true
			tookBroken = read(&x) == nil
		}
		qerr = read(&q)
		if numErrors(pl) == 0 {
			if perr2 = read(&p2); perr2 == nil && expansion(pl, 2000) <= 2000 {
				c1, e1 = pl.Combined()
				c2, e2 = p2.Combined()
			}
		}
	})
	if r.S.Outcome != sim.OutOK || pl == nil || call != nil && (!call.done || call.err != nil) {
		return
	}
	r.Nontriv = len(pl.Config) > 0
	r.Evals++
	if merr != nil {
		r.Fail("cannot-marshal", "json.Marshal: %v", merr)
		return
	}
	if !stored {
		r.Unsound = "the payload could not be stored"
		return
	}
	for _, t := range partial {
		var x jPayload
		if t != string(data) && json.Unmarshal([]byte(t), &x) == nil {
			r.Fail("partial", "%d of %d stored bytes are taken for a payload", len(t), len(data))
			return
		}
	}
	if failedRead && tookBroken {
		r.Fail("partial", "reading failed after %d bytes, but the payload is taken for complete", failAt)
		return
	}
	if qerr != nil {
		r.Fail("cannot-load", "the stored payload cannot be loaded: %v", qerr)
		return
	}
	if d := firstDiff(handDump(pl, nil), handDump(pl, &q)); d != "" {
		r.Fail("changed", "%s\nstored: %s", d, clip(string(data), 3000))
		return
	}
	if numErrors(pl) > 0 {
		return
	}
	if perr2 != nil {
		r.Fail("cannot-load", "the stored payload cannot be loaded: %v", perr2)
		return
	}
	if d := firstDiff(handDump(pl, nil), handDump(&p2, nil)); d != "" {
		r.Fail("changed", "%s\nstored: %s", d, clip(string(data), 3000))
		return
	}
	// what can be done with it has the same results
	for i := range pl.Config {
		if d := firstDiff(textOf(pl.Config[i], bo), textOf(p2.Config[i], bo)); d != "" {
			r.Fail("builds-differently", "config %d: %s", i, d)
			return
		}
	}
	if d := firstDiff(fullDump(c1, e1), fullDump(c2, e2)); d != "" {
		r.Fail("combines-differently", "%s", d)
	}
}
