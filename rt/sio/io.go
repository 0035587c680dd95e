// Package io is the simulated io package of the instrumented build: the real one, except that pipes block in the
// simulator.
package io

import (
	real "io"
	"unsafe"

	sim "github.com/nginxinc/nginx-go-crossplane/internal/verifsim"
)

type pipe struct {
	wmu     bool // a write is in progress
	data    []byte
	has     bool
	q       sim.WaitQ
	rclosed bool
	wclosed bool
	rerr    error
	werr    error
	x       int64
}

func (p *pipe) sync() {
	sim.Point("pipe")
	sim.RaceAcquire(unsafe.Pointer(&p.x))
	sim.RaceRelease(unsafe.Pointer(&p.x))
}

// PipeReader is the reading end of a simulated pipe.
type PipeReader struct{ p *pipe }

// PipeWriter is the writing end of a simulated pipe.
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.sync()
	for !p.has && !p.rclosed && !p.wclosed {
		if sim.Killed() {
			return 0, real.ErrClosedPipe
		}
		p.q.Wait("pipe read")
		p.sync()
	}
	switch {
	case p.rclosed:
		return 0, real.ErrClosedPipe
	case p.has:
		n := copy(b, p.data)
		p.data = p.data[n:]
		if len(p.data) == 0 {
			p.has = false
			p.q.WakeAll()
		}
		return n, nil
	}
	return 0, p.werr
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = real.ErrClosedPipe
	}
	p := r.p
	p.sync()
	if !p.rclosed {
		p.rclosed, p.rerr = true, err
	}
	p.q.WakeAll()
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.sync()
	for p.wmu && !p.rclosed && !p.wclosed {
		if sim.Killed() {
			return 0, real.ErrClosedPipe
		}
		p.q.Wait("pipe write")
		p.sync()
	}
	if p.wclosed {
		return 0, real.ErrClosedPipe
	}
	if p.rclosed {
		return 0, p.rerr
	}
	p.wmu, p.has, p.data = true, true, b
	p.q.WakeAll()
	for p.has && !p.rclosed && !p.wclosed {
		if sim.Killed() {
			return 0, real.ErrClosedPipe
		}
		p.q.Wait("pipe write")
		p.sync()
	}
	left := 0
	if p.has {
		left = len(p.data)
	}
	p.wmu, p.has, p.data = false, false, nil
	p.q.WakeAll()
	if left > 0 || p.rclosed && left > 0 {
		if p.rclosed {
			return len(b) - left, p.rerr
		}
		return len(b) - left, real.ErrClosedPipe
	}
	return len(b), nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = real.EOF
	}
	p := w.p
	p.sync()
	if !p.wclosed {
		p.wclosed, p.werr = true, err
	}
	p.q.WakeAll()
	return nil
}
