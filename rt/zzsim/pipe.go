package zzsim

import "io"

// what io.Pipe is made of
type pipe struct {
	wr, mu     Mutex
	c          *Cond
	data       []byte
	has, done  bool
	rerr, werr error
}

// PipeReader replaces io.PipeReader.
type PipeReader struct{ p *pipe }

// PipeWriter replaces io.PipeWriter.
type PipeWriter struct{ p *pipe }

// IOPipe replaces io.Pipe.
func IOPipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.c = NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.done {
			if p.rerr == nil && p.werr != nil {
				return 0, p.werr
			}
			return 0, io.ErrClosedPipe
		}
		if p.has {
			n := copy(b, p.data)
			p.data = p.data[n:]
			p.has = false
			p.c.Broadcast()
			return n, nil
		}
		p.c.Wait()
	}
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rerr == nil {
		p.rerr = err
	}
	p.done = true
	p.c.Broadcast()
	return nil
}

func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	p.wr.Lock()
	defer p.wr.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		if !p.done {
			p.data, p.has = b, true
			p.c.Broadcast()
			for p.has && !p.done {
				p.c.Wait()
			}
			if !p.has { // taken
				m := len(b) - len(p.data)
				b = b[m:]
				n += m
				continue
			}
			p.has = false
		}
		if p.werr == nil && p.rerr != nil {
			return n, p.rerr
		}
		return n, io.ErrClosedPipe
	}
	return n, nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr == nil {
		p.werr = err
	}
	p.done = true
	p.c.Broadcast()
	return nil
}
