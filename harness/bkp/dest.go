package bkp

import (
	"bytes"
	"context"
	"io"
	"net/http"

	"github.com/Vivino/rankdb"
	"github.com/Vivino/rankdb/backup"
	"github.com/Vivino/rankdb/backup/reader"
	"github.com/Vivino/rankdb/backup/s3"
	"github.com/Vivino/rankdb/backup/server"
	"github.com/Vivino/rankdb/vv"
	awss3 "github.com/aws/aws-sdk-go/service/s3"
	"github.com/aws/aws-sdk-go/service/s3/s3manager"
)

// peer is where a backup is sent to: it takes the first bytes or all, then accepts or refuses what it got.
type peer struct {
	take   int // bytes it reads, -1: all
	refuse int // 0: no, 1: fails, 2: answers with an error
	got    bytes.Buffer
	whole  bool
}

func drawPeer() *peer {
	p := &peer{take: -1}
	if vv.Choose("takes all", 2) == 0 {
		p.take = vv.Choose("takes", sz(3, 12)) * sz(7, 3)
	}
	p.refuse = vv.Choose("answer", 3)
	// A peer that accepts a backup has read it.
	vv.Assume(p.take < 0 || p.refuse > 0)
	return p
}

func (p *peer) receive(r io.Reader) error {
	if p.take >= 0 {
		_, err := io.CopyN(&p.got, r, int64(p.take))
		if err != nil && err != io.EOF {
			return err
		}
	} else {
		if _, err := io.Copy(&p.got, r); err != nil {
			return err
		}
		p.whole = true
	}
	if p.refuse == 1 {
		return errBroken
	}
	return nil
}

// Do is the other side of an HTTP request.
func (p *peer) Do(_ context.Context, req *http.Request) (*http.Response, error) {
	err := p.receive(req.Body)
	if err != nil {
		req.Body.Close()
		return nil, err
	}
	code := 200
	if p.refuse == 2 {
		code = 500
	}
	return &http.Response{StatusCode: code, Status: "status", Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(nil))}, nil
}

// The destination of a backup is another server, S3 or a stream, and takes the whole backup or its first bytes only, and
// accepts or refuses it: a job that reports no error has been accepted, and has not failed if it was accepted.
func VH_C14_remote() {
	m, _ := newManager()
	a, b := []rankdb.Element{elem("a0")}, []rankdb.Element{}
	addList(m, "la", "sa", a...)
	addList(m, "lb", "sb", b...)
	ref := &saver{room: -1}
	vv.Assert(len(run(m, ref, "la", "lb").Errors) == 0, "C14: a job fails for no reason")
	p := drawPeer()
	vv.Assume(p.take < ref.buf.Len())
	var dst backup.Saver
	var errCh chan error
	switch vv.Choose("destination", 3) {
	case 0:
		dst = server.VVNew(p, nil, nil)
		vv.Cover("server")
	case 1:
		s3manager.Put = func(_ context.Context, bucket, key string, body io.Reader) error {
			vv.Assert(bucket == "bucket" && key == "key", "C14: backup is sent to another place in S3")
			err := p.receive(body)
			if err == nil && p.refuse == 2 {
				err = errBroken
			}
			return err
		}
		f := s3.New("key", "bucket", nil)
		dst, errCh = f, f.ResultErr
		vv.Cover("s3")
	case 2:
		r := reader.NewReader()
		dst = r
		vv.Assume(p.refuse < 2 && (p.refuse == 0) == (p.take < 0))
		go func() {
			p.receive(r.Output())
			r.Output().Close()
		}()
		vv.Cover("stream")
	}
	live := vv.LiveGoroutines()
	id := backup.Request{DB: m, Dst: dst, Lists: rankdb.ListIDs{"la", "lb"}, ErrCh: errCh}.Start(ctx)
	stat := wait(id)
	for k, v := range stat.Errors {
		vv.Note(k + ": " + v)
	}
	vv.Drain()
	vv.Assert(vv.LiveGoroutines() <= live, "C14: a finished job leaves something running")
	if p.refuse > 0 {
		vv.Assert(len(stat.Errors) > 0, "C14: a job whose destination refused the backup reports no error")
		vv.Cover("refused")
		return
	}
	vv.Assert(len(stat.Errors) == 0 && len(stat.Success) == 2, "C14: a job whose destination accepted the backup reports errors")
	vv.Assert(p.whole, "C14: a job that is done has not sent everything")
	m2, _ := newManager()
	ri := backup.RestoreInfo{Source: backup.WrapReader{ReadCloser: io.NopCloser(bytes.NewReader(p.got.Bytes()))}, DB: m2}
	if dst, ok := dst.(backup.Loader); ok {
		awss3.Get = func(bucket, key string) (io.ReadCloser, error) {
			vv.Assert(bucket == "bucket" && key == "key", "C14: backup is loaded from another place in S3")
			return io.NopCloser(bytes.NewReader(p.got.Bytes())), nil
		}
		ri.Source = dst
	}
	res, err := ri.Restore(ctx)
	vv.Assert(err == nil && res.Restored == 2, "C14: restoring a backup failed")
	has(m2, "la", "sa", a, "C14: restored backup")
	has(m2, "lb", "sb", b, "C14: restored backup")
	vv.Cover("accepted")
}
