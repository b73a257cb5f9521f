// Package zgzip replaces compress/gzip in the rewritten sources: the real decoder
// with the simulator's read faults in front of the consumer.
package zgzip

import (
	"compress/gzip"
	"io"

	"github.com/nyaruka/phonenumbers/v2/internal/zzsim"
)

const (
	NoCompression      = gzip.NoCompression
	BestSpeed          = gzip.BestSpeed
	BestCompression    = gzip.BestCompression
	DefaultCompression = gzip.DefaultCompression
	HuffmanOnly        = gzip.HuffmanOnly
)

var (
	ErrChecksum = gzip.ErrChecksum
	ErrHeader   = gzip.ErrHeader
)

type (
	Header = gzip.Header
	Writer = gzip.Writer
)

var (
	NewWriter      = gzip.NewWriter
	NewWriterLevel = gzip.NewWriterLevel
)

// Reader is gzip.Reader with faults.
type Reader struct {
	*gzip.Reader
	off int
}

func NewReader(r io.Reader) (*Reader, error) {
	if err := zzsim.StreamFault(-1); err != nil {
		return nil, err
	}
	g, err := gzip.NewReader(r)
	if err != nil {
		return nil, err
	}
	return &Reader{Reader: g}, nil
}

func (r *Reader) Reset(x io.Reader) error {
	if r.Reader == nil {
		r.Reader = new(gzip.Reader)
	}
	r.off = 0
	return r.Reader.Reset(x)
}

func (r *Reader) Read(p []byte) (int, error) {
	if err := zzsim.StreamFault(r.off); err != nil {
		return 0, err
	}
	n := len(p)
	if n > 1 && zzsim.ShortReads() {
		switch zzsim.FaultN(4) {
		case 0:
			n = 1
		case 1:
			n = 1 + zzsim.FaultN(min(n, 16))
		default:
			n = 1 + zzsim.FaultN(n)
		}
	}
	m, err := r.Reader.Read(p[:n])
	r.off += m
	return m, err
}
