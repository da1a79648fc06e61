// Package wire holds the driver's own, independent view of Kafka framing: parsing
// request frames and building response bodies by hand.
package wire

import (
	"encoding/binary"
	"fmt"
)

// Buf builds protocol bytes.
type Buf struct{ B []byte }

func (b *Buf) I8(v int8) *Buf   { b.B = append(b.B, byte(v)); return b }
func (b *Buf) I16(v int16) *Buf { b.B = binary.BigEndian.AppendUint16(b.B, uint16(v)); return b }
func (b *Buf) I32(v int32) *Buf { b.B = binary.BigEndian.AppendUint32(b.B, uint32(v)); return b }
func (b *Buf) I64(v int64) *Buf { b.B = binary.BigEndian.AppendUint64(b.B, uint64(v)); return b }
func (b *Buf) Str(s string) *Buf {
	b.I16(int16(len(s)))
	b.B = append(b.B, s...)
	return b
}
func (b *Buf) Bytes(s []byte) *Buf {
	b.I32(int32(len(s)))
	b.B = append(b.B, s...)
	return b
}

// Frame is a parsed request frame.
type Frame struct {
	Key, Version int16
	Corr         int32
	ClientID     string
	Body         []byte
}

// Parser cuts a request byte stream into frames.
type Parser struct {
	buf []byte
	Bad string // set once the stream cannot be a sequence of frames
}

// Tail is the number of bytes of an incomplete frame.
func (p *Parser) Tail() int { return len(p.buf) }

// Feed adds bytes and returns the frames completed by them.
func (p *Parser) Feed(b []byte) []Frame {
	p.buf = append(p.buf, b...)
	var out []Frame
	for p.Bad == "" && len(p.buf) >= 4 {
		n := int(int32(binary.BigEndian.Uint32(p.buf)))
		if n < 10 || n > 100<<20 {
			p.Bad = fmt.Sprintf("impossible frame length %d", n)
			break
		}
		if len(p.buf) < 4+n {
			break
		}
		f := p.buf[4 : 4+n]
		p.buf = append([]byte(nil), p.buf[4+n:]...)
		fr := Frame{
			Key:     int16(binary.BigEndian.Uint16(f)),
			Version: int16(binary.BigEndian.Uint16(f[2:])),
			Corr:    int32(binary.BigEndian.Uint32(f[4:])),
		}
		l := int(int16(binary.BigEndian.Uint16(f[8:])))
		f = f[10:]
		if l > len(f) {
			p.Bad = fmt.Sprintf("client id length %d", l)
			break
		}
		if l > 0 {
			fr.ClientID, f = string(f[:l]), f[l:]
		}
		fr.Body = f
		out = append(out, fr)
	}
	return out
}

// Response frames body for correlation id corr.
func Response(corr int32, body []byte) []byte {
	b := (&Buf{}).I32(int32(4 + len(body))).I32(corr)
	return append(b.B, body...)
}

// Range is an advertised api version range.
type Range struct{ Key, Min, Max int16 }

// ApiVersions is the body of an ApiVersions response at version v.
func ApiVersions(v int16, code int16, ranges []Range) []byte {
	b := (&Buf{}).I16(code).I32(int32(len(ranges)))
	for _, r := range ranges {
		b.I16(r.Key).I16(r.Min).I16(r.Max)
	}
	if v >= 1 {
		b.I32(0)
	}
	return b.B
}

// All advertises [0,0] for all 48 apis.
func All(min, max int16) []Range {
	var out []Range
	for k := int16(0); k < 48; k++ {
		out = append(out, Range{k, min, max})
	}
	return out
}
