package codecdrv

import (
	"bytes"
	"math/rand"
	"time"

	"verifharness/common"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

// pairs is a Header that keeps its order and may hold a key twice
type pairs []header

func (p pairs) Get(key string) (string, bool) {
	for _, h := range p {
		if h.K == key {
			return h.V, true
		}
	}
	return "", false
}

func (p pairs) Range(fn func(key, value string)) {
	for _, h := range p {
		fn(h.K, h.V)
	}
}

var blobLens = []int{0, 1, 2, 5, 10, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256}

func nullable(rng *rand.Rand, big bool) []byte {
	switch rng.Intn(5) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	if big {
		return blob([]int{8191, 8192, 8193, 20000}[rng.Intn(4)], rng)
	}
	return blob(blobLens[rng.Intn(len(blobLens))], rng)
}

func text(rng *rand.Rand) string { return string(blob(blobLens[rng.Intn(len(blobLens))], rng)) }

// longText is text that may need a three-byte length
func longText(rng *rand.Rand, big bool) string {
	if big && rng.Intn(3) == 0 {
		return string(blob([]int{8190, 8191, 8192, 8193, 9000}[rng.Intn(5)], rng))
	}
	return text(rng)
}

// near gives an int64 around base whose distance needs varints of all lengths
func near(base int64, rng *rand.Rand) int64 {
	switch rng.Intn(6) {
	case 0:
		return base
	case 1:
		return base + int64(rng.Intn(200)-100)
	case 2, 3:
		d := int64(1)<<uint(7*(1+rng.Intn(9))-1) + int64(rng.Intn(3)-1)
		if rng.Intn(2) == 0 {
			d = -d
		}
		return base + d
	case 4:
		return integer(64, rng)
	}
	return base + int64(rng.Int31())
}

func batch(s scenario) obj {
	rng := rand.New(rand.NewSource(s.Seed))
	b := kafka.RecordBatch{
		BaseOffset: integer(64, rng), BatchLength: int32(integer(32, rng)), PartitionLeaderEpoch: int32(integer(32, rng)), Magic: int8(integer(8, rng)),
		CRC: int32(integer(32, rng)), Attributes: int16(integer(16, rng)), LastOffsetDelta: int32(integer(32, rng)), FirstTimestamp: integer(64, rng),
		MaxTimestamp: integer(64, rng), ProducerId: integer(64, rng), ProducerEpoch: int16(integer(16, rng)), BaseSequence: int32(integer(32, rng)),
	}
	switch rng.Intn(3) {
	case 0:
		b.FirstTimestamp = time.Now().UnixMilli() + int64(rng.Int31())
		b.BaseOffset = int64(rng.Int31())
	case 1:
		b.FirstTimestamp, b.BaseOffset = int64(rng.Intn(3)-1), int64(rng.Intn(2))
	}
	n := []int{0, 1, 1, 1, 2, 3, 5}[rng.Intn(7)]
	if s.Prof == 1 {
		n = []int{63, 64, 65, 127, 128, 129, 300}[rng.Intn(7)]
	}
	if s.Prof == 3 { // very many records
		n = []int{513, 1001, 1025, 2049, 4097}[rng.Intn(5)]
	} else if s.Prof == 4 { // one very long key, value or header
		n = 1 + rng.Intn(3)
	}
	recs := []obj{}
	for i := 0; i < n; i++ {
		ms := near(b.FirstTimestamp, rng)
		m := kafka.Message{Topic: text(rng), Partition: int32(integer(32, rng)), Offset: near(b.BaseOffset, rng), Timestamp: time.UnixMilli(ms)}
		if rng.Intn(2) == 0 {
			m.Timestamp = m.Timestamp.Add(time.Duration(rng.Intn(1000000)))
		}
		if rng.Intn(3) == 0 {
			m.Timestamp = m.Timestamp.In(time.FixedZone("x", rng.Intn(80000)-40000))
		}
		if rng.Intn(12) == 0 {
			m.Timestamp = time.Time{}
			ms = m.Timestamp.UnixMilli()
		}
		if s.Prof != 1 && s.Prof != 3 {
			m.Key, m.Value = nullable(rng, s.Prof == 2 && rng.Intn(3) == 0), nullable(rng, s.Prof == 2 && rng.Intn(3) == 0)
		} else if rng.Intn(10) == 0 {
			m.Key, m.Value = nullable(rng, false), nullable(rng, false)
		}
		hdr, isMap := []obj{}, false
		switch k := rng.Intn(6); {
		case k == 0 || s.Prof == 1 && rng.Intn(8) != 0 || s.Prof == 3 && rng.Intn(100) != 0:
		case k == 1:
			m.Header = kafka.MapHeader(nil)
		case k == 2:
			m.Header = kafka.MapHeader{}
		case k == 3:
			isMap = true
			h := kafka.MapHeader{}
			for j := rng.Intn(5); j > 0; j-- {
				h[longText(rng, s.Prof == 2)] = longText(rng, s.Prof == 2)
			}
			for k, v := range h {
				hdr = append(hdr, obj{"k": common.Ints([]byte(k)), "v": common.Ints([]byte(v))})
			}
			m.Header = h
		default:
			var h pairs
			c := rng.Intn(6)
			if rng.Intn(8) == 0 {
				c = []int{63, 64, 65, 128}[rng.Intn(4)]
			}
			for j := 0; j < c; j++ {
				e := header{longText(rng, s.Prof == 2), longText(rng, s.Prof == 2)}
				if c > 10 {
					e = header{"k", "v"}
				}
				h = append(h, e)
				hdr = append(hdr, obj{"k": common.Ints([]byte(e.K)), "v": common.Ints([]byte(e.V))})
			}
			m.Header = h
		}
		if s.Prof == 4 && i == n-1 {
			big := blob([]int{16384, 32767, 32768, 65535, 65536, 131072, 1048575, 1048576}[rng.Intn(8)], rng)
			switch rng.Intn(3) {
			case 0:
				m.Key = big
			case 1:
				m.Value = big
			default:
				m.Header, hdr, isMap = pairs{{"k", string(big)}}, []obj{{"k": common.Ints([]byte("k")), "v": common.Ints(big)}}, false
			}
		}
		b.Records = append(b.Records, m)
		recs = append(recs, obj{"off": limbs(m.Offset), "ts": limbs(ms), "key": obj{"z": m.Key == nil, "v": common.Ints(m.Key)},
			"val": obj{"z": m.Value == nil, "v": common.Ints(m.Value)}, "hdr": hdr, "map": isMap})
	}
	version := int16(rng.Intn(4))
	var buf bytes.Buffer
	e := message.NewEncoder(&buf)
	b.Encode(e, version)
	err := e.Flush()
	return obj{"kind": "batch", "enc": common.Ints(buf.Bytes()), "encok": err == nil, "size": b.Size(version), "x": obj{
		"BaseOffset": limbs(b.BaseOffset), "BatchLength": b.BatchLength, "PartitionLeaderEpoch": b.PartitionLeaderEpoch, "CRC": b.CRC, "Attributes": b.Attributes,
		"LastOffsetDelta": b.LastOffsetDelta, "FirstTimestamp": limbs(b.FirstTimestamp), "MaxTimestamp": limbs(b.MaxTimestamp), "ProducerId": limbs(b.ProducerId),
		"ProducerEpoch": b.ProducerEpoch, "BaseSequence": b.BaseSequence, "Records": recs}}
}
