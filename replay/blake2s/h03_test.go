package blake2s

import (
	"bytes"
	"hash"
	"testing"

	"github.com/blocktree/go-owcrypt/zzspec/blake2ss"
	"github.com/blocktree/go-owcrypt/zzspec/drives"
)

func TestVerifH03(t *testing.T) {
	r := drives.Rand()
	buf := make([]byte, 2000)
	r.Read(buf)
	for n := 0; n < 600; n++ {
		want := blake2ss.Sum(buf[:n], nil, blake2ss.Params{Size: 32, Fanout: 1, Depth: 1}, false)
		if got := Sum256(buf[:n]); !bytes.Equal(got[:], want) {
			t.Fatalf("FAILING-INPUT: Sum256(%x) = %x, want %x", buf[:n], got, want)
		}
	}
	for i := 0; i < 400; i++ {
		c := &Config{}
		p := blake2ss.Params{Size: 32, Fanout: 1, Depth: 1}
		if r.Intn(2) == 0 {
			c.Size = uint8(1 + r.Intn(32))
			p.Size = c.Size
		}
		var key []byte
		if r.Intn(2) == 0 {
			key = buf[100 : 101+r.Intn(32)]
			c.Key = append([]byte{}, key...)
			p.KeyLen = uint8(len(key))
		}
		if r.Intn(2) == 0 {
			c.Salt = append([]byte{}, buf[200:200+r.Intn(9)]...)
			copy(p.Salt[:], c.Salt)
		}
		if r.Intn(2) == 0 {
			c.Person = append([]byte{}, buf[300:300+r.Intn(9)]...)
			copy(p.Person[:], c.Person)
		}
		last := false
		if r.Intn(2) == 0 {
			tr := &Tree{uint8(r.Intn(256)), uint8(r.Intn(256)), r.Uint32(), r.Uint64() >> 16, uint8(r.Intn(256)), uint8(r.Intn(33)), r.Intn(2) == 0}
			c.Tree = tr
			p.Fanout, p.Depth, p.LeafLen, p.NodeOffset, p.NodeDepth, p.InnerLen = tr.Fanout, tr.MaxDepth, tr.LeafSize, tr.NodeOffset, tr.NodeDepth, tr.InnerHashSize
			last = tr.IsLastNode
		}
		mk := func() hash.Hash {
			h, err := New(c)
			if err != nil {
				t.Fatalf("FAILING-INPUT: New(%+v) fails: %v", c, err)
			}
			return h
		}
		if s := drives.Hash("blake2s.New", mk, func(m []byte) []byte { return blake2ss.Sum(m, key, p, last) }, 64, int(p.Size), 30); s != "" {
			t.Fatalf("%s (config %+v)", s, c)
		}
	}
	for n := 1; n <= 32; n++ {
		for k := 0; k <= 32; k++ {
			key := buf[:k]
			p := blake2ss.Params{Size: uint8(n), KeyLen: uint8(k), Fanout: 1, Depth: 1}
			h := NewMAC(uint8(n), key)
			h.Write(buf[:77])
			if got, want := h.Sum(nil), blake2ss.Sum(buf[:77], key, p, false); !bytes.Equal(got, want) {
				t.Fatalf("FAILING-INPUT: NewMAC(%d, %x) = %x want %x", n, key, got, want)
			}
		}
	}
	if s := drives.Hash("blake2s.New256", New256, func(m []byte) []byte {
		return blake2ss.Sum(m, nil, blake2ss.Params{Size: 32, Fanout: 1, Depth: 1}, false)
	}, 64, 32, 3000); s != "" {
		t.Fatal(s)
	}
	for _, c := range []*Config{{Size: 33}, {Key: make([]byte, 33)}, {Salt: make([]byte, 9)}, {Person: make([]byte, 9)}, {Tree: &Tree{InnerHashSize: 33}}, {Tree: &Tree{NodeOffset: 1 << 48}}} {
		if _, err := New(c); err == nil {
			t.Fatalf("FAILING-INPUT: New(%+v) accepted", c)
		}
	}
}
