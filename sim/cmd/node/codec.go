//go:build simulated

package main

import (
	"bytes"
	"fmt"
	"net/netip"
	"runtime"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"

	"verifsim/plan"
	"verifsim/wire"
)

// kvSet writes an item with the library's writer.
func kvSet(w *encoding.KVWriter, kv wire.KV) error {
	switch v := kv.V; v.T {
	case wire.TNull:
		return w.SetNull(kv.K)
	case wire.TBool:
		return w.SetBool(kv.K, v.N != 0)
	case wire.TInt32:
		return w.SetInt32(kv.K, int32(v.N))
	case wire.TUint32:
		return w.SetUInt32(kv.K, uint32(v.N))
	case wire.TInt64:
		return w.SetInt64(kv.K, int64(v.N))
	case wire.TUint64:
		return w.SetUInt64(kv.K, v.N)
	case wire.TIPv4, wire.TIPv6:
		ip, _ := netip.AddrFromSlice(v.B)
		return w.SetAddr(kv.K, ip)
	case wire.TString:
		return w.SetString(kv.K, string(v.B))
	default:
		b := bytes.Clone(v.B)
		defer scribble(b)
		return w.SetBinary(kv.K, b)
	}
}

// scribble overwrites what a caller gets back from the library.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

// codec lets a handler encode and decode a list of its own, with writers and
// scanners from the pools the agent uses too.
func (w *spopWorld) codec(sm *smsg, x *plan.Codec) {
	c, n := sm.n.c, sm.n
	step := "acquiring"
	defer func() {
		if e := recover(); e != nil {
			w.fail("C21", "codec-panic", "connection %d: the handler of message %d of NOTIFY %d/%d panics while %s: %v", c.i, sm.idx, n.n.Stream, n.n.Frame, step, e)
		}
	}()
	fail := func(sig, f string, a ...any) {
		w.fail("C21", sig, "connection %d: own codec use in the handler of message %d of NOTIFY %d/%d: %s", c.i, sm.idx, n.n.Stream, n.n.Frame, fmt.Sprintf(f, a...))
	}
	pause := func() {
		if x.Ms > 0 {
			sleepMs(x.Ms)
		} else {
			runtime.SimYield(10)
		}
	}
	const guard = 0xa7
	all := bytes.Repeat([]byte{guard}, x.Off+x.Buf+48)
	buf := all[: x.Off+x.Buf : len(all)]
	var kw *encoding.KVWriter
	if x.New {
		kw = encoding.NewKVWriter(buf, x.Off)
	} else {
		kw = encoding.AcquireKVWriter(buf, x.Off)
	}
	w.probe("codec")
	w.hit("C21")
	want := bytes.Repeat([]byte{guard}, x.Off)
	var in []wire.KV
	for _, kv := range x.Items {
		step = "writing an item"
		next := wire.AppendKV(bytes.Clone(want), kv)
		bad := (kv.V.T == wire.TIPv4 || kv.V.T == wire.TIPv6) && len(kv.V.B) == 0
		fits := !bad && len(next) <= len(buf)
		err := kvSet(kw, kv)
		switch {
		case err == nil && !fits:
			fail("codec-no-error", "writing an item that is invalid or has no room reports no error (%d of %d bytes used, needs %d)", len(want), len(buf), len(next)-len(want))
			return
		case err != nil && fits:
			fail("codec-error", "writing an item of %d bytes into %d of %d bytes fails: %v", len(next)-len(want), len(want), len(buf), err)
			return
		case err == nil:
			want = next
			in = append(in, kv)
		default:
			w.probe("codec_full")
		}
		if kw.Off() != len(want) || !bytes.Equal(kw.Bytes(), want) {
			fail("codec-encoding", "after %d items there are %d bytes (%q), want %d (%q)", len(in), kw.Off(), head(kw.Bytes()), len(want), head(want))
			return
		}
		pause()
	}
	if i := len(buf); !bytes.Equal(all[i:], bytes.Repeat([]byte{guard}, len(all)-i)) {
		fail("codec-overrun", "bytes after the buffer were overwritten")
		return
	}
	data := kw.Bytes()[x.Off:]
	count := -1
	if x.Cut > 0 {
		data = append(bytes.Clone(data), [][]byte{{0xff}, {1, 'c', wire.TUint64, 0xff, 0xff}, {1, 'c', wire.TString, 0xf0}}[(x.Cut-1)%3]...)
		if x.Count {
			count = len(in) + 1
		}
	} else if x.Count {
		// what follows the list doesn't belong to it
		count = len(in)
		data = all[x.Off:]
	}
	step = "scanning"
	var ks *encoding.KVScanner
	if x.New {
		ks = encoding.NewKVScanner(data, count)
	} else {
		ks = encoding.AcquireKVScanner(data, count)
	}
	es := [2]*encoding.KVEntry{encoding.AcquireKVEntry(), encoding.AcquireKVEntry()}
	for i, kv := range in {
		e := es[i%2]
		if !ks.Next(e) {
			fail("codec-missing", "%d of %d items come back (%v)", i, len(in), ks.Error())
			return
		}
		if d := argDiff(kv, e); d != "" {
			fail("codec-wrong", "item %d: %s", i, d)
			return
		}
		if i > 0 {
			// the entry read before is still good
			if d := argDiff(in[i-1], es[1-i%2]); d != "" {
				fail("codec-entry", "item %d after item %d has been read: %s", i-1, i, d)
				return
			}
		}
		pause()
	}
	if ks.Next(es[0]) {
		fail("codec-extra", "more than the %d items come back: %q", len(in), head(es[0].NameBytes()))
		return
	}
	if err := ks.Error(); x.Cut > 0 && err == nil {
		fail("codec-cut", "%d items followed by one that is cut off are scanned without an error", len(in))
		return
	} else if x.Cut == 0 && err != nil {
		fail("codec-scan-error", "scanning %d items: %v", len(in), err)
		return
	}
	if !x.New {
		encoding.ReleaseKVScanner(ks)
		encoding.ReleaseKVWriter(kw)
	}
	encoding.ReleaseKVEntry(es[0])
	encoding.ReleaseKVEntry(es[1])

	for _, v := range x.Ints {
		step = "encoding an integer"
		want := wire.AppendVarint(nil, v)
		for l := 0; l <= len(want)+1; l++ {
			b := bytes.Repeat([]byte{guard}, 16)
			k, err := encoding.PutVarint(b[:l], v)
			switch {
			case l < len(want):
				if err == nil {
					fail("int-no-error", "%d is written into %d bytes without an error", v, l)
					return
				}
			case err != nil || !bytes.Equal(b[:k], want):
				fail("int-encoding", "%d is encoded as %x (%v), want %x", v, b[:k], err, want)
				return
			}
			if !bytes.Equal(b[l:], bytes.Repeat([]byte{guard}, 16-l)) {
				fail("int-overrun", "encoding %d writes past %d bytes", v, l)
				return
			}
		}
		pause()
		step = "decoding an integer"
		for l := 0; l <= len(want)+2; l++ {
			b := append(bytes.Clone(want), 0xff, 0xff)[:l]
			got, k, err := encoding.Varint(b)
			r := bytes.NewReader(b)
			got2, err2 := encoding.ReadVarint(r)
			if l < len(want) {
				if err == nil || err2 == nil {
					fail("int-truncated", "%x, which is cut off, is decoded without an error", b)
					return
				}
				continue
			}
			if err != nil || err2 != nil || got != v || got2 != v || k != len(want) || l-r.Len() != k {
				fail("int-decoding", "%x is decoded as %d with %d bytes (%v), and %d with %d bytes from a reader (%v), want %d with %d", b, got, k, err, got2, l-r.Len(), err2, v, len(want))
				return
			}
		}
	}
}

// peerCodec encodes and decodes table definitions and entries in memory,
// while connections do the same.
func (w *peersWorld) peerCodec(c *pconn, op *plan.WOp) {
	step := ""
	defer func() {
		if e := recover(); e != nil {
			w.fail("C23", "codec-panic", "connection %d: %s panics: %v", c.i, step, e)
		}
	}()
	w.probe("codec")
	w.hit("C23")
	const guard = 0xa7
	// encode tries buffers that are too small, just right and too large.
	encode := func(what string, want []byte, f func(b []byte) (int, error)) bool {
		step = "encoding " + what
		n := len(want)
		for _, l := range []int{n, n - 1, n / 2, n - 3, n + 9, 0} {
			if l < 0 {
				continue
			}
			all := bytes.Repeat([]byte{guard}, n+32)
			k, err := f(all[:l])
			runtime.SimYield(12)
			switch {
			case l < n && err == nil:
				w.fail("C23", "codec-no-error", "connection %d: %s of %d bytes into %d reports no error", c.i, what, n, l)
				return false
			case l >= n && (err != nil || k != n || !bytes.Equal(all[:n], want)):
				w.fail("C23", "codec-encoding", "connection %d: %s is encoded as %d bytes %x (%v), want %d bytes %x", c.i, what, k, head(all), err, n, head(want))
				return false
			}
			if !bytes.Equal(all[l:], bytes.Repeat([]byte{guard}, len(all)-l)) {
				w.fail("C23", "codec-overrun", "connection %d: encoding %s of %d bytes writes past %d bytes", c.i, what, n, l)
				return false
			}
		}
		return true
	}
	t := toDef(op.Def)
	tb := wire.EncodeDef(op.Def)
	if !encode("a definition", tb, t.Marshal) {
		return
	}
	var t2 sticktable.Definition
	step = "decoding a definition"
	in := append(bytes.Clone(tb), 0xff, 0xff)
	if n, err := t2.Unmarshal(in); err != nil || n != len(tb) {
		w.fail("C23", "codec-decoding", "connection %d: a definition of %d bytes is decoded with %d (%v)", c.i, len(tb), n, err)
		return
	}
	scribble(in)
	// cutOff decodes beginnings of a message, which must all be refused.
	cutOff := func(what string, b []byte, f func(b []byte) (int, error)) bool {
		step = "decoding the beginning of " + what
		for k := 0; k < len(b); k += 1 + k/24 {
			if n, err := f(bytes.Clone(b[:k:k])); err == nil {
				w.fail("C23", "codec-cut", "connection %d: the first %d of %d bytes of %s are decoded (%d) without an error", c.i, k, len(b), what, n)
				return false
			}
		}
		if k := len(b) - 1; k >= 0 {
			if _, err := f(bytes.Clone(b[:k:k])); err == nil {
				w.fail("C23", "codec-cut", "connection %d: all but the last of %d bytes of %s are decoded without an error", c.i, len(b), what)
				return false
			}
		}
		return true
	}
	if !cutOff("a definition", tb, func(b []byte) (int, error) { return new(sticktable.Definition).Unmarshal(b) }) {
		return
	}
	sleepMs(op.Ms)
	var got []*sticktable.EntryUpdate
	var exp []*pexp
	for i := range op.Upds {
		u := op.Upds[i]
		e := toEntry(op.Def, t, &u)
		e.WithLocalUpdateID, e.LocalUpdateID, e.Expiry = wire.HasID(u.Kind), u.ID, u.Expiry
		want := wire.EncodeUpd(op.Def, &u)
		if !encode("an update", want, e.Marshal) {
			return
		}
		step = "decoding an update"
		x := &sticktable.EntryUpdate{StickTable: &t2, WithLocalUpdateID: wire.HasID(u.Kind), WithExpiry: wire.HasExpiry(u.Kind)}
		if n, err := x.Unmarshal(bytes.Clone(want)); err != nil || n != len(want) {
			w.fail("C23", "codec-decoding", "connection %d: an update of %d bytes is decoded with %d (%v)", c.i, len(want), n, err)
			return
		}
		if !cutOff("an update", want, func(b []byte) (int, error) {
			x := &sticktable.EntryUpdate{StickTable: &t2, WithLocalUpdateID: wire.HasID(u.Kind), WithExpiry: wire.HasExpiry(u.Kind)}
			return x.Unmarshal(b)
		}) {
			return
		}
		got, exp = append(got, x), append(exp, &pexp{def: op.Def, u: &op.Upds[i]})
		runtime.SimYield(12)
	}
	sleepMs(op.Ms)
	for i := range got {
		if d := updDiff(exp[i], got[i]); d != "" {
			w.fail("C23", "codec-wrong", "connection %d: update %d of %d encoded and decoded: %s", c.i, i, len(got), d)
			return
		}
	}
}
