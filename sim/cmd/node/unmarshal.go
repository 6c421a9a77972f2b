//go:build simulated

package main

import (
	"fmt"
	"net/netip"
	"reflect"
	"strings"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"

	"verifsim/wire"
)

// args is what most handlers unmarshal the arguments of their message into.
type args struct {
	Str  string     `spoe:"str"`
	Raw  []byte     `spoe:"raw"`
	I32  int32      `spoe:"i32"`
	I64  int64      `spoe:"i64,omitempty"`
	U32  uint32     `spoe:"u32"`
	U64  uint64     `spoe:"u64"`
	OK   bool       `spoe:"ok"`
	IP   netip.Addr `spoe:"ip"`
	Dash string     `spoe:"-"`
	Free string

	PStr *string     `spoe:"pstr"`
	PRaw *[]byte     `spoe:"praw"`
	PI32 *int32      `spoe:"pi32"`
	PI64 *int64      `spoe:"pi64"`
	PU32 *uint32     `spoe:"pu32"`
	PU64 *uint64     `spoe:"pu64,x,y"`
	POK  *bool       `spoe:"pok"`
	PIP  *netip.Addr `spoe:"pip"`
}

// otherArgs has a type with the same name, but the fields elsewhere.
func otherArgs() reflect.Type {
	type args struct {
		PIP  *netip.Addr `spoe:"pip"`
		Free string
		POK  *bool    `json:"pstr" spoe:"pok"`
		PU64 *uint64  `spoe:"pu64"`
		PU32 *uint32  `spoe:"pu32"`
		PI64 *int64   `spoe:"pi64"`
		PI32 *int32   `spoe:"pi32"`
		PRaw *[]byte  `spoe:"praw"`
		PStr *string  `spoe:"pstr"`
		Skip struct{} `spoe:"-"`
		Any  any
		IP   netip.Addr `spoe:"ip"`
		OK   bool       `spoe:"ok"`
		U64  uint64     `spoe:"u64"`
		U32  uint32     `spoe:"u32"`
		I64  int64      `spoe:"i64"`
		I32  int32      `spoe:"i32"`
		Raw  []byte     `spoe:"raw"`
		Str  string     `spoe:"str"`
	}
	return reflect.TypeOf(args{})
}

type (
	label  string
	octets []byte
	small  int32
	flag   bool
)

// crossed uses named types, and names that belong to fields of the other
// types for fields of the same type.
type crossed struct {
	A label         `spoe:"pstr"`
	B octets        `spoe:"praw"`
	C small         `spoe:"pi32"`
	D time.Duration `spoe:"pi64"`
	E uint32        `spoe:"pu32"`
	F uint64        `spoe:"pu64"`
	G flag          `spoe:"pok"`
	H netip.Addr    `spoe:"pip"`
	I *label        `spoe:"str"`
	J *octets       `spoe:"raw"`
	K *small        `spoe:"i32"`
	L *int64        `spoe:"i64"`
	M *uint32       `spoe:"u32"`
	N *uint64       `spoe:"u64"`
	O *flag         `spoe:"ok"`
	P *netip.Addr   `spoe:"ip"`
}

// few has only some of the names; what it does not have must be skipped.
type few[T any] struct {
	Free *string
	Of   *T       `spoe:"pi64"`
	Str  string   `spoe:"str"`
	Raw  *[]byte  `spoe:"praw"`
	None struct{} `spoe:",omitempty"`
	U64  uint64   `spoe:"u64"`
}

var argTypes = []reflect.Type{
	reflect.TypeOf(args{}),
	otherArgs(),
	reflect.TypeOf(crossed{}),
	reflect.TypeOf(few[int64]{}),
	reflect.TypeOf(few[time.Duration]{}),
	reflect.TypeOf(struct {
		PStr *string `spoe:"pstr"`
	}{}),
	reflect.TypeOf(struct{ Str string }{}),
}

var addrType = reflect.TypeOf(netip.Addr{})

// argKey returns the name of the argument for a field.
func argKey(f reflect.StructField) string {
	k, _, _ := strings.Cut(f.Tag.Get("spoe"), ",")
	if k == "-" {
		return ""
	}
	return k
}

// argFits returns whether an argument fits a field, or what it points to.
func argFits(f reflect.Type, t int) bool {
	switch {
	case f == addrType:
		return t == wire.TIPv4 || t == wire.TIPv6
	case f.Kind() == reflect.String:
		return t == wire.TString
	case f.Kind() == reflect.Slice:
		return t == wire.TString || t == wire.TBinary
	case f.Kind() == reflect.Int32:
		return t == wire.TInt32
	case f.Kind() == reflect.Int64:
		return t == wire.TInt64
	case f.Kind() == reflect.Uint32:
		return t == wire.TUint32
	case f.Kind() == reflect.Uint64:
		return t == wire.TUint64
	case f.Kind() == reflect.Bool:
		return t == wire.TBool
	}
	return false
}

// showArg renders a value of an argument as showField does with a field.
func showArg(v wire.Val) string {
	switch v.T {
	case wire.TIPv4, wire.TIPv6:
		ip, _ := netip.AddrFromSlice(v.B)
		return ip.String()
	case wire.TString, wire.TBinary:
		return fmt.Sprintf("%q", v.B)
	case wire.TInt32:
		return fmt.Sprint(int32(v.N))
	case wire.TInt64:
		return fmt.Sprint(int64(v.N))
	case wire.TUint32:
		return fmt.Sprint(uint32(v.N))
	case wire.TUint64:
		return fmt.Sprint(v.N)
	case wire.TBool:
		return fmt.Sprint(v.N != 0)
	}
	return "nil"
}

func showField(v reflect.Value) string {
	switch {
	case v.Type() == addrType:
		return v.Interface().(netip.Addr).String()
	case v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return showField(v.Elem())
	case v.Kind() == reflect.String:
		return fmt.Sprintf("%q", v.String())
	case v.Kind() == reflect.Slice:
		return fmt.Sprintf("%q", v.Bytes())
	case v.CanInt():
		return fmt.Sprint(v.Int())
	case v.CanUint():
		return fmt.Sprint(v.Uint())
	case v.Kind() == reflect.Bool:
		return fmt.Sprint(v.Bool())
	}
	return "?"
}

// showFields renders what the fields of a struct hold.
func showFields(v reflect.Value) []string {
	s := make([]string, v.NumField())
	for i := range s {
		s[i] = showField(v.Field(i))
	}
	return s
}

// prefill gives all fields a value.
func prefill(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Pointer {
			f.Set(reflect.New(f.Type().Elem()))
			f = f.Elem()
		}
		switch {
		case f.Type() == addrType:
			f.Set(reflect.ValueOf(netip.MustParseAddr("192.0.2.9")))
		case f.Kind() == reflect.Interface:
			f.Set(reflect.ValueOf("any"))
		case f.Kind() == reflect.String:
			f.SetString(fmt.Sprint("old ", i))
		case f.Kind() == reflect.Slice:
			f.SetBytes(append(make([]byte, 0, 40), fmt.Sprint("old ", i)...))
		case f.CanInt():
			f.SetInt(int64(-i))
		case f.CanUint():
			f.SetUint(uint64(i))
		case f.Kind() == reflect.Bool:
			f.SetBool(true)
		}
	}
}

// argModel is what unmarshalling kvs into a struct must make of its fields:
// the number of items used, and whether it fails at the last of these.
func argModel(t reflect.Type, fields []string, kvs []wire.KV) (used int, fails bool) {
	key := map[string]int{}
	for i := range fields {
		if k := argKey(t.Field(i)); k != "" {
			key[k] = i
			if t.Field(i).Type.Kind() == reflect.Pointer {
				fields[i] = "nil"
			}
		}
	}
	for i, kv := range kvs {
		n, ok := key[kv.K]
		if !ok {
			continue
		}
		ft := t.Field(n).Type
		if ft.Kind() == reflect.Pointer {
			if ft = ft.Elem(); kv.V.T == wire.TNull {
				fields[n] = "nil"
				continue
			}
		}
		if !argFits(ft, kv.V.T) {
			return i + 1, true
		}
		fields[n] = showArg(kv.V)
	}
	return len(kvs), false
}

func argNames(t reflect.Type, fields []string) string {
	var s []string
	for i, f := range fields {
		s = append(s, t.Field(i).Name+"="+f)
	}
	return strings.Join(s, " ")
}

// kept is an unmarshalled struct that outlives its handler.
type kept struct {
	got  reflect.Value
	want string
	c    *sconn
	n    *snotify
	m    int
}

func (k *kept) show() string {
	return argNames(k.got.Type(), showFields(k.got))
}

// unmarshal lets the handler of sm unmarshal the arguments from pos on and
// returns how many arguments have been read then, -1 if it failed.
func (w *spopWorld) unmarshal(sm *smsg, m *encoding.Message, pos int) int {
	n, c := sm.n, sm.n.c
	b := sm.m.B
	t := argTypes[b.UnmType%len(argTypes)]
	v := reflect.New(t)
	switch {
	case b.UnmOld&1 != 0 && w.idle[t] != nil:
		// As from a pool: a struct that was unmarshalled into before.
		v = w.idle[t][len(w.idle[t])-1]
		w.idle[t] = w.idle[t][:len(w.idle[t])-1]
		if len(w.idle[t]) == 0 {
			delete(w.idle, t)
		}
		w.probe("unmarshal_again")
	case b.UnmOld&2 == 0:
		prefill(v.Elem())
	}
	before := reflect.New(t).Elem()
	before.Set(v.Elem())
	old := argNames(t, showFields(before))
	fields := showFields(before)
	used, fails := argModel(t, fields, sm.m.Args[pos:])
	want := argNames(t, fields)

	err := m.KV.Unmarshal(v.Interface())

	w.probe("unmarshal")
	w.hit("C22")
	if x := argNames(t, showFields(before)); x != old {
		w.fail("C22", "unmarshal-alias", "connection %d: NOTIFY %d/%d message %d: unmarshalling changed values the struct pointed to before: %s, was %s", c.i, n.n.Stream, n.n.Frame, sm.idx, x, old)
		return -1
	}
	switch {
	case fails && err == nil:
		w.fail("C22", "unmarshal-no-error", "connection %d: NOTIFY %d/%d message %d: unmarshalling into %v reports no error although %q has type %d", c.i, n.n.Stream, n.n.Frame, sm.idx, t, sm.m.Args[pos+used-1].K, sm.m.Args[pos+used-1].V.T)
	case !fails && err != nil:
		w.fail("C22", "unmarshal-error", "connection %d: NOTIFY %d/%d message %d: unmarshalling into %v fails: %v", c.i, n.n.Stream, n.n.Frame, sm.idx, t, err)
	case fails:
		w.probe("unmarshal_error")
		return -1
	default:
		if g := argNames(t, showFields(v.Elem())); g != want {
			w.fail("C22", "unmarshal-wrong", "connection %d: NOTIFY %d/%d message %d: unmarshalled into %v as %s, want %s", c.i, n.n.Stream, n.n.Frame, sm.idx, t, g, want)
			return -1
		}
		got := v.Elem()
		if b.UnmOld&4 != 0 {
			// The struct is used again, but what its fields point to is kept.
			got = reflect.New(t).Elem()
			got.Set(v.Elem())
			w.idle[t] = append(w.idle[t], v)
		}
		w.kept = append(w.kept, &kept{got, want, c, n, sm.idx})
	}
	return pos + used
}

// judgeKept checks that nothing changed what handlers have unmarshalled.
func (w *spopWorld) judgeKept() {
	for _, k := range w.kept {
		if g := k.show(); g != k.want {
			w.fail("C22", "unmarshal-changed", "connection %d: what was unmarshalled from message %d of NOTIFY %d/%d changed to %s, was %s", k.c.i, k.m, k.n.n.Stream, k.n.n.Frame, g, k.want)
			return
		}
	}
}
