package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"

	"github.com/Harvey-OS/ninep/protocol"
)

// Bytes are written as a JSON array of numbers.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	o := make([]byte, 0, 2+4*len(b))
	o = append(o, '[')
	for i, x := range b {
		if i > 0 {
			o = append(o, ',')
		}
		o = strconv.AppendUint(o, uint64(x), 10)
	}
	return append(o, ']'), nil
}

func (b *Bytes) UnmarshalJSON(p []byte) error {
	var s []int
	if err := json.Unmarshal(p, &s); err != nil {
		return err
	}
	*b = make(Bytes, len(s))
	for i, x := range s {
		(*b)[i] = byte(x)
	}
	return nil
}

func le(n uint64, w int) Bytes {
	b := make(Bytes, w)
	for i := range b {
		b[i] = byte(n >> (8 * uint(i)))
	}
	return b
}

func unle(b Bytes) (n uint64) {
	for i, x := range b {
		n |= uint64(x) << (8 * uint(i))
	}
	return
}

var qidType = reflect.TypeOf(protocol.QID{})

// dump turns a value of the code's API into the form the specification uses.
func dump(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Uint8:
		return le(v.Uint(), 1)
	case reflect.Uint16:
		return le(v.Uint(), 2)
	case reflect.Uint32:
		return le(v.Uint(), 4)
	case reflect.Int32:
		return le(uint64(uint32(v.Int())), 4)
	case reflect.Uint64:
		return le(v.Uint(), 8)
	case reflect.String:
		return Bytes(v.String())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return Bytes(append([]byte{}, v.Bytes()...))
		}
		o := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			o = append(o, dump(v.Index(i)))
		}
		return o
	case reflect.Struct:
		if v.Type() == qidType {
			return map[string]interface{}{"t": dump(v.Field(0)), "v": dump(v.Field(1)), "p": dump(v.Field(2))}
		}
	}
	fmt.Fprintln(os.Stderr, "dump: cannot handle", v.Type())
	os.Exit(2)
	return nil
}

// load is the inverse of dump, for a value of type t.
func load(raw json.RawMessage, t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		var b Bytes
		parse(raw, &b)
		v.SetUint(unle(b))
	case reflect.Int32:
		var b Bytes
		parse(raw, &b)
		v.SetInt(int64(int32(uint32(unle(b)))))
	case reflect.String:
		var b Bytes
		parse(raw, &b)
		v.SetString(string(b))
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			var b Bytes
			parse(raw, &b)
			v.SetBytes([]byte(b))
			break
		}
		var l []json.RawMessage
		parse(raw, &l)
		v.Set(reflect.MakeSlice(t, len(l), len(l)))
		for i := range l {
			v.Index(i).Set(load(l[i], t.Elem()))
		}
	case reflect.Struct:
		var q struct{ T, V, P Bytes }
		parse(raw, &q)
		v.Set(reflect.ValueOf(protocol.QID{Type: uint8(unle(q.T)), Version: uint32(unle(q.V)), Path: unle(q.P)}))
	default:
		fmt.Fprintln(os.Stderr, "load: cannot handle", t)
		os.Exit(2)
	}
	return v
}

// Message types, by number.
const (
	tVersion = 100
	rVersion = 101
	tAttach  = 104
	rError   = 107
	tFlush   = 108
	tWalk    = 110
	tOpen    = 112
	tCreate  = 114
	tRead    = 116
	rRead    = 117
	tWrite   = 118
	tClunk   = 120
	tRemove  = 122
	tStat    = 124
	tWstat   = 126
)
