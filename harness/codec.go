package main

import (
	"bytes"
	"encoding/json"
	"reflect"

	p "github.com/Harvey-OS/ninep/protocol"
)

type codecFns struct{ enc, dec interface{} }

var codecs = map[int]codecFns{
	100: {p.MarshalTversionPkt, p.UnmarshalTversionPkt},
	101: {p.MarshalRversionPkt, p.UnmarshalRversionPkt},
	104: {p.MarshalTattachPkt, p.UnmarshalTattachPkt},
	105: {p.MarshalRattachPkt, p.UnmarshalRattachPkt},
	107: {p.MarshalRerrorPkt, p.UnmarshalRerrorPkt},
	108: {p.MarshalTflushPkt, p.UnmarshalTflushPkt},
	109: {p.MarshalRflushPkt, p.UnmarshalRflushPkt},
	110: {p.MarshalTwalkPkt, p.UnmarshalTwalkPkt},
	111: {p.MarshalRwalkPkt, p.UnmarshalRwalkPkt},
	112: {p.MarshalTopenPkt, p.UnmarshalTopenPkt},
	113: {p.MarshalRopenPkt, p.UnmarshalRopenPkt},
	114: {p.MarshalTcreatePkt, p.UnmarshalTcreatePkt},
	115: {p.MarshalRcreatePkt, p.UnmarshalRcreatePkt},
	116: {p.MarshalTreadPkt, p.UnmarshalTreadPkt},
	117: {p.MarshalRreadPkt, p.UnmarshalRreadPkt},
	118: {p.MarshalTwritePkt, p.UnmarshalTwritePkt},
	119: {p.MarshalRwritePkt, p.UnmarshalRwritePkt},
	120: {p.MarshalTclunkPkt, p.UnmarshalTclunkPkt},
	121: {p.MarshalRclunkPkt, p.UnmarshalRclunkPkt},
	122: {p.MarshalTremovePkt, p.UnmarshalTremovePkt},
	123: {p.MarshalRremovePkt, p.UnmarshalRremovePkt},
	124: {p.MarshalTstatPkt, p.UnmarshalTstatPkt},
	125: {p.MarshalRstatPkt, p.UnmarshalRstatPkt},
	126: {p.MarshalTwstatPkt, p.UnmarshalTwstatPkt},
	127: {p.MarshalRwstatPkt, p.UnmarshalRwstatPkt},
}

// encode calls the real encoder of message type ty.
func encode(ty int, tag Bytes, f []json.RawMessage) Bytes {
	fn := reflect.ValueOf(codecs[ty].enc)
	// Something in the buffer beforehand: encoders have to start afresh.
	b := bytes.NewBufferString("left over")
	in := []reflect.Value{reflect.ValueOf(b), reflect.ValueOf(p.Tag(unle(tag)))}
	for i, r := range f {
		in = append(in, load(r, fn.Type().In(2+i)))
	}
	fn.Call(in)
	return Bytes(append([]byte{}, b.Bytes()...))
}

// decode calls the real decoder of message type ty on what follows the type
// byte of a message.
func decode(ty int, body []byte) (ok bool, m Ev) {
	fn := reflect.ValueOf(codecs[ty].dec)
	b := bytes.NewBuffer(append([]byte{}, body...))
	out := fn.Call([]reflect.Value{reflect.ValueOf(b)})
	n := len(out)
	if !out[n-1].IsNil() {
		return false, nil
	}
	f := []interface{}{}
	for _, v := range out[:n-2] {
		f = append(f, dump(v))
	}
	return true, Ev{"ty": ty, "tag": dump(out[n-2]), "f": f}
}

func dirFields(d p.Dir) []interface{} {
	v := reflect.ValueOf(d)
	f := []interface{}{}
	for i := 0; i < v.NumField(); i++ {
		f = append(f, dump(v.Field(i)))
	}
	return f
}

type codecStep struct {
	E   string
	Ty  int
	Tag Bytes
	F   []json.RawMessage
	B   Bytes
}

func runCodec(raw json.RawMessage) []Ev {
	var sc struct{ Steps []codecStep }
	parse(raw, &sc)
	var l []Ev
	for _, s := range sc.Steps {
		switch s.E {
		case "enc":
			l = append(l, Ev{"e": "enc", "m": Ev{"ty": s.Ty, "tag": s.Tag, "f": s.F}, "b": encode(s.Ty, s.Tag, s.F)})
		case "dec":
			ok, m := decode(s.Ty, s.B)
			e := Ev{"e": "dec", "ty": s.Ty, "b": s.B, "ok": ok}
			if ok {
				e["m"] = m
			}
			l = append(l, e)
		case "encdir":
			var d p.Dir
			v := reflect.ValueOf(&d).Elem()
			for i := range s.F {
				v.Field(i).Set(load(s.F[i], v.Field(i).Type()))
			}
			b := bytes.NewBufferString("left over")
			p.Marshaldir(b, d)
			l = append(l, Ev{"e": "encdir", "f": s.F, "b": Bytes(append([]byte{}, b.Bytes()...))})
		case "decdir":
			d, err := p.Unmarshaldir(bytes.NewBuffer(append([]byte{}, s.B...)))
			e := Ev{"e": "decdir", "b": s.B, "ok": err == nil}
			if err == nil {
				e["f"] = dirFields(d)
			}
			l = append(l, e)
		}
	}
	return l
}
