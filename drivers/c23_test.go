package jsonutils

import (
	"fmt"
	"time"

	"yunion.io/x/pkg/tristate"
)

// pointer types with a name of their own
type (
	gvPS *JSONString
	gvPI *JSONInt
	gvPF *JSONFloat
	gvPB *JSONBool
	gvPA *JSONArray
	gvPD *JSONDict
)

type gvTgt struct {
	S  *JSONString            `json:"s"`
	I  *JSONInt               `json:"i"`
	F  *JSONFloat             `json:"f"`
	B  *JSONBool              `json:"b"`
	A  *JSONArray             `json:"a"`
	D  *JSONDict              `json:"d"`
	O  JSONObject             `json:"o"`
	X  interface{}            `json:"x"`
	L  []JSONObject           `json:"l"`
	M  map[string]JSONObject  `json:"m"`
	Vs JSONString             `json:"vs"`
	Vi JSONInt                `json:"vi"`
	Vf JSONFloat              `json:"vf"`
	Vb JSONBool               `json:"vb"`
	Va JSONArray              `json:"va"`
	Vd JSONDict               `json:"vd"`
	Ls []string               `json:"ls"`
	Mi map[string]interface{} `json:"mi"`
	T  tristate.TriState      `json:"t"`
	Tm time.Time              `json:"tm"`
	N  *gvTgt                 `json:"n"`
	Str string                `json:"str"`
	Pi *int                   `json:"pi"`
	Md map[string]*JSONDict   `json:"md"`
	Ma map[string]*JSONArray  `json:"ma"`
	Mx map[string]interface{} `json:"mx"`
	Ld []*JSONDict            `json:"ld"`
	La []*JSONArray           `json:"la"`
	Li [2]*JSONInt            `json:"li"`
	Ps **JSONString           `json:"ps"`
	Pd **JSONDict             `json:"pd"`
}

func gvdDrive(r *gvdRun) {
	r.Rule = "random documents unmarshalled into targets (top level, struct fields, slices, maps, interfaces) that point into other documents or at the shared constants; every document compared with its state before; distinct by (document, target)"
	fields := []string{"s", "i", "f", "b", "a", "d", "o", "x", "l", "m", "vs", "vi", "vf", "vb", "va", "vd", "ls", "mi", "t", "tm", "n", "str", "pi", "md", "ma", "mx", "ld", "la", "li", "ps", "pd"}
	for r.more() {
		m := r.model(2)
		if r.rng.Intn(2) == 0 {
			m = &gvM{k: 'd', m: map[string]*gvM{}}
			for i, n := 0, 1+r.rng.Intn(6); i < n; i++ {
				f := fields[r.rng.Intn(len(fields))]
				if r.rng.Intn(2) == 0 {
					m.m[f] = r.scalar()
				} else {
					m.m[f] = r.model(2)
				}
			}
		}
		var exm []*gvM
		var ex []JSONObject
		keep := func(x *gvM) JSONObject {
			o := r.doc(x)
			exm, ex = append(exm, x), append(ex, o)
			return o
		}
		s := keep(&gvM{k: 's', s: "kept"}).(*JSONString)
		i := keep(&gvM{k: 'i', i: 42}).(*JSONInt)
		f := keep(&gvM{k: 'f', f: 4.25}).(*JSONFloat)
		bl := &JSONBool{data: false}
		ar := keep(&gvM{k: 'a', a: []*gvM{{k: 's', s: "e0"}, {k: 'i', i: 1}, {k: 'b', b: true}}}).(*JSONArray)
		d := keep(&gvM{k: 'd', m: map[string]*gvM{"s": {k: 's', s: "x"}, "q": {k: 'i', i: 3}}}).(*JSONDict)
		var hold interface{}
		ar.Unmarshal(&hold)
		// arrays with spare room
		room := NewArray()
		for k := 0; k < 5; k++ {
			room.Add(NewInt(int64(k)))
		}
		exm, ex = append(exm, gvOf(room)), append(ex, room)
		if r.rng.Intn(2) == 0 {
			bl = JSONFalse
		}
		if r.rng.Intn(3) == 0 {
			bl = JSONTrue
		}
		blw := bl.data
		tg := gvTgt{S: s, I: i, F: f, B: bl, A: ar, D: d, O: ex[r.rng.Intn(len(ex))], X: ex[r.rng.Intn(len(ex))], L: ar.Value(), M: d.Value(), Vs: *s, Vi: *i, Vf: *f, Vb: *bl, Va: *room, Vd: *d, Mi: map[string]interface{}{"a": d}}
		if x, ok := hold.([]JSONObject); ok {
			tg.L = x
		}
		s2, d2 := s, d
		tg.Md, tg.Ma = map[string]*JSONDict{"a": d, "s": d}, map[string]*JSONArray{"a": ar, "s": ar}
		tg.Mx = map[string]interface{}{"a": d, "s": &s2, "b": &tg.B, "q": &d2}
		tg.Ld, tg.La, tg.Li = []*JSONDict{d, d}, []*JSONArray{ar, ar}, [2]*JSONInt{i, i}
		tg.Ps, tg.Pd = &s2, &d2
		second := *room
		switch r.rng.Intn(6) {
		case 0:
			tg.O = JSONTrue
		case 1:
			tg.O = JSONNull
		case 2:
			tg.O = nil
			tg.X = &tg.O
		case 3:
			tg.X = &tg.S
		case 4:
			tg.X = &tg.B
		case 5:
			tg.X = &tg.D
		}
		which := r.rng.Intn(28)
		ns, ni, nf, nb, na, nd := gvPS(s), gvPI(i), gvPF(f), gvPB(bl), gvPA(ar), gvPD(d)
		in := fmt.Sprintf("%s into target %d", m.desc(), which)
		r.try(in, func() {
			o := r.doc(m)
			var err error
			switch which {
			case 0:
				err = o.Unmarshal(&tg.S)
			case 1:
				err = o.Unmarshal(&tg.I)
			case 2:
				err = o.Unmarshal(&tg.F)
			case 3:
				err = o.Unmarshal(&tg.B)
			case 4:
				err = o.Unmarshal(&tg.A)
			case 5:
				err = o.Unmarshal(&tg.D)
			case 6:
				err = o.Unmarshal(&tg.O)
			case 7:
				err = o.Unmarshal(&tg.X)
			case 8:
				err = o.Unmarshal(&tg.L)
			case 9:
				err = o.Unmarshal(&tg.M)
			case 10:
				err = o.Unmarshal(&tg.Va)
				if m.k == 'a' {
					// a second variable that starts from the same array
					w := tg.Va
					want := gvOf(&w)
					NewArray(JSONTrue, JSONFalse).Unmarshal(&second)
					if g := gvOf(&w); !gvSame(g, want) {
						r.fail("array-value", in, g.desc()+" was "+want.desc())
					}
				}
			case 11:
				err = o.Unmarshal(&tg.Vd)
			case 12:
				err = o.Unmarshal(&ns)
			case 13:
				err = o.Unmarshal(&ni)
			case 14:
				err = o.Unmarshal(&nf)
			case 15:
				err = o.Unmarshal(&nb)
			case 16:
				err = o.Unmarshal(&na)
			case 17:
				err = o.Unmarshal(&nd)
			case 18:
				err = o.Unmarshal(&tg.Md)
			case 19:
				err = o.Unmarshal(&tg.Ma)
			case 20:
				err = o.Unmarshal(&tg.Ld)
			case 21:
				err = o.Unmarshal(&tg.Mx)
			default:
				err = o.Unmarshal(&tg)
			}
			_ = err
			if !gvSame(gvOf(o), m) {
				r.fail("source", in, "the document changed to "+gvOf(o).desc())
			}
			for j := range ex {
				if !gvSame(gvOf(ex[j]), exm[j]) {
					r.fail("target", in, fmt.Sprintf("existing document %s changed to %s", exm[j].desc(), gvOf(ex[j]).desc()))
				}
			}
			if bl.data != blw {
				r.fail("target", in, "an existing boolean changed")
				bl.data = blw
			}
			if !JSONTrue.data || JSONFalse.data {
				r.fail("constant", in, "a shared constant changed")
				JSONTrue.data, JSONFalse.data = true, false
			}
		})
	}
}
