package main

import (
	"reflect"
	"strconv"

	"github.com/codeallergy/value"
	"pgregory.net/rapid"
)

// Struct types as users declare them, which reflect.StructOf can not make: several of the same name,
// with embedded pointers, with fields of named slice and interface types.

type Num interface{ value.Number }
type Any value.Value
type Texts []value.String
type Addrs []*Addr

func rec1() interface{} {
	type Rec struct {
		A value.Value `tag:"1"`
		B value.Value `tag:"2"`
	}
	return &Rec{}
}

func rec2() interface{} {
	type Rec struct {
		A value.Value `tag:"2"`
		B value.Value `tag:"1"`
	}
	return &Rec{}
}

func rec3() interface{} {
	type Rec struct {
		B []value.Value `tag:"2" repeated:"true"`
		A value.Value   `tag:"1"`
	}
	return &Rec{}
}

func rec4() interface{} {
	type Rec struct {
		B []value.Value `tag:"2"`
		A value.Value   `tag:"1"`
		C value.Number  `tag:"3"`
	}
	return &Rec{}
}

func rec5() interface{} {
	type Addr struct {
		Zip    value.Value `tag:"1"`
		Street value.Value `tag:"2"`
	}
	type Rec struct {
		A *Addr   `tag:"1"`
		B []*Addr `tag:"2"`
	}
	return &Rec{}
}

func rec6() interface{} {
	type Rec struct {
		A *Addr   `tag:"1"`
		B []*Addr `tag:"2" repeated:"1"`
	}
	return &Rec{}
}

func rec7() interface{} {
	type Addr struct {
		Zip value.Number `tag:"-5"`
	}
	type Rec struct {
		*Addr `tag:"200"`
		A     value.Value `tag:"1"`
	}
	return &Rec{}
}

func rec8() interface{} {
	type Rec struct {
		N Num         `tag:"10"`
		A Any         `tag:"4"`
		T Texts       `tag:"300"`
		R Texts       `tag:"7" repeated:"true"`
		L Addrs       `tag:"1"`
		M Addrs       `tag:"0" repeated:"true"`
		Z value.Value `json:"zz,omitempty" tag:"70000" db:"z"`
	}
	return &Rec{}
}

func rec9() interface{} { // the same types of fields under the same names, tags shifted
	type Rec struct {
		N Num         `tag:"11"`
		A Any         `tag:"5"`
		T Texts       `tag:"301"`
		R Texts       `tag:"8" repeated:"true"`
		L Addrs       `tag:"2"`
		M Addrs       `tag:"1" repeated:"true"`
		Z value.Value `json:"zz,omitempty" tag:"70001" db:"z"`
	}
	return &Rec{}
}

func recBad1() interface{} {
	type Rec struct {
		A value.Value `tag:"1"`
		B value.Value
	}
	return &Rec{}
}

func recBad2() interface{} {
	type Rec struct {
		A value.Value `tag:"1"`
		B *struct {
			X value.Value `tag:"x"`
		} `tag:"2"`
	}
	return &Rec{}
}

var namedTypes = func() map[string]reflect.Type {
	r := map[string]reflect.Type{}
	for i, f := range []func() interface{}{rec1, rec2, rec3, rec4, rec5, rec6, rec7, rec8, rec9} {
		r["rec"+strconv.Itoa(i+1)] = reflect.TypeOf(f()).Elem()
	}
	r["Addr"] = reflect.TypeOf(Addr{})
	r["Person"] = reflect.TypeOf(Person{})
	return r
}()

var recNames = []string{"rec1", "rec2", "rec3", "rec4", "rec5", "rec6", "rec7", "rec8", "rec9"}

// namedST describes a declared type
func namedST(name string) ST {
	s := describeType(namedTypes[name])
	s.Name = name
	return s
}

func describeType(t reflect.Type) ST {
	s := ST{}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		f := SF{Rep: sf.Tag.Get("repeated")}
		f.Tag, _ = strconv.Atoi(sf.Tag.Get("tag"))
		ft := sf.Type
		if ft.Kind() == reflect.Slice {
			f.Arr = true
			ft = ft.Elem()
		}
		for k, kt := range fieldTypes {
			if ft == kt || ft.Kind() == reflect.Interface && kt.Kind() == reflect.Interface && ft.Implements(kt) && kt.Implements(ft) {
				f.K = k
			}
		}
		if f.K == "" {
			f.K = "struct"
			sub := describeType(ft.Elem())
			f.Sub = &sub
		}
		s.F = append(s.F, f)
	}
	return s
}

func genNamedST(t *rapid.T) ST {
	if oneIn(t, 5) {
		return namedST(choose(t, []string{"Addr", "Person"}))
	}
	return namedST(choose(t, recNames))
}
