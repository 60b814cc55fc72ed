package main

// Classes that are recursive through many others.

import "github.com/codeallergy/value"

type (
	ring7n0 struct {
		V value.Value `tag:"1"`
		N *ring7n1    `tag:"2"`
	}
	ring7n1 struct {
		V value.Value `tag:"1"`
		N *ring7n2    `tag:"3"`
	}
	ring7n2 struct {
		V value.Value `tag:"1"`
		N []*ring7n3  `tag:"4"`
	}
	ring7n3 struct {
		V value.Value `tag:"1"`
		N *ring7n4    `tag:"2"`
	}
	ring7n4 struct {
		V value.Value `tag:"1"`
		N *ring7n5    `tag:"3"`
	}
	ring7n5 struct {
		V value.Value `tag:"1"`
		N []*ring7n6  `tag:"4"`
	}
	ring7n6 struct {
		V value.Value `tag:"1"`
		N *ring7n0    `tag:"2"`
	}
	ring9n0 struct {
		V value.Value `tag:"1"`
		N []*ring9n1  `tag:"2"`
	}
	ring9n1 struct {
		V value.Value `tag:"1"`
		N *ring9n2    `tag:"3"`
	}
	ring9n2 struct {
		V value.Value `tag:"1"`
		N *ring9n3    `tag:"4"`
	}
	ring9n3 struct {
		V value.Value `tag:"1"`
		N []*ring9n4  `tag:"2"`
	}
	ring9n4 struct {
		V value.Value `tag:"1"`
		N *ring9n5    `tag:"3"`
	}
	ring9n5 struct {
		V value.Value `tag:"1"`
		N *ring9n6    `tag:"4"`
	}
	ring9n6 struct {
		V value.Value `tag:"1"`
		N []*ring9n7  `tag:"2"`
	}
	ring9n7 struct {
		V value.Value `tag:"1"`
		N *ring9n8    `tag:"3"`
	}
	ring9n8 struct {
		V value.Value `tag:"1"`
		N *ring9n0    `tag:"4"`
	}
	ring12n0 struct {
		V value.Value `tag:"1"`
		N []*ring12n1 `tag:"2"`
	}
	ring12n1 struct {
		V value.Value `tag:"1"`
		N *ring12n2   `tag:"3"`
	}
	ring12n2 struct {
		V value.Value `tag:"1"`
		N *ring12n3   `tag:"4"`
	}
	ring12n3 struct {
		V value.Value `tag:"1"`
		N []*ring12n4 `tag:"2"`
	}
	ring12n4 struct {
		V value.Value `tag:"1"`
		N *ring12n5   `tag:"3"`
	}
	ring12n5 struct {
		V value.Value `tag:"1"`
		N *ring12n6   `tag:"4"`
	}
	ring12n6 struct {
		V value.Value `tag:"1"`
		N []*ring12n7 `tag:"2"`
	}
	ring12n7 struct {
		V value.Value `tag:"1"`
		N *ring12n8   `tag:"3"`
	}
	ring12n8 struct {
		V value.Value `tag:"1"`
		N *ring12n9   `tag:"4"`
	}
	ring12n9 struct {
		V value.Value  `tag:"1"`
		N []*ring12n10 `tag:"2"`
	}
	ring12n10 struct {
		V value.Value `tag:"1"`
		N *ring12n11  `tag:"3"`
	}
	ring12n11 struct {
		V value.Value `tag:"1"`
		N *ring12n0   `tag:"4"`
	}
	ring20n0 struct {
		V value.Value `tag:"1"`
		N *ring20n1   `tag:"2"`
	}
	ring20n1 struct {
		V value.Value `tag:"1"`
		N []*ring20n2 `tag:"3"`
	}
	ring20n2 struct {
		V value.Value `tag:"1"`
		N *ring20n3   `tag:"4"`
	}
	ring20n3 struct {
		V value.Value `tag:"1"`
		N *ring20n4   `tag:"2"`
	}
	ring20n4 struct {
		V value.Value `tag:"1"`
		N []*ring20n5 `tag:"3"`
	}
	ring20n5 struct {
		V value.Value `tag:"1"`
		N *ring20n6   `tag:"4"`
	}
	ring20n6 struct {
		V value.Value `tag:"1"`
		N *ring20n7   `tag:"2"`
	}
	ring20n7 struct {
		V value.Value `tag:"1"`
		N []*ring20n8 `tag:"3"`
	}
	ring20n8 struct {
		V value.Value `tag:"1"`
		N *ring20n9   `tag:"4"`
	}
	ring20n9 struct {
		V value.Value `tag:"1"`
		N *ring20n10  `tag:"2"`
	}
	ring20n10 struct {
		V value.Value  `tag:"1"`
		N []*ring20n11 `tag:"3"`
	}
	ring20n11 struct {
		V value.Value `tag:"1"`
		N *ring20n12  `tag:"4"`
	}
	ring20n12 struct {
		V value.Value `tag:"1"`
		N *ring20n13  `tag:"2"`
	}
	ring20n13 struct {
		V value.Value  `tag:"1"`
		N []*ring20n14 `tag:"3"`
	}
	ring20n14 struct {
		V value.Value `tag:"1"`
		N *ring20n15  `tag:"4"`
	}
	ring20n15 struct {
		V value.Value `tag:"1"`
		N *ring20n16  `tag:"2"`
	}
	ring20n16 struct {
		V value.Value  `tag:"1"`
		N []*ring20n17 `tag:"3"`
	}
	ring20n17 struct {
		V value.Value `tag:"1"`
		N *ring20n18  `tag:"4"`
	}
	ring20n18 struct {
		V value.Value `tag:"1"`
		N *ring20n19  `tag:"2"`
	}
	ring20n19 struct {
		V value.Value `tag:"1"`
		N []*ring20n0 `tag:"3"`
	}
	ring48n0 struct {
		V value.Value `tag:"1"`
		N []*ring48n1 `tag:"2"`
	}
	ring48n1 struct {
		V value.Value `tag:"1"`
		N *ring48n2   `tag:"3"`
	}
	ring48n2 struct {
		V value.Value `tag:"1"`
		N *ring48n3   `tag:"4"`
	}
	ring48n3 struct {
		V value.Value `tag:"1"`
		N []*ring48n4 `tag:"2"`
	}
	ring48n4 struct {
		V value.Value `tag:"1"`
		N *ring48n5   `tag:"3"`
	}
	ring48n5 struct {
		V value.Value `tag:"1"`
		N *ring48n6   `tag:"4"`
	}
	ring48n6 struct {
		V value.Value `tag:"1"`
		N []*ring48n7 `tag:"2"`
	}
	ring48n7 struct {
		V value.Value `tag:"1"`
		N *ring48n8   `tag:"3"`
	}
	ring48n8 struct {
		V value.Value `tag:"1"`
		N *ring48n9   `tag:"4"`
	}
	ring48n9 struct {
		V value.Value  `tag:"1"`
		N []*ring48n10 `tag:"2"`
	}
	ring48n10 struct {
		V value.Value `tag:"1"`
		N *ring48n11  `tag:"3"`
	}
	ring48n11 struct {
		V value.Value `tag:"1"`
		N *ring48n12  `tag:"4"`
	}
	ring48n12 struct {
		V value.Value  `tag:"1"`
		N []*ring48n13 `tag:"2"`
	}
	ring48n13 struct {
		V value.Value `tag:"1"`
		N *ring48n14  `tag:"3"`
	}
	ring48n14 struct {
		V value.Value `tag:"1"`
		N *ring48n15  `tag:"4"`
	}
	ring48n15 struct {
		V value.Value  `tag:"1"`
		N []*ring48n16 `tag:"2"`
	}
	ring48n16 struct {
		V value.Value `tag:"1"`
		N *ring48n17  `tag:"3"`
	}
	ring48n17 struct {
		V value.Value `tag:"1"`
		N *ring48n18  `tag:"4"`
	}
	ring48n18 struct {
		V value.Value  `tag:"1"`
		N []*ring48n19 `tag:"2"`
	}
	ring48n19 struct {
		V value.Value `tag:"1"`
		N *ring48n20  `tag:"3"`
	}
	ring48n20 struct {
		V value.Value `tag:"1"`
		N *ring48n21  `tag:"4"`
	}
	ring48n21 struct {
		V value.Value  `tag:"1"`
		N []*ring48n22 `tag:"2"`
	}
	ring48n22 struct {
		V value.Value `tag:"1"`
		N *ring48n23  `tag:"3"`
	}
	ring48n23 struct {
		V value.Value `tag:"1"`
		N *ring48n24  `tag:"4"`
	}
	ring48n24 struct {
		V value.Value  `tag:"1"`
		N []*ring48n25 `tag:"2"`
	}
	ring48n25 struct {
		V value.Value `tag:"1"`
		N *ring48n26  `tag:"3"`
	}
	ring48n26 struct {
		V value.Value `tag:"1"`
		N *ring48n27  `tag:"4"`
	}
	ring48n27 struct {
		V value.Value  `tag:"1"`
		N []*ring48n28 `tag:"2"`
	}
	ring48n28 struct {
		V value.Value `tag:"1"`
		N *ring48n29  `tag:"3"`
	}
	ring48n29 struct {
		V value.Value `tag:"1"`
		N *ring48n30  `tag:"4"`
	}
	ring48n30 struct {
		V value.Value  `tag:"1"`
		N []*ring48n31 `tag:"2"`
	}
	ring48n31 struct {
		V value.Value `tag:"1"`
		N *ring48n32  `tag:"3"`
	}
	ring48n32 struct {
		V value.Value `tag:"1"`
		N *ring48n33  `tag:"4"`
	}
	ring48n33 struct {
		V value.Value  `tag:"1"`
		N []*ring48n34 `tag:"2"`
	}
	ring48n34 struct {
		V value.Value `tag:"1"`
		N *ring48n35  `tag:"3"`
	}
	ring48n35 struct {
		V value.Value `tag:"1"`
		N *ring48n36  `tag:"4"`
	}
	ring48n36 struct {
		V value.Value  `tag:"1"`
		N []*ring48n37 `tag:"2"`
	}
	ring48n37 struct {
		V value.Value `tag:"1"`
		N *ring48n38  `tag:"3"`
	}
	ring48n38 struct {
		V value.Value `tag:"1"`
		N *ring48n39  `tag:"4"`
	}
	ring48n39 struct {
		V value.Value  `tag:"1"`
		N []*ring48n40 `tag:"2"`
	}
	ring48n40 struct {
		V value.Value `tag:"1"`
		N *ring48n41  `tag:"3"`
	}
	ring48n41 struct {
		V value.Value `tag:"1"`
		N *ring48n42  `tag:"4"`
	}
	ring48n42 struct {
		V value.Value  `tag:"1"`
		N []*ring48n43 `tag:"2"`
	}
	ring48n43 struct {
		V value.Value `tag:"1"`
		N *ring48n44  `tag:"3"`
	}
	ring48n44 struct {
		V value.Value `tag:"1"`
		N *ring48n45  `tag:"4"`
	}
	ring48n45 struct {
		V value.Value  `tag:"1"`
		N []*ring48n46 `tag:"2"`
	}
	ring48n46 struct {
		V value.Value `tag:"1"`
		N *ring48n47  `tag:"3"`
	}
	ring48n47 struct {
		V value.Value `tag:"1"`
		N *ring48n0   `tag:"4"`
	}
	lead0 struct {
		N *lead1 `tag:"3"`
	}
	lead1 struct {
		N *lead2 `tag:"3"`
	}
	lead2 struct {
		N *lead3 `tag:"3"`
	}
	lead3 struct {
		N *lead4 `tag:"3"`
	}
	lead4 struct {
		N *lead5 `tag:"3"`
	}
	lead5 struct {
		N *lead6 `tag:"3"`
	}
	lead6 struct {
		N *lead7 `tag:"3"`
	}
	lead7 struct {
		N *lead8 `tag:"3"`
	}
	lead8 struct {
		N *lead9 `tag:"3"`
	}
	lead9 struct {
		N *lead10 `tag:"3"`
	}
	lead10 struct {
		N *lead11 `tag:"3"`
	}
	lead11 struct {
		N *lead12 `tag:"3"`
	}
	lead12 struct {
		N *lead13 `tag:"3"`
	}
	lead13 struct {
		N *lead14 `tag:"3"`
	}
	lead14 struct {
		N *lead15 `tag:"3"`
	}
	lead15 struct {
		N *lead16 `tag:"3"`
	}
	lead16 struct {
		N *lead17 `tag:"3"`
	}
	lead17 struct {
		N *lead18 `tag:"3"`
	}
	lead18 struct {
		N *lead19 `tag:"3"`
	}
	lead19 struct {
		N *lead18 `tag:"3"`
	}
)

var rings = map[string]func() interface{}{
	"ring7":     func() interface{} { return &ring7n0{} },
	"ring7mid":  func() interface{} { return &ring7n3{} },
	"ring9":     func() interface{} { return &ring9n0{} },
	"ring9mid":  func() interface{} { return &ring9n4{} },
	"ring12":    func() interface{} { return &ring12n0{} },
	"ring12mid": func() interface{} { return &ring12n6{} },
	"ring20":    func() interface{} { return &ring20n0{} },
	"ring20mid": func() interface{} { return &ring20n10{} },
	"ring48":    func() interface{} { return &ring48n0{} },
	"ring48mid": func() interface{} { return &ring48n24{} },
	"lead0":     func() interface{} { return &lead0{} },
	"lead3":     func() interface{} { return &lead3{} },
	"lead10":    func() interface{} { return &lead10{} },
	"lead17":    func() interface{} { return &lead17{} },
	"lead18":    func() interface{} { return &lead18{} },
	"lead19":    func() interface{} { return &lead19{} },
}
