//go:build go1.23

package sortedarray

import (
	"encoding/json"
	"math/rand"
	"recengine/internal/helpers"
	"strconv"
	"testing"
)

type aop struct {
	E     string
	V, I  int
	B     []int
	Spare int
	Q     []struct {
		E string
		V int
	}
}

type acase struct {
	Base   string `json:"base"`
	Stride string `json:"stride"`
	Type   string `json:"type"`
	Block  int    `json:"block"` // a rank stands for so many successive values (0: one)
	Ops    []aop  `json:"ops"`
}

// The values the ranks stand for
type scale[T helpers.Numeric] struct {
	of   func(rank int) T
	rank func(v T) int
}

func run[T helpers.Numeric](ops []aop, sc scale[T]) []obj {
	ranks := func(a []T) []int {
		r := make([]int, len(a))
		for i, v := range a {
			r[i] = sc.rank(v)
		}
		return r
	}
	search := func(arr []T, e string, v int) int {
		switch e {
		case "find":
			return helpers.BinaryIndexOf(arr, sc.of(v))
		case "closest":
			return helpers.BinaryIndexOfClosest(arr, sc.of(v))
		case "indexof":
			return helpers.IndexOf(arr, sc.of(v))
		}
		giveUp("unknown op %s", e)
		return 0
	}
	var arr []T
	steps := []obj{}
	for _, o := range ops {
		s := obj{"e": o.E, "v": o.V, "i": o.I}
		msg := guard(func() {
			switch o.E {
			case "init":
				arr = make([]T, 0, len(o.B)+o.Spare)
				for _, v := range o.B {
					arr = append(arr, sc.of(v))
				}
				for i, a := 0, arr[:cap(arr)]; i < o.Spare; i++ {
					a[len(o.B)+i] = sc.of(i) // what was there before
				}
			case "find", "closest", "indexof":
				s["r"] = search(arr, o.E, o.V)
			case "many":
				q := []obj{}
				for _, x := range o.Q {
					q = append(q, obj{"e": x.E, "v": x.V, "r": search(arr, x.E, x.V)})
				}
				s["q"] = q
			case "insertat":
				arr = helpers.Insert(arr, o.I, sc.of(o.V))
			case "insert":
				arr = helpers.InsertSavingOrder(arr, sc.of(o.V))
			case "put":
				arr = helpers.PutSavingOrder(arr, sc.of(o.V))
			case "removeat":
				arr = helpers.RemoveSavingOrder(arr, o.I)
			case "remove":
				arr = helpers.Remove(arr, o.I)
			default:
				giveUp("unknown op %s", o.E)
			}
		})
		if msg != "" {
			s["e"], s["msg"] = "panic", msg
		}
		s["b"] = ranks(arr)
		steps = append(steps, s)
		if msg != "" {
			break
		}
	}
	return steps
}

func linear[T helpers.Numeric](base, stride float64) scale[T] {
	return scale[T]{
		of: func(rank int) T { return T(base + float64(rank)*stride) },
		rank: func(v T) int {
			for k := 0; k < 5000; k++ {
				if T(base+float64(k)*stride) == v {
					return k
				}
			}
			return -1
		},
	}
}

// runBlocks is run for arrays of which every rank stands for a block of successive values.
func runBlocks(ops []aop, base, stride uint64, width int) []obj {
	rnd := rand.New(rand.NewSource(int64(width)))
	of := func(rank, k int) uint64 { return base + uint64(rank)*stride + uint64(k) }
	ranks := func(a []uint64) []int {
		r := []int{}
		for i := 0; i < len(a); i += width {
			rank := int((a[i] - base) / stride)
			for k := range width {
				if i+k >= len(a) || a[i+k] != of(rank, k) {
					rank = -1
					break
				}
			}
			r = append(r, rank)
		}
		return r
	}
	// offsets within a block, in any order: all of them or a few
	order := func(all bool) []int {
		if all {
			return rnd.Perm(width)
		}
		r := []int{0, width - 1, width / 2}
		for range 12 {
			r = append(r, rnd.Intn(width))
		}
		return r
	}
	var arr []uint64
	search := func(e string, v int) int {
		res := -2
		for _, k := range order(false) {
			var at int
			switch e {
			case "find":
				at = helpers.BinaryIndexOf(arr, of(v, k))
			case "indexof":
				at = helpers.IndexOf(arr, of(v, k))
			case "closest":
				at = helpers.BinaryIndexOfClosest(arr, of(v, k))
			default:
				giveUp("unknown op %s", e)
			}
			if at >= 0 && at < len(arr) && arr[at] != of(v, k) && e == "closest" {
				// none is equal: the end of a block that is nearer
				if arr[at] < of(v, k) && at%width == width-1 || arr[at] > of(v, k) && at%width == 0 {
					return at / width
				}
				return -9
			}
			one := -9
			if at == -1 {
				one = -1
			} else if at >= 0 && at%width == k {
				one = at / width
			}
			if res != -2 && one != res {
				return -9
			}
			res = one
		}
		return res
	}
	steps := []obj{}
	for _, o := range ops {
		s := obj{"e": o.E, "v": o.V, "i": o.I}
		msg := guard(func() {
			switch o.E {
			case "init":
				arr = make([]uint64, 0, len(o.B)*width+o.Spare)
				for _, v := range o.B {
					for k := range width {
						arr = append(arr, of(v, k))
					}
				}
			case "many":
				q := []obj{}
				for _, x := range o.Q {
					q = append(q, obj{"e": x.E, "v": x.V, "r": search(x.E, x.V)})
				}
				s["q"] = q
			case "insert":
				for _, k := range order(true) {
					arr = helpers.InsertSavingOrder(arr, of(o.V, k))
				}
			case "put":
				for _, k := range order(true) {
					arr = helpers.PutSavingOrder(arr, of(o.V, k))
				}
			case "insertat":
				for k := range width {
					arr = helpers.Insert(arr, o.I*width+k, of(o.V, k))
				}
			case "removeat":
				for k := width; k > 0; k-- {
					arr = helpers.RemoveSavingOrder(arr, o.I*width+rnd.Intn(k))
				}
			default:
				giveUp("unknown op %s", o.E)
			}
		})
		if msg != "" {
			s["e"], s["msg"] = "panic", msg
		}
		s["b"] = ranks(arr)
		steps = append(steps, s)
		if msg != "" {
			break
		}
	}
	return steps
}

func init() {
	handler = func(t *testing.T, raw []byte) obj {
		var c acase
		must(json.Unmarshal(raw, &c))
		if c.Type != "" && c.Type != "uint64" {
			base, err := strconv.ParseFloat(c.Base, 64)
			must(err)
			stride, err := strconv.ParseFloat(c.Stride, 64)
			must(err)
			var steps []obj
			switch c.Type {
			case "uint8":
				steps = run(c.Ops, linear[uint8](base, stride))
			case "uint16":
				steps = run(c.Ops, linear[uint16](base, stride))
			case "uint32":
				steps = run(c.Ops, linear[uint32](base, stride))
			case "int":
				steps = run(c.Ops, linear[int](base, stride))
			case "int8":
				steps = run(c.Ops, linear[int8](base, stride))
			case "int16":
				steps = run(c.Ops, linear[int16](base, stride))
			case "int32":
				steps = run(c.Ops, linear[int32](base, stride))
			case "int64":
				steps = run(c.Ops, linear[int64](base, stride))
			case "float32":
				steps = run(c.Ops, linear[float32](base, stride))
			case "float64":
				steps = run(c.Ops, linear[float64](base, stride))
			default:
				giveUp("unknown type %s", c.Type)
			}
			return obj{"steps": steps}
		}
		base, stride := u64(c.Base), u64(c.Stride)
		if c.Block > 1 {
			return obj{"steps": runBlocks(c.Ops, base, stride, c.Block)}
		}
		return obj{"steps": run(c.Ops, scale[uint64]{
			of: func(v int) uint64 { return base + uint64(v)*stride },
			rank: func(v uint64) int {
				if v < base || (v-base)%stride != 0 || (v-base)/stride > 1<<20 {
					return -1
				}
				return int((v - base) / stride)
			},
		})}
	}
}
