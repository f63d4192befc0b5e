//go:build go1.23

package profile

import (
	"encoding/json"
	"math"
	"recengine/internal/domain"
	"strconv"
	"testing"
)

type pcase struct {
	IDs      []string `json:"ids"` // ascending ids the ranks stand for
	Profiles int      `json:"profiles"`
	Obs      int      `json:"obs"`   // observe after every Obs steps
	Users    uint64   `json:"users"` // distance of the ids of users
	// Where the profiles come from (modulo its length): "" made by NewProfile, "literal" without
	// lists, "room" with lists that have room to grow, "json" decoded
	Origin []string `json:"origin"`
	// An id stands for this many real ones from it on, in steps of Stride
	Block  int    `json:"block"`
	Stride uint64 `json:"stride"`
	Ops    []struct {
		E           string
		P, Q, I     int
		A, B, Scale int
		F           string // the factor, if not A/B
		Tiny        bool
		L, D        []int
	} `json:"ops"`
}

func init() {
	handler = func(t *testing.T, raw []byte) obj {
		var c pcase
		must(json.Unmarshal(raw, &c))
		ids := make([]uint64, len(c.IDs))
		rank := map[uint64]int{}
		for i, s := range c.IDs {
			ids[i] = u64(s)
			rank[ids[i]] = i
		}
		if c.Block == 0 {
			c.Block = 1
		}
		// The real ids of an id, in an order that varies
		turn := 0
		block := func(i int) []uint64 {
			turn++
			b := make([]uint64, c.Block)
			for k := range b {
				j := k
				switch {
				case turn%3 == 1:
					j = c.Block - 1 - k
				case turn%3 == 2 && k%2 == 1:
					j = c.Block - 1 - k + 1 - c.Block%2
				}
				b[k] = ids[i] + uint64(j)*c.Stride
			}
			return b
		}
		each := func(i int, f func(id uint64)) {
			for _, id := range block(i) {
				f(id)
			}
		}
		// Complete blocks in order become their id, anything else -1
		ranks := func(a []uint64) []int {
			if c.Block > 1 {
				starts := []uint64{}
				for len(a) > 0 {
					n := 0
					for n < len(a) && n < c.Block && a[n] == a[0]+uint64(n)*c.Stride {
						n++
					}
					if n < c.Block {
						starts = append(starts, ^uint64(0))
						break
					}
					starts = append(starts, a[0])
					a = a[n:]
				}
				a = starts
			}
			r := make([]int, len(a))
			for i, v := range a {
				n, ok := rank[v]
				if !ok {
					n = -1
				}
				r[i] = n
			}
			return r
		}
		ps := make([]*domain.Profile, c.Profiles)
		for i := range ps {
			u := uint64(i) * c.Users
			origin := ""
			if len(c.Origin) > 0 {
				origin = c.Origin[i%len(c.Origin)]
			}
			switch origin {
			case "literal":
				ps[i] = &domain.Profile{UserID: u}
			case "room":
				ps[i] = &domain.Profile{UserID: u, Likes: make([]uint64, 0, 5), Dislikes: make([]uint64, 2, 50)[:0]}
			case "json":
				ps[i] = &domain.Profile{}
				must(json.Unmarshal([]byte(`{"user":`+strconv.FormatUint(u, 10)+`,"likes":[],"dislikes":null}`), ps[i]))
			default:
				ps[i] = domain.NewProfile(u)
			}
		}
		steps := []obj{}
		for k, o := range c.Ops {
			s := obj{"e": o.E, "p": o.P, "i": o.I}
			msg := guard(func() {
				switch o.E {
				case "like":
					each(o.I, ps[o.P].Like)
				case "dislike":
					each(o.I, ps[o.P].Dislike)
				case "unlike":
					each(o.I, ps[o.P].Unlike)
				case "undislike":
					each(o.I, ps[o.P].Undislike)
				case "remove":
					each(o.I, ps[o.P].RemoveItem)
				case "have":
					// interleaved, in the order given
					for k := 0; k < len(o.L) || k < len(o.D); k++ {
						if k < len(o.L) {
							each(o.L[k], ps[o.P].Like)
						}
						if k < len(o.D) {
							each(o.D[k], ps[o.P].Dislike)
						}
					}
					s["l"], s["d"] = o.L, o.D
				case "sim":
					factor := float32(o.A) / float32(o.B)
					if o.F != "" {
						x, err := strconv.ParseFloat(o.F, 32)
						if err != nil {
							giveUp("%v", err)
						}
						factor = float32(x)
					}
					v := ps[o.P].ComputeSimilarity(*ps[o.Q], factor)
					f := float64(v)
					s["q"], s["a"], s["b"], s["scale"], s["tiny"] = o.Q, o.A, o.B, o.Scale, o.Tiny
					s["finite"] = !math.IsNaN(f) && !math.IsInf(f, 0)
					s["inrange"] = f >= 0 && f <= 100
					if f >= -1e3 && f <= 1e3 {
						s["v"] = int(math.Round(f * float64(o.Scale)))
					} else {
						s["v"] = -1
					}
				default:
					giveUp("unknown op %s", o.E)
				}
			})
			if msg != "" {
				s["e"], s["msg"], s["obs"] = "panic", msg, []obj{}
				steps = append(steps, s)
				break
			}
			obs := []obj{}
			if c.Obs > 0 && (k+1)%c.Obs == 0 || k == len(c.Ops)-1 {
				for _, p := range ps {
					q := make([]int, len(ids))
					for i, id := range ids {
						q[i] = p.QualifyItem(id)
						for k := 1; k < c.Block; k++ {
							if p.QualifyItem(id+uint64(k)*c.Stride) != q[i] {
								q[i] = 9 // differs within the block
							}
						}
					}
					obs = append(obs, obj{"likes": ranks(p.Likes), "dislikes": ranks(p.Dislikes), "q": q})
				}
			}
			s["obs"] = obs
			steps = append(steps, s)
		}
		return obj{"items": len(ids), "steps": steps}
	}
}
