//go:build go1.23

package names

import (
	"encoding/json"
	"recengine/internal/domain/valueobjects"
	"testing"
	"unicode/utf8"
)

type ncase struct {
	Ops []struct {
		E string
		S []int // code points; 10^7+b is the raw byte b
	} `json:"ops"`
}

func str(cps []int) string {
	b := []byte{}
	for _, c := range cps {
		if c >= 10000000 {
			b = append(b, byte(c-10000000))
		} else {
			b = utf8.AppendRune(b, rune(c))
		}
	}
	return string(b)
}

func init() {
	handler = func(t *testing.T, raw []byte) obj {
		var c ncase
		must(json.Unmarshal(raw, &c))
		steps := []obj{}
		for _, o := range c.Ops {
			s := obj{"e": o.E, "s": o.S, "kept": false}
			in := str(o.S)
			msg := guard(func() {
				switch o.E {
				case "name":
					n, err := valueobjects.ParseNamespaceName(in)
					s["accepted"], s["kept"] = err == nil, n.Value() == in
				case "type":
					n, err := valueobjects.ParseNamespaceType(in)
					s["accepted"], s["kept"] = err == nil, n.Value() == in
				case "liketype":
					s["kept"] = valueobjects.MakeLikeNamespaceType().Value() == in
				}
			})
			if msg != "" {
				s["e"], s["msg"] = "panic", msg
			}
			steps = append(steps, s)
		}
		return obj{"steps": steps}
	}
}
