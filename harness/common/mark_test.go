//go:build go1.23

package common

import (
	"bytes"
	"io"
)

type marker interface {
	WriteLocked(locked bool, file io.WriteSeeker) error
	IsLocked(file io.ReadSeeker) (bool, error)
}

// markOp is an operation on the mark, with a fault of its at-th file operation if at isn't 0.
type markOp struct {
	E           string
	P           int
	At, N, Part int
}

// marks sets and reads the mark of a file.
func marks(p marker, image []int, short int, ops []markOp) obj {
	img := make([]byte, len(image))
	for i, v := range image {
		img[i] = byte(v)
	}
	f := &jfile{data: bytes.Clone(img), short: short}
	steps := []obj{}
	for _, o := range ops {
		s := obj{"e": o.E, "p": o.P, "a": false}
		if o.At > 0 {
			f.arm(o.At, o.N, o.Part, true)
		}
		msg := guard(func() {
			var err error
			switch o.E {
			case "lock":
				err = p.WriteLocked(true, f)
			case "unlock":
				err = p.WriteLocked(false, f)
			case "asked":
				s["a"], err = p.IsLocked(f)
			case "move":
				_, err = f.Seek(int64(o.P), io.SeekStart)
				must(err)
			default:
				giveUp("unknown op %s", o.E)
			}
			s["ok"] = err == nil
		})
		s["faulted"] = f.faulted
		f.arm(0, 0, 0, false)
		s["pos"], s["data"] = int(f.pos), intsOf(f.data)
		if msg != "" {
			s["e"], s["msg"] = "panic", msg
			steps = append(steps, s)
			break
		}
		steps = append(steps, s)
	}
	return obj{"img": intsOf(img), "steps": steps}
}
