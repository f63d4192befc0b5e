//go:build go1.23

package common

// Shared part of the drivers. A driver performs the operations of the cases it is given on
// the real code and records what it observed. It contains no oracle.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"testing"
	"time"
)

type obj = map[string]any

// handler runs one case and returns its trace.
var handler func(t *testing.T, raw []byte) obj

func giveUp(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "driver: "+format+"\n", a...)
	os.Exit(77)
}

func must(err error) {
	if err != nil {
		giveUp("%v\n%s", err, debug.Stack())
	}
}

func TestDrive(t *testing.T) {
	in, err := os.Open(os.Getenv("VF_IN"))
	must(err)
	out, err := os.Create(os.Getenv("VF_OUT"))
	must(err)
	limit, _ := strconv.Atoi(os.Getenv("VF_CASE_TIMEOUT"))
	if limit == 0 {
		limit = 60
	}
	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			var hdr struct {
				ID int `json:"id"`
			}
			must(json.Unmarshal(line, &hdr))
			fmt.Fprintf(out, "#start %d\n", hdr.ID)
			timer := time.AfterFunc(time.Duration(limit)*time.Second, func() {
				fmt.Fprintf(os.Stderr, "case %d takes longer than %d s\n", hdr.ID, limit)
				os.Exit(78)
			})
			res := runCase(t, line)
			timer.Stop()
			res["id"] = hdr.ID
			b, err := json.Marshal(res)
			must(err)
			b = append(b, '\n')
			_, err = out.Write(b)
			must(err)
		}
		if err != nil {
			break
		}
	}
	fmt.Fprintf(out, "#end\n")
	must(out.Close())
}

func runCase(t *testing.T, line []byte) (res obj) {
	defer func() {
		if r := recover(); r != nil {
			res = obj{"died": fmt.Sprintf("panic: %v", r), "stderr": string(debug.Stack()), "steps": []any{}}
		}
	}()
	return handler(t, line)
}

// guard runs f and tells whether it panicked.
func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	f()
	return ""
}

func u64(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	must(err)
	return n
}
