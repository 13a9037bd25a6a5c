//go:build verifsym

package vf

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
)

var debugging = os.Getenv("VF_DEBUG") != ""
var dbgForms = map[uint32]string{}

func (t *Term) str(d int) string {
	if t.k == kConst {
		return t.c.String()
	}
	if t.k == kVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	if t.k == kLin {
		var s []string
		if t.c.Sign() != 0 {
			s = append(s, t.c.String())
		}
		for _, m := range t.ms {
			s = append(s, m.c.String()+"·"+m.t.str(d-1))
		}
		return "(" + strings.Join(s, " + ") + ")"
	}
	if t.k == kIte {
		return fmt.Sprintf("ite(%s,%s,%s)", t.cond.str(d-1), t.a.str(d-1), t.b.str(d-1))
	}
	return fmt.Sprintf("k%d(%s,%s)", t.k, t.a.str(d-1), t.b.str(d-1))
}

func (f *Form) str(d int) string {
	if f.l != nil {
		return fmt.Sprintf("[f%d %s %v]", f.k, f.l.str(d), f.n)
	}
	var s []string
	for _, x := range f.subs {
		s = append(s, x.str(d))
	}
	return fmt.Sprintf("f%d{%s}", f.k, strings.Join(s, " "))
}

// VF_PROF: count where paths fork and where queries were forced.
var profiling = os.Getenv("VF_PROF") != ""

var (
	profMu sync.Mutex
	prof   = map[string]int{}
)

func profSite(kind string) {
	pc := make([]uintptr, 40)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	s := ""
	k := 0
	for {
		f, more := fr.Next()
		if !strings.Contains(f.File, "/vf/") && !strings.Contains(f.Function, "math/big") && !strings.Contains(f.Function, "cosmossdk.io/math") {
			s += fmt.Sprintf(" < %s:%d", f.Function[strings.LastIndex(f.Function, "/")+1:], f.Line)
			if k++; k == 4 {
				break
			}
		}
		if !more {
			break
		}
	}
	profMu.Lock()
	prof[kind+s]++
	profMu.Unlock()
}

func profDump() {
	var ks []string
	for k := range prof {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return prof[ks[i]] > prof[ks[j]] })
	for i, k := range ks {
		if i == 40 {
			break
		}
		fmt.Fprintln(os.Stderr, prof[k], k)
	}
}
