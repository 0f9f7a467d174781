package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"time"
)

type stats struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Samples     []string `json:"samples"`
	Cases       int      `json:"cases"`
	seen        map[uint64]bool
}

func (s *stats) add(in, out string) {
	s.Evaluations++
	if out == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(in))
	if k := h.Sum64(); !s.seen[k] {
		s.seen[k] = true
		s.Distinct++
		if len(s.Samples) < 5 && len(in) > 60 && len(in) < 400 {
			s.Samples = append(s.Samples, in+"  =>  "+out)
		}
	}
}

// a case generator: one random case per call
type suite func(r *rand.Rand, st *stats) *failure

var suites = map[string][]suite{}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Float64("time", 10, "seconds")
	max := flag.Int("n", 1<<30, "cases")
	out := flag.String("out", "", "where to describe a failure")
	one := flag.Int64("case", -1, "run this case only")
	which := flag.Int("suite", 0, "of this suite")
	flag.Parse()
	ss := suites[*prop]
	if len(ss) == 0 {
		fmt.Println("no suite for", *prop)
		os.Exit(3)
	}
	st := &stats{seen: map[uint64]bool{}}
	fail := func(s int, c int64, f *failure) {
		txt := fmt.Sprintf("property %s is violated\nsuite %d, seed %d, case %d\n\n%s\n\ninput:\n   %s\n\nexpected: %q\n\nactual:   %q\n\nagain: /verif/replay.sh %s -seed %d -suite %d -case %d\n",
			*prop, s, *seed, c, f.what, f.in, f.want, f.got, *prop, *seed, s, c)
		fmt.Print(txt)
		if *out != "" {
			_ = os.WriteFile(*out, []byte(txt), 0o644)
		}
		os.Exit(1)
	}
	run := func(s int, c int64) *failure {
		return ss[s](rand.New(rand.NewSource(*seed*1_000_003+c*7919+int64(s)*104729)), st)
	}
	if *one >= 0 {
		if f := run(*which, *one); f != nil {
			fail(*which, *one, f)
		}
		fmt.Println("holds")
		return
	}
	start := time.Now()
	for c := int64(0); c < int64(*max); c++ {
		for s := range ss {
			st.Cases++
			if f := run(s, c); f != nil {
				fail(s, c, f)
			}
		}
		if c%16 == 0 && time.Since(start).Seconds() > *secs {
			break
		}
	}
	b, _ := json.Marshal(st)
	fmt.Println("STATS", string(b))
}
