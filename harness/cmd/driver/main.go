package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"
)

type Result struct {
	Histories int            `json:"histories"`
	Leaves    int            `json:"leaves"`
	Tree      int            `json:"tree"`
	Made      int            `json:"made"`
	Kept      int            `json:"kept"`
	Events    int            `json:"events"`
	Ops       map[string]int `json:"ops"`
	Files     []string       `json:"files"`
	Wall      float64        `json:"wall"`
}

func main() {
	comp := flag.String("comp", "", "component")
	profile := flag.String("profile", "", "profile")
	seed := flag.Int64("seed", 1, "seed")
	traces := flag.Int("traces", 0, "random histories")
	length := flag.Int("len", 0, "calls per history")
	depth := flag.Int("depth", 0, "exhaustive depth")
	hunt := flag.Int("hunt", 0, "further histories, of which the new ones are recorded")
	huntMax := flag.Int("huntmax", 3000, "events recorded of these")
	huntSecs := flag.Float64("huntsecs", 8, "seconds for making them")
	out := flag.String("out", "", "trace file")
	flag.StringVar(&hangFile, "hang", "", "where to write the history of a call that hangs")
	syncFile := flag.String("sync", "", "log each call here before making it")
	tree := flag.String("tree", "", "make the calls of this tree, printed by a design model")
	replay := flag.String("replay", "", "replay the history in this file and print the events")
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(6 << 30)
	if *syncFile != "" {
		f, err := os.Create(*syncFile)
		if err != nil {
			fatal(err)
		}
		syncLog = f
	}
	go watchdog()
	p := Params{Profile: *profile, Seed: *seed, Traces: *traces, Len: *length, Depth: *depth}
	m := newMachine(*comp, p)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal(err)
		}
		var ops []Op
		if err := json.Unmarshal(b, &ops); err != nil {
			fatal(err)
		}
		m.Reset()
		for _, op := range ops {
			ev := runOp(m, op)
			ev.K = nil
			j, _ := json.Marshal(ev)
			fmt.Println(string(j))
		}
		return
	}
	t0 := time.Now()
	t := NewTracer()
	res := Result{}
	if p.Depth > 0 {
		res.Leaves = Exhaustive(m, t, p.Depth)
	}
	if *tree != "" {
		res.Tree = FollowTree(m, t, ReadTree(*tree))
		res.Leaves += res.Tree
	}
	hunting = *hunt > 0
	res.Histories = RandomHistories(m, t, p)
	if *hunt > 0 {
		var fs []found
		res.Made, fs = Hunt(m, p, *hunt, *huntMax, *huntSecs)
		res.Files, res.Kept, res.Events = WriteFound(Chosen(fs), t, *out, *huntMax)
	}
	if err := t.Write(*out); err != nil {
		fatal(err)
	}
	res.Events += len(t.nodes) - 1
	res.Ops = t.ops
	res.Wall = time.Since(t0).Seconds()
	b, _ := json.Marshal(res)
	fmt.Println(string(b))
}
