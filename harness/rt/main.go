package rt

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/milkyway-labs/milkyway/v3/verifh/clock"
)

type item struct {
	Harness string
	Inputs  map[string]string
	Known   map[string]bool
	Tier    string
}

type result struct {
	Failed   string            `json:"failed"`
	Observed map[string]string `json:"observed"`
	Reached  map[string]int    `json:"reached"`
	KnownHit []string          `json:"known"`
}

// Main replays the inputs of os.Args[1] and writes the results to os.Args[2].
func Main(fns map[string]func()) {
	bz, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var items []item
	if err := json.Unmarshal(bz, &items); err != nil {
		panic(err)
	}
	res := []result{}
	for _, it := range items {
		f, ok := fns[it.Harness]
		if !ok {
			panic("no harness " + it.Harness)
		}
		R = &Replay{Inputs: it.Inputs, Known: it.Known, Tier: it.Tier}
		clock.Other = false
		failed := Run(f)
		for i := 0; failed == "" && R.Random && i < 200; i++ {
			R = &Replay{Inputs: it.Inputs, Known: it.Known, Tier: it.Tier}
			clock.Other = false
			failed = Run(f)
		}
		if failed != "" && os.Getenv("RT_VERBOSE") != "" {
			fmt.Println(it.Harness, failed)
		}
		res = append(res, result{failed, R.Observed, R.Reached, R.KnownHit})
	}
	out, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(os.Args[2], out, 0o644); err != nil {
		panic(err)
	}
}
