package engine

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"testing"
)

// Main runs one property check (driver), one shard of it (worker) or a saved case (replay).
func Main() {
	testing.Init()
	var (
		worker = flag.Bool("worker", false, "")
		id     = flag.String("p", "", "property")
		tier   = flag.String("tier", "quick", "")
		seed   = flag.Uint64("seed", 1, "")
		shard  = flag.Int("shard", 0, "")
		shards = flag.Int("shards", 0, "")
		out    = flag.String("out", "", "")
		cur    = flag.String("cur", "", "")
		root   = flag.String("root", "/verif", "")
		replay = flag.String("replay", "", "")
		list   = flag.Bool("list", false, "")
	)
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	if *list {
		for _, p := range Props() {
			for _, s := range p.Subs {
				fmt.Println(p.ID, s.Name, s.Quick, s.Thorough)
			}
		}
		return
	}
	if *replay != "" {
		os.Exit(Replay(*replay))
	}
	if *worker {
		os.Exit(Worker(*id, *tier, *seed, *shard, *shards, *out, *cur))
	}
	findings, e := LoadFindings(filepath.Join(*root, "known-findings.txt"))
	if e != nil {
		fmt.Println(e)
		os.Exit(2)
	}
	work, e := os.MkdirTemp("", "verif-work-")
	if e != nil {
		fmt.Println(e)
		os.Exit(2)
	}
	code := Run(&Config{ID: *id, Tier: *tier, Seed: *seed, Root: *root, WorkDir: work, Shards: *shards, Findings: findings})
	os.RemoveAll(work)
	os.Exit(code)
}
