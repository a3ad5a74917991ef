package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"strconv"

	"github.com/akm/tparser/log"
)

type nolog struct{}

func (nolog) Printf(string, ...interface{}) {}

func main() {
	log.SetLogger(nolog{})
	stop := startProf()
	defer stop()
	switch os.Args[1] {
	case "check":
		seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			seed = 1
		}
		os.Exit(parent(os.Args[2], os.Args[3], seed, os.Args[4]))
	case "worker":
		seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
		shard, _ := strconv.Atoi(os.Args[5])
		shards, _ := strconv.Atoi(os.Args[6])
		os.Exit(worker(os.Args[2], os.Args[3], seed, shard, shards, os.Args[7]))
	case "replay":
		code := replay(os.Args[2])
		stop()
		os.Exit(code)
	case "parsefile":
		parseFileMain(os.Args[2])
	case "one":
		oneMain()
	case "conc":
		concMain()
	case "probe":
		b, _ := ioutil.ReadAll(os.Stdin)
		text := []rune(string(b))
		o := parseMode(os.Args[2], text)
		if o.err != nil {
			fmt.Println("ERR", o.err)
			return
		}
		d := NewDumper()
		d.AddSource("P", sigToks(text))
		fmt.Println(d.Dump(dumpPart{"P", o.node})[0])
	case "try":
		n, _ := strconv.Atoi(os.Args[3])
		from := 0
		if len(os.Args) > 4 {
			from, _ = strconv.Atoi(os.Args[4])
		}
		bad := 0
		for k := from; k < from+n; k++ {
			c := caseCfg{mode: os.Args[2], size: 20 + k%80, depth: 4, wantCls: k % 6, rich: k%3 == 0, compute: true}
			m := makeMem(int64(k), c)
			for v := 0; v < 3; v++ {
				r := rand.New(rand.NewSource(int64(k*10 + v)))
				rd := m.render(r, style{layout: []int{0, 1, 2}[v], cases: v * 2 % 5})
				if s := m.check(rd); s != "" {
					fmt.Printf("case %d variant %d: %s\n%s\n\n", k, v, s, string(rd.text))
					bad++
					break
				}
			}
			if bad > 2 {
				break
			}
		}
		fmt.Println("bad", bad)
	}
}
