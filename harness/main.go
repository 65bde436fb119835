package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type M = map[string]interface{}

// A Maker produces case number idx of a property: it makes an input, runs the
// real code on it and returns the record that the specification judges.
// Returning nil skips the index.
type Maker func(r *rand.Rand, idx int, tier string) M

var makers = map[string]Maker{}

// spec generated behaviours are replayed by these: one line of the file in,
// one record out (nil: skip)
type Replayer func(line []byte, idx int) M

var replayers = map[string]Replayer{}

func rng(seed, idx int64, prop string) *rand.Rand {
	h := uint64(seed)*0x9E3779B97F4A7C15 + uint64(idx)*0xBF58476D1CE4E5B9 + 12345
	for _, c := range prop {
		h = h*31 + uint64(c)
	}
	h ^= h >> 29
	h *= 0x94D049BB133111EB
	h ^= h >> 32
	return rand.New(rand.NewSource(int64(h)))
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: kv shard|one PROP flags")
		os.Exit(2)
	}
	cmd, prop := os.Args[1], os.Args[2]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 100, "")
	step := fs.Int("step", 1, "")
	idxf := fs.Int("idx", 0, "")
	skip := fs.String("skip", "", "")
	out := fs.String("out", "", "")
	in := fs.String("in", "", "behaviours file")
	tier := fs.String("tier", "quick", "")
	progress := fs.String("progress", "", "")
	maxms := fs.Int("casems", 20000, "time limit of one case")
	budget := fs.Int("budget", 0, "stop generating after so many seconds (0: never)")
	fs.Parse(os.Args[3:])
	debug.SetMaxStack(256 << 20)
	switch cmd {
	case "one":
		var started int64
		go watchdog(&started, time.Duration(*maxms)*time.Millisecond)
		started = time.Now().UnixNano()
		var rec M
		if *in != "" {
			b, err := os.ReadFile(*in)
			if err != nil {
				panic(err)
			}
			lines := strings.Split(string(b), "\n")
			i := *idxf
			if i >= len(lines)-1 {
				i = 0 // a file with the one line
			}
			rec = replayers[prop]([]byte(lines[i]), *idxf)
		} else {
			rec = makers[prop](rng(*seed, int64(*idxf), prop), *idxf, *tier)
		}
		rec["id"] = *idxf
		stdout.Write(mustJSON(rec))
	case "shard":
		skips := map[int]bool{}
		for _, s := range strings.Split(*skip, ",") {
			if s != "" {
				i, _ := strconv.Atoi(s)
				skips[i] = true
			}
		}
		var lines [][]byte
		if *in != "" {
			f, err := os.Open(*in)
			if err != nil {
				panic(err)
			}
			sc := bufio.NewScanner(f)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				lines = append(lines, append([]byte(nil), sc.Bytes()...))
			}
			if *to > len(lines) {
				*to = len(lines)
			}
		}
		f, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
		if err != nil {
			panic(err)
		}
		pf, err := os.OpenFile(*progress, os.O_CREATE|os.O_WRONLY, 0644)
		if err != nil {
			panic(err)
		}
		var started int64
		go watchdog(&started, time.Duration(*maxms)*time.Millisecond)
		w := bufio.NewWriterSize(f, 1<<20)
		buf := make([]byte, 8)
		t0 := time.Now()
		for i := *from; i < *to; i += *step {
			if skips[i] {
				continue
			}
			if *budget > 0 && time.Since(t0) > time.Duration(*budget)*time.Second {
				break
			}
			binary.LittleEndian.PutUint64(buf, uint64(i))
			pf.WriteAt(buf, 0)
			atomic.StoreInt64(&started, time.Now().UnixNano())
			var rec M
			if *in != "" {
				rec = replayers[prop](lines[i], i)
			} else {
				rec = makers[prop](rng(*seed, int64(i), prop), i, *tier)
			}
			if rec == nil {
				continue
			}
			rec["id"] = i
			w.Write(mustJSON(rec))
			w.Flush()
		}
		atomic.StoreInt64(&started, 0)
		f.Close()
		binary.LittleEndian.PutUint64(buf, ^uint64(0))
		pf.WriteAt(buf, 0)
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// watchdog ends the process when one case takes too long or too much memory.
func watchdog(started *int64, max time.Duration) {
	for {
		time.Sleep(50 * time.Millisecond)
		s := atomic.LoadInt64(started)
		if s != 0 && time.Since(time.Unix(0, s)) > max {
			fmt.Fprintln(os.Stderr, "verif: case timed out")
			buf := make([]byte, 16384)
			n := runtime.Stack(buf, true)
			os.Stderr.Write(buf[:n])
			os.Exit(7)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 2500<<20 {
			fmt.Fprintln(os.Stderr, "verif: case used too much memory")
			os.Exit(8)
		}
	}
}

var _ = json.Marshal
