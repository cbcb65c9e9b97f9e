package gap

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"
)

var vseen = map[string]bool{}

func report(key, what string, in, got, want any) {
	if vseen[key] {
		return
	}
	vseen[key] = true
	b, _ := json.Marshal(map[string]any{"key": key, "what": what, "input": in, "got": got, "want": want})
	fmt.Println("FAILINPUT " + string(b))
}

type op struct {
	Op    string
	Gap   Single
	Width int64
	Safe  bool
}

// drain asks for every gap, whatever its width.
func drain(p *Pool) (gs []Single) {
	for i := 0; i < 1000; i++ {
		g, ok := p.GetSingle(1, false)
		if !ok {
			break
		}
		gs = append(gs, g)
	}
	return
}

func key(gs []Single) string {
	s := []string{}
	for _, g := range gs {
		s = append(s, fmt.Sprint(g))
	}
	sort.Strings(s)
	return fmt.Sprint(s)
}

func run(ops []op) {
	defer func() {
		if r := recover(); r != nil {
			report("panic", "pool operation panics", ops, fmt.Sprint(r), "no panic")
		}
	}()
	p := &Pool{}
	var model []Single
	for i, o := range ops {
		if o.Op == "add" {
			p.Add(o.Gap)
			model = append(model, o.Gap)
			continue
		}
		g, ok := p.GetSingle(o.Width, o.Safe)
		best := int64(-1)
		for _, m := range model {
			w := m.EndBit - m.StartBit + 1
			if w >= o.Width && (!o.Safe || m.WriteSafe) && (best < 0 || w < best) {
				best = w
			}
		}
		if ok != (best >= 0) {
			report("found", "a gap is reported although none suits, or the other way round", ops[:i+1], ok, best >= 0)
			return
		}
		if !ok {
			continue
		}
		at := -1
		for k, m := range model {
			if m == g {
				at = k
			}
		}
		if at < 0 {
			report("foreign", "the returned gap is not in the pool", ops[:i+1], g, model)
			return
		}
		if w := g.EndBit - g.StartBit + 1; w < o.Width || (o.Safe && !g.WriteSafe) {
			report("unsuitable", "the returned gap is too narrow or not write safe", ops[:i+1], g, o)
			return
		} else if w != best {
			report("widest", "a narrower suitable gap was available", ops[:i+1], g, best)
			return
		}
		model = append(model[:at:at], model[at+1:]...)
	}
	if got := drain(p); key(got) != key(model) {
		report("content", "content of the pool after the operations", ops, got, model)
	}
}

func TestVerifC03(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET"))
	if budget == 0 {
		budget = 10
	}
	rnd := rand.New(rand.NewSource(seed))
	end := time.Now().Add(time.Duration(budget) * time.Second / 4)
	cases := 0
	for time.Now().Before(end) {
		var ops []op
		n := 1 + rnd.Intn(14)
		for i := 0; i < n; i++ {
			if rnd.Intn(5) < 3 {
				sb := rnd.Int63n(8)
				ops = append(ops, op{Op: "add", Gap: Single{Addr: int64(i), StartBit: sb, EndBit: sb + rnd.Int63n(6), WriteSafe: rnd.Intn(2) == 0}})
			} else {
				ops = append(ops, op{Op: "get", Width: 1 + rnd.Int63n(6), Safe: rnd.Intn(2) == 0})
			}
		}
		run(ops)
		cases++
	}
	fmt.Printf("STATS {\"operation sequences\": %d}\n", cases)
}
