package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

type oblResult struct {
	Name   string  `json:"name"`
	Func   string  `json:"func"`
	Kind   string  `json:"kind"`
	Pos    string  `json:"pos"`
	Text   string  `json:"text"`
	Status string  `json:"status"`
	Solver string  `json:"solver"`
	Secs   float64 `json:"secs"`
	Model  string  `json:"model,omitempty"`
	Query  string  `json:"query,omitempty"`
}

type unitResult struct {
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	File    string   `json:"file"`
	Err     string   `json:"err,omitempty"`
	Obls    int      `json:"obligations"`
	Proved  int      `json:"discharged"`
	Secs    float64  `json:"solver_secs"`
	Inlined []string `json:"inlined,omitempty"`
	Math    bool     `json:"math,omitempty"`
}

type result struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	LoadError   string         `json:"load_error,omitempty"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Covers      int            `json:"covers"`
	Backends    map[string]int `json:"backends"`
	SolverSecs  float64        `json:"solver_secs"`
	WallS       float64        `json:"wall_s"`
	Units       []unitResult   `json:"units"`
	Failed      []oblResult    `json:"failed"`
	Assumed     []string       `json:"assumed"`
}

func writeLoadFailure(file string, err error) {
	r := result{LoadError: err.Error()}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(file, b, 0o644)
}

func writeResult(P *Program, file, prop, tier string, units []*unit, wall float64) {
	r := result{Property: prop, Tier: tier, Backends: map[string]int{}, WallS: wall, Failed: []oblResult{}}
	left := 0
	assumed := map[string]bool{}
	impl := map[string]bool{}
	for _, u := range units {
		if u.impl != nil {
			impl[u.con.Key[strings.Index(u.con.Key, " as ")+4:]] = true
		}
	}
	for _, u := range units {
		ur := unitResult{Name: u.name, Kind: "function"}
		if u.lem != nil {
			ur.Kind = "lemma"
		} else if u.sum != nil {
			ur.Kind = "lemma"
		} else {
			ur.File = u.con.File
			ur.Math = u.con.Math
		}
		if u.fn != nil {
			ur.File = P.pos(u.fn.Pos())
		}
		if u.err != nil {
			ur.Err = u.err.Error()
			r.Units = append(r.Units, ur)
			r.Obligations++
			r.Failed = append(r.Failed, oblResult{Name: u.name + "/generate", Func: u.name, Kind: "undecided", Text: u.err.Error(), Status: "undecided", Pos: ur.File})
			continue
		}
		for _, o := range u.ctx.obls {
			ur.Obls++
			ur.Secs += o.Secs
			r.Obligations++
			if o.Status == "proved" {
				ur.Proved++
				r.Discharged++
				r.Backends[o.Solver]++
				continue
			}
			if o.Solver == "left out" {
				left++
				continue
			}
			res := oblResult{Name: o.Name, Func: o.Func, Kind: o.Kind, Pos: o.Pos, Text: o.Text, Status: o.Status, Solver: o.Solver, Secs: o.Secs, Model: o.Model}
			res.Query = u.ctx.smtText(o, false)
			r.Failed = append(r.Failed, res)
		}
		for _, o := range u.ctx.covers {
			r.Covers++
			ur.Secs += o.Secs
			if o.Status == "failed" {
				r.Failed = append(r.Failed, oblResult{Name: o.Name, Func: o.Func, Kind: "vacuous", Pos: o.Pos, Text: o.Text, Status: o.Status, Solver: o.Solver, Model: o.Model})
			}
		}
		for k := range u.ctx.assumed {
			if n, ok := strings.CutPrefix(k, "trusted contract: "); ok && impl[n] {
				continue // every implementation is verified in this run
			}
			assumed[k] = true
		}
		for _, e := range condEnsures(u.con) {
			assumed[e] = true
		}
		ur.Inlined = sortedKeys(u.ctx.inlined)
		if ur.Math {
			assumed["machine integers treated as mathematical integers in "+u.name] = true
		}
		r.SolverSecs += ur.Secs
		r.Units = append(r.Units, ur)
	}
	if left > 0 && len(r.Failed) == 0 {
		r.Failed = append(r.Failed, oblResult{Name: "verifier/budget", Func: prop, Kind: "undecided", Text: fmt.Sprintf("%d obligations were left out", left), Status: "undecided"})
	}
	r.Assumed = sortedKeys(assumed)
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(file, b, 0o644)
}

// condEnsures lists postconditions which are assumed rather than proved.
func condEnsures(con *Contract) []string {
	var out []string
	if con == nil {
		return nil
	}
	for _, e := range con.Ensures {
		if e.Trusted {
			out = append(out, "assumed postcondition of "+con.Key+": "+e.Text)
		}
	}
	for _, e := range con.Requires {
		if e.Trusted {
			out = append(out, "labels given to "+con.Key+": "+e.Text)
		}
	}
	return out
}

// rebind matches contracts of functions which were renamed: the only new
// function of the package with the same receiver and signature takes over.
func (P *Program) rebind(baseline string) {
	data, err := os.ReadFile(baseline)
	if err != nil {
		return
	}
	known := map[string]string{}
	for _, l := range strings.Split(string(data), "\n") {
		if k := strings.Index(l, " "); k > 0 {
			known[l[:k]] = l[k+1:]
		}
	}
	taken := map[string]bool{}
	for _, k := range append([]string{}, P.conOrder...) {
		con := P.contracts[k]
		if con.Trusted || P.fns[k] != nil {
			continue
		}
		sig, ok := known[k]
		if !ok {
			continue
		}
		var cands []string
		for fk, f := range P.fns {
			if _, old := known[fk]; old || taken[fk] {
				continue
			}
			if dirOf(fk) == dirOf(k) && sigStr(f.Signature) == sig {
				cands = append(cands, fk)
			}
		}
		sort.Strings(cands)
		if len(cands) == 1 {
			taken[cands[0]] = true
			con.Key = cands[0]
			P.contracts[cands[0]] = con
			delete(P.contracts, k)
			for i := range P.conOrder {
				if P.conOrder[i] == k {
					P.conOrder[i] = cands[0]
				}
			}
		}
	}
}

func dirOf(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		rest := k[i:]
		if j := strings.Index(rest, "."); j >= 0 {
			return k[:i+j]
		}
	}
	return k
}

func sigStr(s *types.Signature) string {
	r := ""
	if s.Recv() != nil {
		r = types.TypeString(s.Recv().Type(), nil) + " "
	}
	return r + types.TypeString(types.NewSignatureType(nil, nil, nil, noNames(s.Params()), noNames(s.Results()), s.Variadic()), nil)
}

func noNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}
