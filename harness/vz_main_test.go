package gojsonsm

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"testing"
	"time"
)

type vzCase struct {
	H  string   `json:"h"`
	In []uint64 `json:"in"`
}
type vzResult struct {
	Obs    []string `json:"obs"`
	Fails  []string `json:"fails"`
	Panic  string   `json:"panic"`
	Assume bool     `json:"assume"`
	Hang   bool     `json:"hang"`
	Done   bool     `json:"done"`
}

func vzRunCase(c vzCase) (r vzResult) {
	vzS = &vzState{in: c.In}
	s := vzS
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(vzStop); !ok {
				r.Panic = fmt.Sprint("panic: ", p)
			}
		}
		r.Obs, r.Fails, r.Assume, r.Done = s.obs, s.fails, s.assume, true
	}()
	f := vzHarnesses[c.H]
	if f == nil {
		g := vzHarnessesS[c.H]
		if g == nil {
			r.Panic = "no harness " + c.H
			return
		}
		f = g()
	}
	f()
	return
}

func TestVzReplay(t *testing.T) {
	in := os.Getenv("VZ_IN")
	if in == "" {
		t.Skip()
	}
	vzThoroughFlag = os.Getenv("VZ_THOROUGH") == "1"
	b, err := os.ReadFile(in)
	if err != nil {
		t.Fatal(err)
	}
	var cs []vzCase
	if err := json.Unmarshal(b, &cs); err != nil {
		t.Fatal(err)
	}
	out, err := os.Create(os.Getenv("VZ_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	for _, c := range cs {
		ch := make(chan vzResult, 1)
		go func() { ch <- vzRunCase(c) }()
		select {
		case r := <-ch:
			j, _ := json.Marshal(r)
			out.Write(append(j, '\n'))
		case <-time.After(10 * time.Second):
			j, _ := json.Marshal(vzResult{Hang: true, Done: true})
			out.Write(append(j, '\n'))
			out.Close()
			os.Exit(3)
		}
	}
	out.Close()
}

func TestVzServe(t *testing.T) {
	if os.Getenv("VZ_SERVE") == "" {
		t.Skip()
	}
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		var rq map[string]string
		json.Unmarshal(sc.Bytes(), &rq)
		res := map[string]interface{}{}
		if rq["kind"] == "tree" {
			fe, errs := vzParseTree(rq["text"])
			res["err"] = errs
			res["v"] = vzDump(reflect.ValueOf(fe))
		} else {
			e, errs := vzParseText(rq["kind"], rq["text"])
			res["err"] = errs
			if errs == "" {
				res["v"] = vzDump(reflect.ValueOf(&e).Elem())
			}
		}
		j, _ := json.Marshal(res)
		fmt.Printf("\nVZ:%s\n", j)
	}
}

func vzParseTree(text string) (fe *FilterExpression, errs string) {
	defer func() {
		if r := recover(); r != nil {
			fe, errs = nil, fmt.Sprintf("panic: %v", r)
		}
	}()
	_, fe, err := NewFilterExpressionParser(text)
	if err != nil {
		errs = "error: " + err.Error()
	}
	return fe, errs
}
