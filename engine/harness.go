package main

import (
	"encoding/json"
	"os"
)

// Harness is one symbolic test driver together with its bounds.
type Harness struct {
	Name      string
	Func      string
	Conf      map[string]interface{}
	Sched     bool
	Preempt   int
	MapOrder  bool
	Coarse    bool
	Monotone  bool
	StepLimit int64
	QueryMS   int
	verbose   bool
	mv        int
}

func (h *Harness) qtmo() int {
	if h.QueryMS > 0 {
		return h.QueryMS
	}
	return 4000
}

func (h *Harness) maxViol() int {
	if h.mv > 0 {
		return h.mv
	}
	return 3
}

// HSpec describes a harness in harness/spec.json.
type HSpec struct {
	Name      string                 `json:"name"`
	Dir       string                 `json:"dir"`   // module directory relative to the repository
	Pkg       string                 `json:"pkg"`   // package directory relative to Dir
	Files     []string               `json:"files"` // harness sources relative to /verif/harness
	Func      string                 `json:"func"`
	Conf      map[string]interface{} `json:"conf"`
	Quick     map[string]interface{} `json:"quick"`    // overrides of Conf
	Thorough  map[string]interface{} `json:"thorough"` // overrides of Conf
	QBudget   float64                `json:"qbudget"`  // seconds
	TBudget   float64                `json:"tbudget"`
	ThOnly    bool                   `json:"thorough_only"`
	Sched     bool                   `json:"sched"`
	Preempt   int                    `json:"preempt"`
	MapOrder  bool                   `json:"maporder"`
	Coarse    bool                   `json:"coarse"`   // square roots are not defined for the solver
	Monotone  bool                   `json:"monotone"` // rounding keeps the order: known to the solver
	Rand      bool                   `json:"rand"`
	Legacy    bool                   `json:"legacy"`
	StepLimit int64                  `json:"steplimit"`
	QueryMS   int                    `json:"query_ms"`
	Repeat    int                    `json:"repeat"`
	Covers    []string               `json:"covers"`
	Bounds    string                 `json:"bounds"`
	Rewrite   []string               `json:"rewrite,omitempty"` // calls that go to the harness (see rewrite.go)
}

type PropSpec struct {
	Harnesses   []*HSpec `json:"harnesses"`
	Level       string   `json:"level"`
	Assumptions []string `json:"assumptions"`
	Outside     string   `json:"outside"`
}

type Spec struct {
	Props map[string]*PropSpec `json:"props"`
}

func loadSpec(path string) (*Spec, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	s := &Spec{}
	if err := json.Unmarshal(b, s); err != nil {
		return nil, err
	}
	return s, nil
}

func (hs *HSpec) harness(tier string) *Harness {
	c := map[string]interface{}{}
	for k, v := range hs.Conf {
		c[k] = v
	}
	o := hs.Quick
	if tier == "thorough" {
		o = hs.Thorough
	}
	for k, v := range o {
		c[k] = v
	}
	return &Harness{Name: hs.Name, Func: hs.Func, Conf: c, Sched: hs.Sched, Preempt: hs.Preempt, MapOrder: hs.MapOrder,
		StepLimit: hs.StepLimit, QueryMS: hs.QueryMS, Coarse: hs.Coarse, Monotone: hs.Monotone}
}
