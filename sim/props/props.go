// Package props holds the simulated scenarios, one per property.
package props

import (
	"sort"

	"verif.local/sim/engine"
)

// Property is a checkable property.
type Property struct {
	ID       string
	Quick    int // runs in the quick tier
	Thorough int
	Rule     string
	Assume   []string
	Scenario func(r *engine.Run, idx int)
}

var registry = map[string]*Property{}

func register(p *Property) {
	registry[p.ID] = p
	if len(soakPlans[p.ID]) > 0 {
		withSoak(p)
	}
}

// Get finds a property.
func Get(id string) *Property { return registry[id] }

// All lists the properties.
func All() []*Property {
	var l []*Property
	for _, p := range registry {
		l = append(l, p)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	return l
}
