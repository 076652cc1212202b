package main

// Models of sync/atomic and sync.Map: paths are sequential, so they are ordinary memory.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	kinds := map[string]intKind{"Int32": {32, true}, "Int64": {64, true}, "Uint32": {32, false}, "Uint64": {64, false}, "Uintptr": {64, false}, "Pointer": {}}
	cell := func(v value) *value {
		p, _ := v.(*value)
		if p == nil {
			nilDeref()
		}
		return p
	}
	for n, k := range kinds {
		n, k := n, k
		at := "sync/atomic."
		intrinsics[at+"Load"+n] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return *cell(a[0]) }
		intrinsics[at+"Store"+n] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			*cell(a[0]) = a[1]
			return nil
		}
		intrinsics[at+"Swap"+n] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			p := cell(a[0])
			old := *p
			*p = a[1]
			return old
		}
		intrinsics[at+"CompareAndSwap"+n] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
			p := cell(a[0])
			same := false
			if n == "Pointer" {
				same = *p == a[1]
			} else {
				same = it.c.truth(it.c.intCmp("==", *p, a[1], k))
			}
			if same {
				*p = a[2]
			}
			return same
		}
		if n != "Pointer" {
			intrinsics[at+"Add"+n] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
				p := cell(a[0])
				*p = it.c.intBin("+", *p, a[1], k)
				return *p
			}
		}
	}
	vcell := func(v value) *value { return &(*cell(v)).(structure)[0] }
	av := "(*sync/atomic.Value)."
	intrinsics[av+"Load"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value { return *vcell(a[0]) }
	intrinsics[av+"Store"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		*vcell(a[0]) = a[1]
		return nil
	}
	intrinsics[av+"Swap"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		p := vcell(a[0])
		old := *p
		*p = a[1]
		return old
	}
	table := func(it *Interp, v value) *mapobj {
		k := fmt.Sprintf("syncmap:%p", cell(v))
		m, _ := it.side[k].(*mapobj)
		if m == nil {
			m = newMap()
			it.side[k] = m
		}
		return m
	}
	// a key that is a plain string is looked up as one, so that it may be symbolic
	str := types.Typ[types.String]
	key := func(v value) value {
		if f, ok := v.(iface); ok && f.t != nil && types.Identical(f.t, str) {
			return f.v
		}
		return v
	}
	sm := "(*sync.Map)."
	intrinsics[sm+"Load"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		if e := it.c.mapFind(table(it, a[0]), key(a[1])); e != nil {
			return tuple{e.v, true}
		}
		return tuple{iface{}, false}
	}
	intrinsics[sm+"Store"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		it.c.mapSet(table(it, a[0]), key(a[1]), a[2])
		return nil
	}
	intrinsics[sm+"LoadOrStore"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		m := table(it, a[0])
		if e := it.c.mapFind(m, key(a[1])); e != nil {
			return tuple{e.v, true}
		}
		it.c.mapSet(m, key(a[1]), a[2])
		return tuple{a[2], false}
	}
	intrinsics[sm+"Swap"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		m := table(it, a[0])
		var out value = tuple{iface{}, false}
		if e := it.c.mapFind(m, key(a[1])); e != nil {
			out = tuple{e.v, true}
		}
		it.c.mapSet(m, key(a[1]), a[2])
		return out
	}
	intrinsics[sm+"LoadAndDelete"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		m := table(it, a[0])
		if e := it.c.mapFind(m, key(a[1])); e != nil {
			v := e.v
			it.c.mapDelete(m, key(a[1]))
			return tuple{v, true}
		}
		return tuple{iface{}, false}
	}
	intrinsics[sm+"Delete"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		it.c.mapDelete(table(it, a[0]), key(a[1]))
		return nil
	}
	intrinsics[sm+"Clear"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		*table(it, a[0]) = *newMap()
		return nil
	}
	intrinsics[sm+"Range"] = func(it *Interp, fr *frame, fn *ssa.Function, a []value) value {
		m := table(it, a[0])
		for _, e := range append([]*mapent{}, m.ents...) {
			k := e.k
			if _, ok := k.(iface); !ok {
				k = iface{str, k}
			}
			if !e.deleted && !it.c.truth(it.callValue(a[1], []value{k, e.v}, fr)) {
				break
			}
		}
		return nil
	}
}
