package main

import (
	"go/types"
	"sort"
	"strings"
)

// lockOp recognises the operations of sync.Mutex and sync.RWMutex.
func lockOp(c *CallInfo) (op, key string, ok bool) {
	if c.Fn == nil || c.Fn.Object() == nil || c.Fn.Object().Pkg() == nil || c.Fn.Object().Pkg().Path() != "sync" {
		return
	}
	s := c.Fn.Signature
	if s.Recv() == nil || len(c.Args) == 0 {
		return
	}
	n, isN := ptrToNamed(s.Recv().Type())
	if !isN || n.Obj().Name() != "Mutex" && n.Obj().Name() != "RWMutex" {
		return
	}
	switch c.Fn.Name() {
	case "Lock", "RLock", "Unlock", "RUnlock", "TryLock", "TryRLock":
	default:
		return
	}
	if r, isR := c.Args[0].(VRef); isR {
		return c.Fn.Name(), r.K + r.Path, true
	}
	return c.Fn.Name(), "?" + c.Args[0].key(), true
}

// held lists the locks held by the goroutine analysed.
func held(st *State) []string {
	if st.disc["held"] == "" {
		return nil
	}
	return strings.Split(st.disc["held"], " ")
}

func holds(st *State, key string) bool {
	for _, h := range held(st) {
		if h == key || h == "r:"+key {
			return true
		}
	}
	return false
}

// lockCall keeps track of the locks held and lets others change what the
// lock protects before it is taken.
func (w *world) lockCall(st *State, c *CallInfo) ([]stVal, bool) {
	op, key, ok := lockOp(c)
	if !ok {
		return nil, false
	}
	hs := held(st)
	rm := func(k string) {
		for i, h := range hs {
			if h == k {
				hs = append(append([]string{}, hs[:i]...), hs[i+1:]...)
				break
			}
		}
	}
	put := func(st *State, hs []string) {
		sort.Strings(hs)
		st.disc["held"] = strings.Join(hs, " ")
	}
	if w.lockHook != nil {
		w.lockHook(st, c, op, key)
		if st.dead {
			return nil, true
		}
	}
	pre := ""
	if strings.Contains(op, "RLock") || op == "RUnlock" {
		pre = "r:"
	}
	switch op {
	case "Unlock", "RUnlock":
		rm(pre + key)
		put(st, hs)
		return one(st, nil)
	case "TryLock", "TryRLock":
		no := st.clone()
		put(st, append(hs, pre+key))
		return []stVal{{st, VBool{boolC(true)}}, {no, VBool{boolC(false)}}}, true
	}
	put(st, append(hs, pre+key))
	if w.lockFork != nil {
		var outs []stVal
		for _, s := range w.lockFork(st, c, op, key) {
			outs = append(outs, stVal{s, nil})
		}
		return outs, true
	}
	return one(st, nil)
}

// shareTables forgets the content of the maps of object k: others may have
// changed them before the lock was taken.
func (w *world) shareTables(st *State, k string, T *types.Named) {
	w.p.eachCell(T, "", func(path string, FT types.Type) {
		if _, ok := FT.Underlying().(*types.Map); ok {
			st.maps[k+path] = &MapC{base: w.in.freshKey("shared" + path)}
		}
	})
}
