package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// chanRun follows channels: which are closed, and what that means for
// receives and selects. Channels made in the run are open and known to
// nobody else unless env says so.
type chanRun struct {
	*procRun
	env   func(st *State, ch string) bool // others may close or fill the channel
	sends func(st *State, at ssa.Instruction, ch string, v Value)
	recvs func(st *State, at ssa.Instruction, ch string, T types.Type) Value
	shut  func(st *State, at ssa.Instruction, ch string)
	rule  func(rule string, at ssa.Instruction, ok bool, st *State, what string)
}

func isShut(st *State, ch string) bool { return st.disc["shut:"+ch] == "1" }

func (c *chanRun) hook() {
	pr := c.procRun
	pr.onClose = func(st *State, at ssa.Instruction, chv Value) {
		ch := refKey(chv)
		nilCh := true
		if b, known := st.eval(st.nilCond(chv)); known {
			nilCh = b
		} else if isNew(ch) {
			nilCh = false
		}
		c.rule("close-nil", at, !nilCh, st, "a channel that may be nil is closed")
		c.rule("close-once", at, ch != "" && !isShut(st, ch), st, "a channel is closed twice")
		if c.shut != nil {
			c.shut(st, at, ch)
		}
		st.disc["shut:"+ch] = "1"
	}
	pr.onSend = func(st *State, at ssa.Instruction, chv, v Value, sel bool) {
		ch := refKey(chv)
		c.rule("send-open", at, !isShut(st, ch), st, "something is sent on a channel that is closed")
		if b, known := st.eval(st.nilCond(chv)); known && b {
			st.dead = true // blocks for ever
			return
		}
		if c.sends != nil {
			c.sends(st, at, ch, v)
		}
	}
	pr.onRecv = func(st *State, at ssa.Instruction, chv Value, T types.Type) Value {
		ch := refKey(chv)
		if b, known := st.eval(st.nilCond(chv)); known && b {
			st.dead = true
			return nil
		}
		if isShut(st, ch) {
			if c.recvs != nil {
				c.recvs(st, at, ch, T)
			}
			st.gv["@recvok"] = VBool{boolC(false)}
			return zeroValue(T)
		}
		if isNew(ch) && (c.env == nil || !c.env(st, ch)) {
			st.dead = true // nobody sends or closes it
			return nil
		}
		if c.recvs != nil {
			return c.recvs(st, at, ch, T)
		}
		return nil
	}
	pr.onSelect = func(st *State, at *ssa.Select, idx int) {
		if idx != -1 {
			return
		}
		for _, s := range at.States {
			v := c.in.val(st, st.top(), s.Chan)
			if s.Dir == types.RecvOnly && isShut(st, refKey(v)) {
				st.dead = true // not blocked: the default is not taken
			}
		}
	}
}
