package main

import (
	"errors"
	"fmt"
	"io"
)

// TreeParser is a parser.Interface over an explicit tree.  It also polices the
// parser protocol: every call a client is not entitled to make is recorded.
type TreeParser struct {
	root  []*Node
	stack []tpos
	cur   tpos
	bad   []string
	Log   []string // calls, when rec is set
	rec   bool
	calls int
	// failAt > 0: the failAt'th Next call fails with errInjected
	nexts  int
	failAt int
}

type tpos struct {
	ns []*Node
	i  int // index of the current node, -1 before the first Next
}

// what a Next can fail with; none of them is the end of the input
var errInjected = []error{
	errors.New("verif: injected read error"),
	io.ErrUnexpectedEOF,
	errors.New("EOF"),
	io.ErrNoProgress,
	&injected{},
	io.ErrClosedPipe,
}

type injected struct{}

func (*injected) Error() string   { return "" }
func (*injected) Timeout() bool   { return true }
func (*injected) Temporary() bool { return true }
var errNo = errors.New("verif: value has another type")

func NewTreeParser(ns []*Node) *TreeParser {
	return &TreeParser{root: ns, cur: tpos{ns, -1}}
}

func (p *TreeParser) Reset() error {
	p.stack = p.stack[:0]
	p.cur = tpos{p.root, -1}
	return nil
}

func (p *TreeParser) viol(f string, a ...interface{}) { p.bad = append(p.bad, fmt.Sprintf(f, a...)) }

func (p *TreeParser) step(ev string) {
	p.calls++
	if p.rec {
		p.Log = append(p.Log, ev)
	}
	if p.calls > 5000000 {
		panic("verif: too many parser calls")
	}
}

func (p *TreeParser) Next() error {
	p.nexts++
	if p.failAt > 0 && p.nexts >= p.failAt {
		p.step("err")
		return errInjected[(p.failAt+countNodes(p.root))%len(errInjected)]
	}
	if p.cur.i >= len(p.cur.ns) {
		p.viol("Next after end of input at depth %d", len(p.stack))
		p.step("eof")
		return io.EOF
	}
	p.cur.i++
	if p.cur.i >= len(p.cur.ns) {
		p.step("eof")
		return io.EOF
	}
	p.step("next")
	return nil
}

// val logs an access to the current position, once
func (p *TreeParser) val(ev string) {
	if p.rec && (len(p.Log) == 0 || p.Log[len(p.Log)-1] != ev) {
		p.Log = append(p.Log, ev)
	}
}

func (p *TreeParser) at(what string) *Node {
	if what != "Down" {
		p.val(map[bool]string{true: "leaf", false: "val"}[what == "IsLeaf"])
	}
	if p.cur.i < 0 || p.cur.i >= len(p.cur.ns) {
		p.viol("%s without a current node", what)
		return nil
	}
	return p.cur.ns[p.cur.i]
}

func (p *TreeParser) IsLeaf() bool {
	n := p.at("IsLeaf")
	return n == nil || n.Leaf
}

func (p *TreeParser) Down() {
	n := p.at("Down")
	p.step("down")
	if n == nil {
		return
	}
	if n.Leaf {
		p.viol("Down on a leaf")
	}
	p.stack = append(p.stack, p.cur)
	p.cur = tpos{n.C, -1}
}

func (p *TreeParser) Up() {
	p.step("up")
	if len(p.stack) == 0 {
		p.viol("Up at the root")
		return
	}
	p.cur = p.stack[len(p.stack)-1]
	p.stack = p.stack[:len(p.stack)-1]
}

func (p *TreeParser) Double() (float64, error) {
	if n := p.at("Double"); n != nil && n.L.D != nil {
		return *n.L.D, nil
	}
	return 0, errNo
}
func (p *TreeParser) Int() (int64, error) {
	if n := p.at("Int"); n != nil && n.L.I != nil {
		return *n.L.I, nil
	}
	return 0, errNo
}
func (p *TreeParser) Uint() (uint64, error) {
	if n := p.at("Uint"); n != nil && n.L.U != nil {
		return *n.L.U, nil
	}
	return 0, errNo
}
func (p *TreeParser) Bool() (bool, error) {
	if n := p.at("Bool"); n != nil && n.L.B != nil {
		return *n.L.B, nil
	}
	return false, errNo
}
func (p *TreeParser) String() (string, error) {
	if n := p.at("String"); n != nil && n.L.S != nil {
		return *n.L.S, nil
	}
	return "", errNo
}
func (p *TreeParser) Bytes() ([]byte, error) {
	if n := p.at("Bytes"); n != nil && n.L.HasY {
		return n.L.Y, nil
	}
	return nil, errNo
}
