package main

import (
	"fmt"
	"runtime/debug"

	"github.com/katydid/katydid/parser"
	"github.com/katydid/katydid/relapse"
	"github.com/katydid/katydid/relapse/ast"
	"github.com/katydid/katydid/relapse/auto"
	"github.com/katydid/katydid/relapse/intern"
	"github.com/katydid/katydid/relapse/interp"
	"github.com/katydid/katydid/relapse/mem"
)

// verdict runs f and classifies its result: T, F, E (error), P (panic).
func verdict(f func() (bool, error)) (v string, detail string) {
	defer func() {
		if r := recover(); r != nil {
			v = "P"
			detail = fmt.Sprintf("panic: %v\n%s", r, shortStack())
		}
	}()
	b, err := f()
	if err != nil {
		return "E", err.Error()
	}
	if b {
		return "T", ""
	}
	return "F", ""
}

func shortStack() string {
	s := string(debug.Stack())
	if len(s) > 2500 {
		s = s[:2500]
	}
	return s
}

func try(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("panic: %v\n%s", r, shortStack())
		}
	}()
	f()
	return ""
}

func runMem(g *ast.Grammar, p parser.Interface) (bool, error) {
	m, err := relapse.Prepare(g)
	if err != nil {
		return false, err
	}
	return relapse.Validate(m, p)
}

var engines = map[string]func(g *ast.Grammar, p parser.Interface) (bool, error){
	"mem":    runMem,
	"interp": interp.Interpret,
	"intern": func(g *ast.Grammar, p parser.Interface) (bool, error) { return intern.Interpret(g, false, p) },
	"internrec": func(g *ast.Grammar, p parser.Interface) (bool, error) { return intern.Interpret(g, true, p) },
	"memrec": func(g *ast.Grammar, p parser.Interface) (bool, error) {
		m, err := mem.NewRecord(g)
		if err != nil {
			return false, err
		}
		return m.Validate(p)
	},
	"auto": func(g *ast.Grammar, p parser.Interface) (bool, error) {
		a, err := auto.Compile(g)
		if err != nil {
			return false, err
		}
		return a.Validate(p)
	},
	"autorec": func(g *ast.Grammar, p parser.Interface) (bool, error) {
		a, err := auto.CompileRecord(g)
		if err != nil {
			return false, err
		}
		return a.Validate(p)
	},
}
