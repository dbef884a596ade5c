package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// coverFile is where to write which blocks of the code under test were executed. It is an
// aid for finding templates that are missing and not part of a check.
var coverFile string

// cover marks the block as executed.
func (b *Block) cover() {
	if coverFile != "" && b.fn != nil && b.fn.repo && !b.hit.Load() {
		b.hit.Store(true)
	}
}

// writeCover writes a line "file:line hit" for every line that a block of the code starts at.
func (p *Prog) writeCover() error {
	lines := map[string]bool{}
	p.fns.Range(func(_, v any) bool {
		fn := v.(*Fn)
		if !fn.repo || fn.f == nil {
			return true
		}
		for i, b := range fn.blocks {
			if i >= len(fn.f.Blocks) {
				break
			}
			for _, ins := range fn.f.Blocks[i].Instrs {
				if ins.Pos().IsValid() {
					pos := fn.f.Prog.Fset.Position(ins.Pos())
					k := fmt.Sprintf("%s:%04d", pos.Filename, pos.Line)
					lines[k] = lines[k] || b.hit.Load()
				}
			}
		}
		return true
	})
	var out []string
	for k, hit := range lines {
		out = append(out, fmt.Sprintf("%s %v", k, hit))
	}
	sort.Strings(out)
	return os.WriteFile(coverFile, []byte(strings.Join(out, "\n")+"\n"), 0o644)
}
