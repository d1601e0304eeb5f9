package main

import "fmt"

func (t *T) dump(d int, ind string, seen map[int]bool) string {
	if t.op != OIte {
		return ind + t.String() + "\n"
	}
	if seen[t.id] || d == 0 {
		return ind + fmt.Sprintf("#%d...\n", t.id)
	}
	seen[t.id] = true
	return ind + fmt.Sprintf("#%d if ", t.id) + t.args[0].String() + "\n" + t.args[1].dump(d-1, ind+"  ", seen) + t.args[2].dump(d-1, ind+"  ", seen)
}

// firstDiff describes the first place two similar terms part.
func firstDiff(a, b *T) string {
	if a == b {
		return "equal"
	}
	if a.op == b.op && a.s == b.s && len(a.args) == len(b.args) && a.n == b.n && a.k == b.k {
		for i := range a.args {
			if a.args[i] != b.args[i] {
				return fmt.Sprintf("%d.", i) + firstDiff(a.args[i], b.args[i])
			}
		}
	}
	return "\n  A: " + a.show(9, 3000) + "\n  B: " + b.show(9, 3000)
}
