// Package gotree is an offline stand-in.
package gotree

import "strings"

type GTStructure struct {
	Name  string
	Items []*GTStructure
}

func StringTree(g *GTStructure) string {
	var sb strings.Builder
	write(&sb, g, 0)
	return sb.String()
}

func write(sb *strings.Builder, g *GTStructure, d int) {
	sb.WriteString(strings.Repeat("  ", d) + g.Name + "\n")
	for _, it := range g.Items {
		write(sb, it, d+1)
	}
}
