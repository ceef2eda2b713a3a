// Package gotree is an offline stand-in for github.com/DiSiqueira/GoTree
package gotree

import "strings"

// GTStructure is a node of a tree
type GTStructure struct {
	Name  string
	Items []*GTStructure
}

// StringTree renders the tree
func StringTree(object *GTStructure) (result string) {
	result = object.Name + "\n"
	render(&result, object.Items, "")
	return
}

func render(r *string, items []*GTStructure, pad string) {
	for i, it := range items {
		head, next := "├── ", "│   "
		if i == len(items)-1 {
			head, next = "└── ", "    "
		}
		*r += pad + head + strings.Replace(it.Name, "\n", "\n"+pad+next, -1) + "\n"
		render(r, it.Items, pad+next)
	}
}

// PrintTree is StringTree
func PrintTree(object *GTStructure) string { return StringTree(object) }
