// Package pretty is an offline stand-in for github.com/kr/pretty
package pretty

import "fmt"

// Println with %+v
func Println(a ...interface{}) (n int, err error) { return fmt.Printf("%+v\n", a) }

// Sprint with %+v
func Sprint(a ...interface{}) string { return fmt.Sprintf("%+v", a) }

// Print with %+v
func Print(a ...interface{}) (n int, err error) { return fmt.Printf("%+v", a) }
