//go:build go1.22

// cfg starts with the configuration in $SORTY_CFG and sorts something.
package main

import (
	"fmt"
	"os"

	sorty "github.com/jfcg/sorty/v2"
)

func main() {
	fmt.Println("started")
	a := make([]int, 3000)
	for i := range a {
		a[i] = i * 7919 % 3001
	}
	sorty.SortSlice(a)
	if i := sorty.IsSortedSlice(a); i != 0 {
		fmt.Println("unsorted at", i)
		os.Exit(3)
	}
	fmt.Println("sorted")
}
