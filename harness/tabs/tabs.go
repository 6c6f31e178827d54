// Package tabs reads the constant tables of the AV1 specification from golden/tables.json.gz.
package tabs

import (
	"compress/gzip"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

// T holds tables by name.
type T map[string]interface{}

// Load reads the tables from the /verif directory.
func Load(dir string) T {
	f, err := os.Open(filepath.Join(dir, "golden", "tables.json.gz"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer f.Close()
	t := T{}
	z, err := gzip.NewReader(f)
	if err == nil {
		err = json.NewDecoder(z).Decode(&t)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return t
}

func i1(v interface{}) []int {
	var o []int
	for _, x := range v.([]interface{}) {
		o = append(o, int(x.(float64)))
	}
	return o
}

func i2(v interface{}) [][]int {
	var o [][]int
	for _, x := range v.([]interface{}) {
		o = append(o, i1(x))
	}
	return o
}

func i3(v interface{}) [][][]int {
	var o [][][]int
	for _, x := range v.([]interface{}) {
		o = append(o, i2(x))
	}
	return o
}

func (t T) I1(n string) []int     { return i1(t[n]) }
func (t T) I2(n string) [][]int   { return i2(t[n]) }
func (t T) I3(n string) [][][]int { return i3(t[n]) }
