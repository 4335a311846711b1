package main

import (
	"fmt"
	"io/ioutil"
	"os"

	"verifharness/minidb"
)

// "db DIALECT CURRENT DESIRED" shows one migration against a stand-in server.
func init() {
	subcommands["db"] = func(a []string) {
		r := &Run{Tier: "quick", Bin: os.Getenv("VH_BIN"), Scratch: os.Getenv("VH_SCRATCH"), distinct: map[uint64]bool{}, counters: map[string]int{}, states: map[string]map[uint64]bool{}}
		d := map[string]minidb.Dialect{"mysql": minidb.MySQL, "pg": minidb.PG, "mssql": minidb.MSSQL}[a[0]]
		x := r.rig(d)
		defer x.close()
		read := func(n string) string { b, _ := ioutil.ReadFile(n); return string(b) }
		db := minidb.New(d, "testdb")
		if err := db.ExecScript(read(a[1])); err != nil {
			fmt.Println("current:", err)
		}
		x.set(db)
		o, ob := x.run("", nil, "--export")
		fmt.Println(o.String(), ob.Unknown)
		fmt.Println(o.Stdout)
		for i := 0; i < 2; i++ {
			o, ob = x.run(read(a[2]), nil)
			fmt.Println("exit", o.Code, o.Stdout, o.Stderr, ob.Unknown)
			for _, e := range ob.log() {
				fmt.Println("  ", e)
			}
		}
		for _, l := range x.state().Dump() {
			fmt.Println(l)
		}
	}
}
