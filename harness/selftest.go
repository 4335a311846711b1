package main

import "fmt"

// selftests are checks of the harness itself (models, oracles), run by setup.sh.
var selftests = map[string]func() error{}

func init() {
	subcommands["selftest"] = func([]string) {
		bad := 0
		for n, f := range selftests {
			if err := f(); err != nil {
				fmt.Println("SELFTEST", n, err)
				bad++
			}
		}
		fmt.Println("selftests:", len(selftests), "failed:", bad)
		if bad > 0 {
			panic("selftest failed")
		}
	}
}
