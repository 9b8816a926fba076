// Command cmd writes the answers of one kind, numbers FROM up to TO.
package main

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"time"

	"verif/mc/narrow"
)

func main() {
	time.Local = time.UTC
	from, _ := strconv.Atoi(os.Args[2])
	to, _ := strconv.Atoi(os.Args[3])
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for _, k := range narrow.Kinds {
		if k.Name == os.Args[1] {
			for i := from; i < to; i++ {
				for _, l := range k.Lines(i) {
					fmt.Fprintln(w, l)
				}
			}
		}
	}
}
