package main

import (
	"fmt"
	"os"
	"time"
)

// slow reports expensive cases when DPV_SLOW is set (milliseconds).
func slow(raw []byte, d time.Duration) {
	if os.Getenv("DPV_SLOW") != "" && d > 400*time.Millisecond {
		fmt.Fprintf(os.Stderr, "SLOW %s %.500s\n", d, raw)
	}
}
