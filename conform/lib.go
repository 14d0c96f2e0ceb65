// Package conform is only here so that the module has a library.
package conform

import "sync"

// N counts calls since the process started.
var N = start()

var log []string

var once sync.Once

func start() int { log = append(log, "start"); return 40 }

func init() { N++ }
func init() { N++; once.Do(func() { log = append(log, "once") }) }

func Call() (int, []string) {
	N++
	log = append(log, "call")
	return N, log
}
