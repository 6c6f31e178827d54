// Package none stands in for a check whose internal seams are not there under the names it knows.
package none

import "github.com/m4tthewde/gov1/internal/zzverif/mc"

// Main reports that nothing was explored.
func Main() {
	r := mc.Start()
	r.Assume("NOT EXPLORED: the internal functions this check drives are not there under the names and types it knows")
	r.Explore(mc.Scenario{Name: "seams missing", Run: func(c *mc.Ch) *mc.Fail { c.Note("nothing to drive"); return nil }})
	r.Finish()
}
