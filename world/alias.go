// Package world holds the simulated workloads and their oracles.
package world

import "verif/plan"

type (
	Op        = plan.Op
	Plan      = plan.Plan
	Violation = plan.Violation
	Report    = plan.Report
)
