package h

var failed, problem string

// Once carries a case out, unless one has failed: then that one fails again and others pass, for cases that take
// too long to look for a smaller one.
func Once(name string, run func() string) string {
	if failed == "" {
		if problem = run(); problem != "" {
			failed = name
		}
		return problem
	}
	if name == failed {
		return problem
	}
	return ""
}
